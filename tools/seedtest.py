"""python3 tools/seedtest.py [ids] : runs the stable tests with each planted bug applied, in a clone; records tools/seedtests.json."""
import json, os, shutil, subprocess, sys

HOME = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLONE = "/tmp/seedtestrepo"
OUT = HOME + "/tools/seedtests.json"


def sh(cmd, **kw):
    return subprocess.run(["bash", "-c", cmd], text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)


def main():
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    done = json.load(open(OUT)) if os.path.exists(OUT) else {}
    ids = sys.argv[1:] or [i for i in sorted(os.listdir(HOME + "/seeded")) if not done.get(i, {}).get("ok")]
    for i in ids:
        shutil.rmtree(CLONE, ignore_errors=True)
        sh("git clone -q /repo %s" % CLONE)
        patch = "%s/seeded/%s/patch.diff" % (HOME, i)
        a = sh("git apply " + patch, cwd=CLONE)
        if a.returncode:
            print(i, "does not apply", a.stdout[-300:])
            continue
        sh("sed 's#/repo#%s#g' /opt/vp/env.sh > /tmp/seedtest.env; . /tmp/seedtest.env; /opt/venv/bin/python -m pytest -o addopts= -q -p no:cacheprovider "
           "-p reagent_compat -n 8 --timeout=300 --continue-on-collection-errors --tb=short -o junit_family=xunit2 --junitxml=/tmp/seedtest.xml" % CLONE, cwd=CLONE)
        sh("python3 /opt/vp/results.py /tmp/seedtest.json junit:/tmp/seedtest.xml")
        passed = set(json.load(open("/tmp/seedtest.json"))["passed"])
        lost = sorted(stable - passed)
        done[i] = dict(ok=not lost, lost=lost[:5])
        print(i, "ok" if not lost else "LOST %d: %s" % (len(lost), lost[:3]), flush=True)
        json.dump(done, open(OUT, "w"), indent=1, sort_keys=True)
    shutil.rmtree(CLONE, ignore_errors=True)


main()

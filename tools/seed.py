"""python3 tools/seed.py FILE.py : FILE defines SEEDS = [dict(id, property, edits=[(path, old, new)...], needs, breaks, demo)]
Makes seeded/<id>/ and confirms: demo passes on /repo, fails with the patch; --tests also runs the stable tests with it."""
import importlib.util, json, os, shutil, subprocess, sys

HOME = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCRATCH = "/tmp/seedrepo"
DEMO = '#!/bin/bash\nhere="$(cd "$(dirname "$0")" && pwd)"\n. /opt/vp/env.sh\nexport PYTHONWARNINGS=ignore\nexec /opt/venv/bin/python "$here/demo.py"\n'


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)


def main():
    spec = importlib.util.spec_from_file_location("s", sys.argv[1])
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    only = [a for a in sys.argv[2:] if not a.startswith("--")]
    for s in m.SEEDS:
        if only and s["id"] not in only:
            continue
        d = os.path.join(HOME, "seeded", s["id"])
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        sh("git worktree prune", cwd="/repo")
        shutil.rmtree(SCRATCH, ignore_errors=True)
        sh("git clone -q /repo %s" % SCRATCH)
        for path, old, new in s["edits"]:
            p = os.path.join(SCRATCH, path)
            t = open(p).read()
            assert t.count(old) == 1, (s["id"], path, t.count(old), old)
            open(p, "w").write(t.replace(old, new))
        diff = sh("git diff", cwd=SCRATCH).stdout
        open(d + "/patch.diff", "w").write(diff)
        open(d + "/demo.py", "w").write("import reagent_compat  # noqa\n" + s["demo"].strip("\n") + "\n")
        open(d + "/demo.sh", "w").write(DEMO)
        os.chmod(d + "/demo.sh", 0o755)
        json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["breaks"]), open(d + "/meta.json", "w"), indent=1)
        open(d + "/meta.json", "a").write("\n")
        a = sh(d + "/demo.sh", cwd="/repo")
        env = "sed 's#/repo#%s#g' /opt/vp/env.sh" % SCRATCH
        b = sh("bash -c '. <(%s); export PYTHONWARNINGS=ignore; exec /opt/venv/bin/python %s/demo.py'" % (env.replace("'", '"'), d), cwd=SCRATCH)
        chk = sh("git -C /repo apply --check %s/patch.diff" % d)
        print("%s: clean rc=%d patched rc=%d apply=%d" % (s["id"], a.returncode, b.returncode, chk.returncode), flush=True)
        if a.returncode:
            print(a.stdout[-1500:])
        print("   ", b.stdout.strip().splitlines()[-1:] )
        if not b.returncode:
            print("NOT BROKEN BY PATCH")
    shutil.rmtree(SCRATCH, ignore_errors=True)


main()

"""python3 tools/catch.py [ids...] : runs the check of every planted bug against a scratch clone of /repo with the bug, records tools/caught.json"""
import glob, json, os, re, shutil, subprocess, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/catchrepo"
f = H + "/tools/caught.json"
c = json.load(open(f)) if os.path.exists(f) else {}
for m in sorted(glob.glob(H + "/seeded/*/meta.json")):
    i = os.path.basename(os.path.dirname(m)); d = json.load(open(m))
    if sys.argv[1:] and i not in sys.argv[1:]:
        continue
    shutil.rmtree(W, ignore_errors=True)
    subprocess.check_call(["git", "clone", "-q", "/repo", W])
    subprocess.check_call(["git", "-C", W, "apply", os.path.dirname(m) + "/patch.diff"])
    r = subprocess.run(["./run.sh", d["property"]], cwd=H, env=dict(os.environ, VERIF_REPO=W), text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION property=%s " % d["property"])]
    g = re.findall(r"^  ([\w.+-]+)/", r.stdout, flags=re.M)
    c[i] = ("caught by %s (%s)" % (d["property"], ", ".join(sorted(set(g))[:3]))) if r.returncode == 1 and v else "missed (rc=%d)" % r.returncode
    print(i, c[i], flush=True)
    json.dump(c, open(f, "w"), indent=1, sort_keys=True)
    open(f, "a").write("\n")
shutil.rmtree(W, ignore_errors=True)

"""fills the tables of DESIGN.md from KNOWN_FINDINGS.txt, seeded/ and tools/caught.json"""
import glob, json, os, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = H + "/DESIGN.md"
s = open(p).read()
def block(name, text):
    global s
    b, e = "<!-- %s -->" % name, "<!-- /%s -->" % name
    new = "%s\n%s\n%s" % (b, text, e)
    if b in s:
        s = re.sub(re.escape(b) + ".*?" + re.escape(e), lambda m: new, s, flags=re.S)
    else:
        s = s.replace(name, new)
fx = [re.match(r"fixed: property=(\S+) (\S+) (.*)", l).groups() for l in open(H + "/KNOWN_FINDINGS.txt") if l.startswith("fixed:")]
block("FIXTABLE", "%d repaired defects (all of them first shown by the named check against the real code):\n\n| property | commit | what failed |\n|---|---|---|\n" % len(fx) + "\n".join("| %s | %s | %s |" % f for f in fx))
c = json.load(open(H + "/tools/caught.json")) if os.path.exists(H + "/tools/caught.json") else {}
rows = []
for m in sorted(glob.glob(H + "/seeded/*/meta.json")):
    i = os.path.basename(os.path.dirname(m)); d = json.load(open(m))
    rows.append("| %s | %s | %s | %s | %s |" % (i, d["property"], d["what_it_breaks"], d["needs"], c.get(i, "not run yet")))
block("SEEDTABLE", "| id | property | breaks | needs | check |\n|---|---|---|---|---|\n" + "\n".join(rows))
open(p, "w").write(s)

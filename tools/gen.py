#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (a maintenance tool, no check runs it)."""
import json, os, re, sys

HOME = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), level_note=None, technique=None, na=None, observe=()):
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()), over=over, text=" ".join(text.split()), why=" ".join(why.split()),
                  files=files, mech=mech, state=state, level_note=level_note, technique=technique, na=na, observe=observe))


exec(open(os.path.join(HOME, "tools", "properties_table.py")).read())


def level_of(pid):
    f = os.path.join(HOME, "checks", pid.lower() + ".py")
    if not os.path.exists(f):
        return None
    return re.search(r'^LEVEL = "(\w+)"', open(f).read(), re.M).group(1)


TECH = {
    "model_checking": "exhaustive bounded exploration of the real code, lockstep with an explicit reference model",
    "fault_enumeration": "exhaustive enumeration of crash points and faults on the real code",
    "exploration": "exhaustive bounded enumeration of executions of the real code",
}
lines, checks, na = [], [], []
for p in P:
    assert len(p["title"]) <= 80, p["title"]
    assert len(re.findall(r"[.!?](\s|$)", p["statement"])) <= 3, p["id"]
    a = dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]])
    if p["state"]:
        a["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in p["state"]]
    if p["observe"]:
        a["observe_at"] = list(p["observe"])
    a["hook_needed"] = None
    lines.append(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
                                 quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"], anchors=a)))
    for f in p["files"]:
        if not os.path.exists(os.path.join("/repo", f)):
            print("missing", p["id"], f)
    lv = level_of(p["id"])
    if p["na"] or lv is None:
        na.append(dict(property=p["id"], reason=p["na"] or "no check built yet"))
        continue
    checks.append(dict(
        property=p["id"], quick_cmd="./run.sh %s" % p["id"], thorough_cmd="VERIF_TIER=thorough ./run.sh %s" % p["id"],
        evidence_file="evidence/%s.json" % p["id"], technique=p["technique"] or TECH[lv], level=lv,
        level_note=" ".join((p["level_note"] or "").split()) or "Every execution inside the bounds stated in DESIGN.md runs the real code and is compared with an independent reference; nothing is claimed outside those bounds."))
open(os.path.join(HOME, "properties.jsonl"), "w").write("\n".join(lines) + "\n")
json.dump(dict(version=1, setup_cmd="./setup.sh",
               hooks=dict(guard="none", enable="no hooks: the checks drive the unmodified sources of /repo", source_commits=[]),
               checks=checks, not_applicable=na,
               notes="Python sources of /repo are imported directly, so every run sees the current working tree. Commits in /repo are fix: commits only."),
          open(os.path.join(HOME, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(HOME, "MANIFEST.json"), "a").write("\n")
print(len(P), "properties", len(checks), "checks", [x["property"] for x in na])

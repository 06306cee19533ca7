#!/usr/bin/env python3
"""Writes properties.jsonl, checks.json and MANIFEST.json from the definitions in tools/props/*.py."""
import json, os, glob, sys
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
PROPS, NA = [], []

def P(id, title, statement, over, text, why, files, mech, pkg, bounds, outside, quick, thorough=None, assumptions=(), note="", level="model_checking", technique=None, state=None):
    assert len(title) <= 80, title
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                      pkg=pkg, bounds=bounds, outside=outside, quick=quick, thorough=thorough or [], assumptions=list(assumptions),
                      note=note, level=level, technique=technique, state=state))

def H(fn, budget=60, params=None, reach=("done",), bounds="", stress=False, finding=False):
    d = {"fn": fn, "budget": budget}
    if params: d["params"] = params
    if reach: d["reach"] = list(reach)
    if bounds: d["bounds"] = bounds
    if stress: d["stress"] = True
    if finding: d["finding"] = True
    return d

def N(id, title, statement, over, text, why, files, mech, reason):
    NA.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, reason=reason))

for f in sorted(glob.glob(os.path.join(here, "props", "*.py"))):
    exec(compile(open(f).read(), f, "exec"))

with open(os.path.join(root, "properties.jsonl"), "w") as out:
    for p in PROPS + NA:
        rec = {"id": p["id"], "title": p["title"], "statement": p["statement"],
               "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
               "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}}
        out.write(json.dumps(rec) + "\n")
checks = {}
for p in PROPS:
    checks[p["id"]] = {"pkg": p["pkg"], "level": p["level"], "bounds": p["bounds"], "outside": p["outside"],
                       "assumptions": p["assumptions"], "quick": p["quick"], "thorough": p["thorough"] or p["quick"]}
json.dump(checks, open(os.path.join(root, "checks.json"), "w"), indent=1)
TECH = "symbolic execution of the Go SSA of /repo with an SMT solver (bounded), counterexamples replayed natively"
man = {"version": 1, "setup_cmd": "./build_engine.sh", "checks": [], "not_applicable": [{"property": n["id"], "reason": n["reason"]} for n in NA],
       "notes": "Every check regenerates its encoding from /repo's working tree. See DESIGN.md."}
for p in PROPS:
    man["checks"].append({"property": p["id"], "quick_cmd": "./run_check.sh %s quick" % p["id"], "thorough_cmd": "./run_check.sh %s thorough" % p["id"],
        "evidence_file": "evidence/%s.json" % p["id"], "technique": p["technique"] or TECH, "level": p["level"],
        "level_note": ("Holds for all values within the bounds: " + p["bounds"] + " Outside: " + p["outside"] + (" " + p["note"] if p["note"] else "")).strip()})
json.dump(man, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(PROPS), "claimed", len(NA), "not applicable")

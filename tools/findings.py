#!/usr/bin/env python3
"""Writes known_findings.json: fixed entries from /repo's fix: commits (tools/fixes.txt names the property), known ones from tools/known.json."""
import subprocess, json, os
t = os.path.dirname(os.path.abspath(__file__))
m = [l.rstrip("\n").split(" ", 1) for l in open(t + "/fixes.txt") if l.strip()]
out = json.load(open(t + "/known.json")) if os.path.exists(t + "/known.json") else []
for l in subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], text=True).splitlines():
    h, s = l.split(" ", 1)
    if not s.startswith("fix: "):
        continue
    s = s[5:]
    p = [a for a, b in m if s.startswith(b)]
    assert len(p) == 1, s
    out.append({"property": p[0], "status": "fixed", "commit": h, "what": s, "line": f"fixed: property={p[0]} {h} {s}"})
json.dump(out, open(t + "/../known_findings.json", "w"), indent=1)
print(len(out))

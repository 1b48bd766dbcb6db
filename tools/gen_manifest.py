#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl, targets.py and the notes below."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
V = build.VERIF
exec(open(os.path.join(V, "tools", "notes.py")).read())
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in build.CHECKS:
        t, n = NOTES[i]
        checks.append({"property": i, "quick_cmd": "python3 tools/run_check.py %s quick" % i,
                       "thorough_cmd": "python3 tools/run_check.py %s thorough" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": t, "level": "exploration", "level_note": n})
    else:
        na.append({"property": i, "reason": NA.get(i, "no check built yet")})
m = {"version": 1, "setup_cmd": "python3 tools/build.py", "hooks": HOOKS, "checks": checks, "not_applicable": na}
if not HOOKS: del m["hooks"]
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1); f.write("\n")
print(len(checks), "checks", len(na), "not applicable")

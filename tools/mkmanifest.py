#!/usr/bin/env python3
"""Writes MANIFEST.json: one check per property that has a module under mc/checks; the rest is not_applicable."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = {}
exec(open(os.path.join(V, "tools", "notes.py")).read(), NOTES)
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "mc", "checks", i.lower() + ".py")):
        tech, note = NOTES["N"][i]
        checks.append({"property": i, "quick_cmd": "./run.sh %s --tier quick" % i,
                       "thorough_cmd": "./run.sh %s --tier thorough" % i,
                       "evidence_file": "evidence/%s.json" % i,
                       "technique": tech, "level": "model_checking", "level_note": note})
    else:
        na.append({"property": i, "reason": NOTES["NA"].get(i, "check not built yet")})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the checks interpose on the environment (optimizer, generators, process pool) from "
              "outside, before the package is imported. All checks share the explorer in mc/core.py."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")

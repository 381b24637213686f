#!/usr/bin/env python3
"""Writes MANIFEST.json: a check for every property that has checks/cNN.py, the rest not_applicable."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
NOTE = json.load(open(os.path.join(here, "tools", "levels.json")))
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(here, "checks", i.lower() + ".py")):
        n = NOTE[i]
        checks.append({"property": i, "quick_cmd": f"python3 run.py {i}", "thorough_cmd": f"python3 run.py {i} thorough",
                       "evidence_file": f"evidence/{i}.json",
                       "technique": "TLA+ specification checked with TLC; " + n["t"],
                       "level": "model_checking", "level_note": n["n"]})
    else:
        na.append({"property": i, "reason": NOTE.get(i, {}).get("na", "No check built yet: the specification for it is planned in DESIGN.md.")})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
     "notes": "Language: TLA+ (TLC). No hooks in /repo: every driver uses public interfaces, so there is no guard."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")

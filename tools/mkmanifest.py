#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below (technique and note per property)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = json.load(open(os.path.join(V, "tools", "techniques.json")))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    t = T.get(i)
    if t is None:
        na.append({"property": i, "reason": "no check yet"})
        continue
    if "reason" in t:
        na.append({"property": i, "reason": t["reason"]})
        continue
    checks.append({"property": i, "quick_cmd": f"python3 run.py {i}", "thorough_cmd": f"python3 run.py {i} --tier thorough",
                   "evidence_file": f"evidence/{i}.json", "technique": t["technique"], "level": "exploration", "level_note": t["note"]})
json.dump({"version": 1, "setup_cmd": "python3 setup.py", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: schedules are perturbed with a preloaded library and slow pipes, state is observed through the public API."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")

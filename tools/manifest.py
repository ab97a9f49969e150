#!/usr/bin/env python3
"""Writes MANIFEST.json from the properties and the plan in components.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import components
HERE = components.HERE
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
NA = components.NOT_APPLICABLE
checks = []
for p in props:
    i = p["id"]
    if i not in components.PLAN:
        continue
    technique, note = components.NOTES.get(i, components.NOTES["*"])
    checks.append({"property": i, "quick_cmd": f"./check {i} quick", "thorough_cmd": f"./check {i} thorough",
                   "technique": technique, "level": "exploration", "level_note": note})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks,
     "not_applicable": [{"property": p["id"], "reason": NA.get(p["id"], "the check is not built yet")}
                        for p in props if p["id"] not in components.PLAN],
     "notes": "No hooks in /repo: all monitors sit at the public interface, the transport, the process runtime or the browser."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)

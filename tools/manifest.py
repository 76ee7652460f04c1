#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table of checks below."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(root + '/properties.jsonl')]
exec(open(root + '/tools/checks_table.py').read())
checks, na = [], []
for p in props:
    i = p['id']
    if i in TABLE:
        tech, level, note = TABLE[i]
        checks.append({"property": i, "quick_cmd": f"./check.sh {i} quick", "thorough_cmd": f"./check.sh {i} thorough",
                       "evidence_file": f"evidence/{i}.json", "technique": tech, "level": level, "level_note": note})
    else:
        na.append({"property": i, "reason": NA.get(i, "the check for this property is not built yet")})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: every check drives the exported API of the working tree from an external module (C27 instruments a copy through a build overlay)."}
json.dump(m, open(root + '/MANIFEST.json', 'w'), indent=1)

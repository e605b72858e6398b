#!/usr/bin/env python3
"""Writes MANIFEST.json: one check per checker binary present in mc/src/bin."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = json.load(open(os.path.join(here, 'tools', 'check_notes.json')))
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(here, 'mc/src/bin', i.lower() + '.rs')):
        n = NOTES[i]
        checks.append({"property": i, "quick_cmd": f"./check {i} quick", "thorough_cmd": f"./check {i} thorough",
            "evidence_file": f"evidence/{i}.json", "technique": n['technique'], "level": n.get('level', 'model_checking'), "level_note": n['note']})
    else:
        na.append({"property": i, "reason": "not claimed yet: its checker is not built"})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks: everything is driven through narrow's public API. /repo carries only fix: commits, listed in known_findings.txt."}
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(here, 'MANIFEST.json'), 'a').write('\n')

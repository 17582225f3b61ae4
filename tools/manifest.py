#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl, parts.txt and notes.json (level notes; unclaimed properties)."""
import json
props = [json.loads(l) for l in open('/verif/properties.jsonl') if l.strip()]
parts = {l.split()[0]: l.split()[1:] for l in open('/verif/parts.txt') if l.strip() and l[0] != '#'}
notes = json.load(open('/verif/tools/notes.json'))
checks = []
for p in props:
    i = p['id']
    if i in parts:
        checks.append({"property": i, "quick_cmd": f"bash check.sh {i}", "thorough_cmd": f"bash check.sh {i} thorough", "technique": notes["technique"].get(i, notes["technique"]["*"]), "level": "exploration", "level_note": notes["level_note"].get(i, notes["level_note"]["*"])})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": [{"property": p['id'], "reason": notes["not_applicable"][p['id']]} for p in props if p['id'] not in parts]}
if notes.get("hooks"): m["hooks"] = notes["hooks"]
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)

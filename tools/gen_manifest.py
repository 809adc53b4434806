#!/usr/bin/env python3
"""Regenerates MANIFEST.json from properties.jsonl and the table below."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MC = "explicit-state exploration: bounded-exhaustive enumeration of API call histories on the real code, each stepped against an executable reference model and compared mark by mark (model-conformance replay of every trace)"
CHECKS = json.load(open(os.path.join(here, 'tools', 'checks.json')))
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i in CHECKS:
        c = CHECKS[i]
        checks.append({"property": i, "quick_cmd": f"./check.sh {i} quick", "thorough_cmd": f"./check.sh {i} thorough",
            "evidence_file": f"/verif/evidence/{i}.json", "technique": c.get("technique", MC), "level": c["level"], "level_note": c["note"]})
    else:
        na.append({"property": i, "reason": "check not built yet (planned, see DESIGN.md)"})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na}
open(os.path.join(here, 'MANIFEST.json'), 'w').write(json.dumps(m, indent=1) + "\n")

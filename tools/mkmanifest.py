#!/usr/bin/env python3
"""Regenerates MANIFEST.json from checks.py."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from checks import CHECKS, NOT_APPLICABLE
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
ids = [p["id"] for p in props]
m = {"version": 1, "setup_cmd": "python3 run.py --setup", "checks": []}
for i in ids:
    if i in CHECKS:
        m["checks"].append({
            "property": i, "quick_cmd": f"python3 run.py {i} --tier quick", "thorough_cmd": f"python3 run.py {i} --tier thorough",
            "evidence_file": f"evidence/{i}.json",
            "technique": "explicit-state / stateless model checking of the real code: " + CHECKS[i]["what"],
            "level": "model_checking",
            "level_note": "Every choice sequence of the bounded program is executed on the real code built from /repo (ASan+UBSan, contracts on) and compared with an independent reference; nothing is sampled. " + CHECKS[i].get("note", "")})
m["not_applicable"] = [{"property": i, "reason": NOT_APPLICABLE.get(i, "no check built yet; planned")} for i in ids if i not in CHECKS]
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)

#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table in tools/props.py."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS, NOT_APPLICABLE

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in PROPS + NOT_APPLICABLE:
        q = {k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}
        f.write(json.dumps(q) + "\n")

man = {
    "version": 1,
    "setup_cmd": "python3 -c \"import ast, fractions, multiprocessing\"",
    "checks": [{
        "property": p["id"],
        "quick_cmd": f"python3 run.py {p['id']} quick",
        "thorough_cmd": f"python3 run.py {p['id']} thorough",
        "evidence_file": f"evidence/{p['id']}.json",
        "technique": p["technique"],
        "level": "other",
        "level_note": p["level_note"],
    } for p in PROPS],
    "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in NOT_APPLICABLE],
    "notes": "All checks parse /repo's current source and decide by abstract interpretation of the syntax tree; no package code is run and no hooks are needed.",
}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")

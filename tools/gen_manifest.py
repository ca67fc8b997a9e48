#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the table of checks and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from table import CHECKS, LEVEL_NOTE
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NOT = {}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CHECKS:
        c = CHECKS[i]
        checks.append({
            "property": i,
            "quick_cmd": f"python3 tools/check.py {i} quick",
            "thorough_cmd": f"python3 tools/check.py {i} thorough",
            "technique": c.get("technique", "stateless model checking of the real code: all thread interleavings up to a preemption bound under a controlled scheduler"),
            "level": "model_checking",
            "level_note": c.get("note", "Exhaustive within the preemption bound and the scenario set; see DESIGN.md."),
        })
    else:
        na.append({"property": i, "reason": NOT.get(i, "check not built yet")})
json.dump({"version": 1, "setup_cmd": "bash tools/setup.sh", "checks": checks, "not_applicable": na}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)

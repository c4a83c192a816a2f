#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl and /verif/MANIFEST.json from tools/props.py."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from props import PROPS
V = os.path.dirname(here)
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in PROPS:
        f.write(json.dumps({k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}) + "\n")
checks, na = [], []
for p in PROPS:
    assert len(p["title"]) <= 80, p["id"]
    if p.get("na"):
        na.append({"property": p["id"], "reason": p["na"]})
        continue
    q = "./run " + p["id"]
    checks.append({"property": p["id"], "quick_cmd": "VERIF_TIER=quick " + q, "thorough_cmd": "VERIF_TIER=thorough " + q,
                   "technique": p["technique"], "level": "model_checking", "level_note": p["note"]})
m = {"version": 1, "setup_cmd": "sh tools/setup.sh", "checks": checks, "not_applicable": na,
     "notes": "TLA+ specifications under specs/, checked with TLC and bound to the code by validating recorded traces (see DESIGN.md). "
              "No hooks in /repo: every harness drives public interfaces and is built from /verif/harness with /repo's sources."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)

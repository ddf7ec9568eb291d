#!/usr/bin/env python3-vt
"""Regenerates properties.jsonl and MANIFEST.json from the table below."""
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from tools.proptable import TABLE, NA  # noqa: E402

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in TABLE:
        d = {k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}
        assert len(d["title"]) <= 80, d["title"]
        f.write(json.dumps(d) + "\n")
checks = []
for p in TABLE:
    if p["id"] in NA:
        continue
    cmd = "python3-vt check.py %s --tier " % p["id"]
    checks.append({"property": p["id"], "quick_cmd": cmd + "quick", "thorough_cmd": cmd + "thorough",
                   "technique": p["technique"], "level": "other", "level_note": p["level_note"]})
m = {"version": 1, "setup_cmd": "true", "checks": checks,
     "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()]}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")

#!/usr/bin/env python3
"""Writes MANIFEST.json from check.py's CHECKS and properties.jsonl."""
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
import check  # noqa: E402
props = [json.loads(x) for x in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in check.CHECKS:
        m = check.CHECKS[i]
        checks.append({
            "property": i,
            "quick_cmd": "python3 check.py " + i,
            "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": m[2], "level": m[1], "level_note": m[3]})
    else:
        na.append({"property": i, "reason": check.NOT_APPLICABLE.get(
            i, "check not built yet")})
json.dump({"version": 1, "setup_cmd": "python3 lib/setup.py",
           "checks": checks, "not_applicable": na,
           "notes": "TLA+ specifications in spec/, checked with TLC; replay "
           "harnesses in harness/; see DESIGN.md."},
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)

#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from lib/props.py."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "lib"))
import props
import registry

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in props.P:
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["quant"]},
            "why_tests_cant": p["why"],
            "anchors": {
                "files": p["files"],
                "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
            }}) + "\n")
checks, na = [], []
for p in props.P:
    if p["id"] in registry.CHECKS:
        checks.append({
            "property": p["id"],
            "quick_cmd": "python3 check.py %s quick" % p["id"],
            "thorough_cmd": "python3 check.py %s thorough" % p["id"],
            "technique": p["tech"], "level": p["level"],
            "level_note": p["note"]})
    else:
        na.append({"property": p["id"],
                   "reason": registry.NOT_CLAIMED.get(
                       p["id"], "check not built yet")})
man = {"version": 1,
       "setup_cmd": "python3 check.py --setup",
       "checks": checks, "not_applicable": na,
       "notes": "Every check compiles /repo's current sources (content-hashed "
                "cache in /verif/.cache) with sanitizers, runs a seeded "
                "workload and judges it with the monitors in /verif/harness."}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")

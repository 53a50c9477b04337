#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py."""
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from checks import CHECKS
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
m = dict(version=1, setup_cmd="python3 run.py setup", checks=[], not_applicable=[])
for p in props:
    c = CHECKS.get(p["id"])
    if not c:
        m["not_applicable"].append(dict(property=p["id"], reason="the check for this property has not been built yet"))
        continue
    m["checks"].append(dict(
        property=p["id"], quick_cmd="python3 run.py %s quick" % p["id"], thorough_cmd="python3 run.py %s thorough" % p["id"],
        technique=c["technique"], level=c["level"], level_note=c.get("level_note") or
        "Executions of the real code are observed by oracles and sanitizers; the property is decided on what was executed, see coverage in the evidence."))
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")

#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of checks."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(here, "lib"))
import checks
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
m = dict(version=1, setup_cmd="bin/setup", checks=[], not_applicable=[])
for p in props:
    i = p["id"]
    if i not in checks.CHECKS:
        m["not_applicable"].append(dict(property=i, reason="check under construction"))
        continue
    m["checks"].append(dict(property=i, quick_cmd="bin/check %s quick" % i, thorough_cmd="bin/check %s thorough" % i,
                            technique=checks.TECHNIQUE.get(i, checks.TECHNIQUE[""]), level=checks.LEVEL.get(i, "model_checking"),
                            level_note=checks.NOTE.get(i, checks.NOTE[""])))
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)

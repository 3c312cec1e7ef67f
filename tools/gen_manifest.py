#!/usr/bin/env python3
"""Writes MANIFEST.json from the engines and the properties."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from engines import PROPERTIES
props = [json.loads(l) for l in open(os.path.join(here, "..", "properties.jsonl"))]
checks, na = [], []
TECH = ("stateless model checking of the real implementation: exhaustive depth-first enumeration, within a deviation bound, of all schedules, "
        "message deliveries, timer expiries and injected operations, over an exhausted configuration space")
for p in props:
    i = p["id"]
    if i in PROPERTIES:
        checks.append(dict(property=i, quick_cmd="python3 check.py %s quick" % i, thorough_cmd="python3 check.py %s thorough" % i,
                           technique=PROPERTIES[i].get("technique", TECH), level="model_checking",
                           level_note=PROPERTIES[i].get("note", "exhaustive within the bounds written to evidence/%s.json; " % i +
                                                        "beyond them (more actors, more deviations) nothing is claimed")))
    else:
        na.append(dict(property=i, reason="the check for this property is not built yet"))
m = dict(version=1, setup_cmd="python3 check.py --setup", checks=checks, not_applicable=na)
with open(os.path.join(here, "..", "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")

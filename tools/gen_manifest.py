#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from checks import CHECKS, TECH, NOTE, NA
props = [json.loads(l) for l in open(H + "/properties.jsonl")]
m = dict(version=1, setup_cmd="bash setup.sh",
  hooks=dict(guard="VERIF_HOOKS", enable="no hooks are needed: the checks compile /repo's sources unmodified and link them with the explorer", source_commits=[]),
  checks=[], not_applicable=[])
for p in props:
    i = p["id"]
    if i in CHECKS:
        m["checks"].append(dict(property=i, quick_cmd="VERIF_TIER=quick python3 run.py " + i,
            thorough_cmd="VERIF_TIER=thorough python3 run.py " + i, evidence_file="evidence/%s.json" % i,
            technique=TECH.get(i, "exhaustive bounded exploration of the real code against a reference model"),
            level=CHECKS[i].get("level", "model_checking"),
            level_note=NOTE.get(i, "Every case within the stated bounds was executed on the real code and compared with an independent reference; nothing is claimed beyond the bounds.") + " Bounds: " + CHECKS[i].get("bounds", "")))
    else:
        m["not_applicable"].append(dict(property=i, reason=NA.get(i, "no check built yet")))
json.dump(m, open(H + "/MANIFEST.json", "w"), indent=1)

#!/usr/bin/env python3
"""Writes MANIFEST.json from the properties and the plans."""
import json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "bin"))
import plans
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in plans.PLANS:
        level = plans.PLANS[i][1]
        checks.append(dict(property=i, quick_cmd="bin/check %s quick" % i, thorough_cmd="bin/check %s thorough" % i,
                           evidence_file="evidence/%s.json" % i, technique=plans.TECH.get(i, plans.TECH["*"]), level=level,
                           level_note=plans.NOTES.get(i, plans.NOTES["*"])))
    else:
        na.append(dict(property=i, reason="no check yet: the specification of this part is still being written"))
doc = dict(version=1, setup_cmd="bin/setup", checks=checks, not_applicable=na,
           notes="Specifications in spec/ (TLA+, checked with TLC), replay harness in harness/, driver in bin/. See DESIGN.md.")
json.dump(doc, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")

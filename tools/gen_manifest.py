#!/usr/bin/env python3
"""writes MANIFEST.json from the checks that bin/plans.py has"""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "bin"))
import plans
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in plans.NOTES:
        tech, note = plans.NOTES[i]
        checks.append(dict(property=i, quick_cmd="VERIF_TIER=quick python3 bin/check.py " + i,
                           thorough_cmd="VERIF_TIER=thorough python3 bin/check.py " + i,
                           evidence_file="evidence/%s.json" % i, technique=tech, level="model_checking", level_note=note))
    else:
        na.append(dict(property=i, reason=plans.NOT_APPLICABLE.get(i, "no check yet")))
m = dict(version=1, setup_cmd="python3 bin/check.py --build",
         hooks=dict(guard="verif", enable="go build -tags verif (harness/build.sh)", source_commits=["53b650b", "ca465ca", "9c6b50e"]),
         checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")

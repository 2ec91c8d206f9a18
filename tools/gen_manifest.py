#!/usr/bin/env python3
# MANIFEST.json from plan.json and properties.jsonl
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
plan = json.load(open(V + "/tools/plan.json")); props = [json.loads(l) for l in open(V + "/properties.jsonl")]
NOTE = "Bounded: every schedule and data choice of each scenario up to the deviation bound recorded in the evidence; scenario sizes (threads, fibers, operations) are fixed small instances."
checks, na = [], []
for p in props:
    i = p["id"]
    if i in plan:
        checks.append({"property": i, "quick_cmd": "python3 tools/check.py %s" % i, "thorough_cmd": "python3 tools/check.py %s --thorough" % i,
                       "technique": "stateless model checking of the compiled library under a controlled scheduler (exhaustive bounded exploration, happens-before state pruning)",
                       "level": "model_checking", "level_note": NOTE})
    else: na.append({"property": i, "reason": "no check built yet"})
json.dump({"version": 1, "setup_cmd": "python3 tools/check.py --build-all", "checks": checks, "not_applicable": na}, open(V + "/MANIFEST.json", "w"), indent=1)

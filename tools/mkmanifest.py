#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, H)
from checks import CHECKS, META
props = [json.loads(l) for l in open(H + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CHECKS:
        checks.append({"property": i, "quick_cmd": "python3 run.py %s quick" % i, "thorough_cmd": "python3 run.py %s thorough" % i, "evidence_file": "evidence/%s.json" % i,
                       "technique": META[i][0], "level": "model_checking", "level_note": META[i][1]})
    else: na.append({"property": i, "reason": "no check yet: the harness for this property is not written"})
m = {"version": 1, "setup_cmd": "python3 run.py --setup", "checks": checks, "not_applicable": na,
     "notes": "No hooks are needed in /repo: every seam (clock, resolver, crypto primitives, allocation of keys, stream reads, preemption) is decided by link-time interposition or by caller-supplied objects. Checks compile /repo/src (and /repo/tools/src) themselves; objects are cached by content in /verif/build (not committed)."}
json.dump(m, open(H + "/MANIFEST.json", "w"), indent=1); print("%d checks, %d not claimed" % (len(checks), len(na)))

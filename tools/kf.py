#!/usr/bin/env python3
"""dev tool: kf.py fixed PROP COMMIT WHAT | kf.py open PROP KEY WHAT"""
import json
import sys
import os
P = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")
k = json.load(open(P))
kind, prop, a, what = sys.argv[1:5]
if kind == "fixed":
    k["findings"].append({"property": prop, "status": "fixed", "key": "-", "commit": a, "what": "fixed: property=%s %s %s" % (prop, a, what)})
else:
    k["findings"].append({"property": prop, "status": "open", "key": a, "what": what})
json.dump(k, open(P, "w"), indent=1)

#!/usr/bin/env python3
"""Writes MANIFEST.json from CHECKS (claimed) and NA (reasons)."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}
exec(open(os.path.join(here, "tools", "claims.py")).read(), ns)
props = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
checks, na = [], []
for p in props:
    if p in ns["CHECKS"]:
        tech, note = ns["CHECKS"][p]
        c = {"property": p, "quick_cmd": "python3 check.py %s" % p, "technique": tech, "level": "other", "level_note": note,
             "thorough_cmd": "python3 check.py %s thorough" % p}
        checks.append(c)
    else:
        na.append({"property": p, "reason": ns["NA"][p]})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
     "notes": "Static analysis only: a rustc_private driver (driver/) dumps what the compiler derives from /repo's current source (type-level tables, layouts, MIR), and the rules in lib/ decide on those dumps. No code of /repo is executed beyond what the compiler itself const-evaluates. No hooks in /repo."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")

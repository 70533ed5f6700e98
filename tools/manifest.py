#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json. BUILT lists the properties with a check."""
import json, os, sys
here = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
BUILT = open(os.path.join(here, "tools", "built.txt")).read().split()
NOTE = {}
exec(open(os.path.join(here, "tools", "notes.py")).read())
checks, na = [], []
for p in props:
    i = p["id"]
    if i in BUILT:
        checks.append({"property": i, "quick_cmd": "./check.sh " + i,
          "thorough_cmd": "VERIF_TIER=thorough ./check.sh " + i,
          "technique": "contract-based deductive verification of the Go SSA of /repo (govc: weakest preconditions, Z3/cvc5), function by function",
          "level": "proof", "level_note": NOTE.get(i, DEFAULT)})
    else:
        na.append({"property": i, "reason": NA.get(i, "check not built yet")})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "govc translates the SSA form of /repo's current source on every run; contracts are in /verif/contracts; see DESIGN.md."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
print(len(checks), len(na))

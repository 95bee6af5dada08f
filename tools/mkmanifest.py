#!/usr/bin/env python3
"""Writes MANIFEST.json: every property with at least one contract in EXPECT.json is claimed."""
import json
V = "/verif"
expect = json.load(open(V + "/contracts/EXPECT.json"))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
claims = json.load(open(V + "/tools/claims.json"))
COMMON = (" Every obligation is generated from /repo's current source on each run and discharged by z3 / cvc5 for all inputs; "
          "the contracts also run natively, and counterexamples are replayed on the real code. Trusted: the gocv generator, go/ssa, the solvers, "
          "the library models named in the evidence's assumptions.")
checks, na = [], []
for p in props:
    i = p["id"]
    c = claims.get(i)
    if c is None or not expect.get(i):
        na.append({"property": i, "reason": (c or {}).get("na", "no contract built yet for this property")})
        continue
    checks.append({"property": i, "quick_cmd": "python3 /verif/check.py %s quick" % i, "thorough_cmd": "python3 /verif/check.py %s thorough" % i,
                   "technique": c["technique"], "level": c["level"], "level_note": c["note"] + COMMON})
json.dump({"version": 1, "setup_cmd": "python3 /verif/tools/setup.py", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: contracts are compiled into the packages through overlays."}, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed", [x["property"] for x in na])

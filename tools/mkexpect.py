#!/usr/bin/env python3
"""Rewrites contracts/EXPECT.json: which contracts each property is supposed to have."""
import json, subprocess, glob, os, sys
sys.argv = ["x", "C00"]
V = "/verif"
sys.path.insert(0, V)
import check
g = check.build_gocv("/tmp")
info = json.loads(subprocess.run([g, "-list"], cwd="/repo", env=check.ENV, stdout=subprocess.PIPE, text=True).stdout)
out = {}
for c in info["contracts"]:
    if c["thorough_only"]:
        continue
    for p in c["props"]:
        out.setdefault(p, []).append(c["name"])
for d in info.get("dropped") or []:
    print("DROPPED", d)
for n in info.get("notes") or []:
    print("NOTE", n)
json.dump({k: sorted(v) for k, v in sorted(out.items())}, open(V + "/contracts/EXPECT.json", "w"), indent=1)
print({k: len(v) for k, v in sorted(out.items())})

#!/usr/bin/env python3
"""Writes known_findings.json's fixed entries from the fix: commits of /repo (known ones are kept as they are)."""
import json, subprocess, re
V = "/verif"
PROP = {
 "compare post-release numbers": "C01", "first character of the version": "C03", 'print the ".*"': "C03", "prefer the candidates": "C05",
 "ordered comparisons ignore": "C02", "local version numbers": "C04", "non-ASCII": "C04", "Windows file attribute": "C20", "serial number": "C27",
 "change times and PAX": "C16", "ownership override": "C15", "unclean prefixes": "C15"}
PROP.update(json.load(open(V + "/tools/fixprops.json")))
cur = [e for e in json.load(open(V + "/known_findings.json")) if e["status"] == "known"]
log = subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], text=True)
for l in log.splitlines():
    h, s = l.split(" ", 1)
    if s.startswith("fix:"):
        ps = [v for k, v in PROP.items() if k in s]
        assert len(ps) == 1, (s, ps)
        cur.append({"status": "fixed", "property": ps[0], "commit": h, "what": s[4:].strip(), "entry": "fixed: property=%s %s %s" % (ps[0], h, s[4:].strip())})
json.dump(cur, open(V + "/known_findings.json", "w"), indent=1)

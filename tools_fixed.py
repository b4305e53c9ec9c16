#!/usr/bin/env python3
"""append a fixed entry: tools_fixed.py PROP COMMIT-SUBSTRING WHAT"""
import json, subprocess, sys
prop, pat, what = sys.argv[1:4]
out = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True, text=True).stdout
c = [l for l in out.splitlines() if pat in l]
assert len(c) == 1, c
h = c[0].split()[0]
with open("/verif/known_findings.jsonl", "a") as f:
    f.write(json.dumps({"property": prop, "status": "fixed", "commit": h, "key": "-", "what": "fixed: property=%s %s %s" % (prop, h, what)}) + "\n")

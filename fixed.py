#!/usr/bin/env python3
"""fixed.py Cxx [n]: enters the last n (1) commits of /repo as repairs for a property"""
import json, subprocess, sys
f = "/verif/known_findings.json"
k = json.load(open(f))
n = sys.argv[2] if len(sys.argv) > 2 else "1"
for l in subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s", "-" + n], text=True).splitlines():
    h, s = l.split(" ", 1)
    assert s.startswith("fix: ")
    if not any(h in x for x in k["fixed"]): k["fixed"].append(f"fixed: property={sys.argv[1]} {h} {s[5:]}")
json.dump(k, open(f, "w"), indent=1)

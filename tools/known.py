#!/usr/bin/env python3
"""tools/known.py PROPERTY: append "fixed" entries for the fix: commits of /repo that are not listed yet (used while developing)"""
import json
import os
import subprocess
import sys

F = os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + "/known_findings.json"
d = json.load(open(F))
have = {x.get("commit") for x in d["findings"]}
out = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True).stdout
for l in out.splitlines():
    h, m = l.split(" ", 1)
    if m.startswith("fix: ") and h not in have:
        d["findings"].append({"id": f"{sys.argv[1]}-{h}", "property": sys.argv[1], "status": "fixed", "commit": h, "note": f"fixed: property={sys.argv[1]} {h} {m[5:]}"})
        print("added", h, m)
json.dump(d, open(F, "w"), indent=1)

#!/usr/bin/env python3
"""MANIFEST.json from properties.jsonl and the modules in contracts/ and concrete/"""
import json
import os

H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(H + "/properties.jsonl")]
NOTE = json.load(open(H + "/tools/levels.json")) if os.path.exists(H + "/tools/levels.json") else {}
checks, na = [], []
for p in props:
    i = p["id"]
    pr = os.path.exists(f"{H}/contracts/{i.lower()}.py")
    co = os.path.exists(f"{H}/concrete/{i.lower()}.py")
    if not (pr or co):
        na.append({"property": i, "reason": "no check built yet"})
        continue
    tech = "contract-based deductive verification of the executed source (function contracts, loop invariants, z3)" if pr else "executable contracts (bounded stand-in; functions outside the deductive verifier's reach)"
    if pr and co:
        tech += "; executable contracts on the real code for counterexamples and as labelled bounded stand-in"
    checks.append({
        "property": i,
        "quick_cmd": f"python3 check.py {i} --tier quick",
        "thorough_cmd": f"python3 check.py {i} --tier thorough",
        "technique": tech,
        "level": "proof" if pr else "exploration",
        "level_note": NOTE.get(i, "the functions named in the evidence are proved against their contracts over all shapes and inputs (floats as field elements, library functions by assumed contracts); remaining functions have labelled bounded stand-ins"),
    })
json.dump({"version": 1, "setup_cmd": "python3 check.py --selftest", "checks": checks, "not_applicable": na}, open(H + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", [x["property"] for x in na])

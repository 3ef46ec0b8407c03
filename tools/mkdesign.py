#!/usr/bin/env python3
"""rewrites the generated part of DESIGN.md: contracts, bounded cases, findings, planted bugs"""
import ast
import json
import os
import re

H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = []
props = [json.loads(l) for l in open(H + "/properties.jsonl")]


def doc(f):
    return " ".join((ast.get_docstring(f) or "").split()).replace("|", "\\|")


def names(tree, var):
    r = []
    for n in tree.body:
        t = n.targets[0] if isinstance(n, ast.Assign) else n.target if isinstance(n, ast.AugAssign) else None
        if isinstance(t, ast.Name) and t.id == var:
            r += [ast.unparse(e) for e in getattr(n.value, "elts", [])] or [ast.unparse(n.value)]
    return r


for p in props:
    i = p["id"].lower()
    out.append(f"### {p['id']} {p['title']}\n")
    f = f"{H}/contracts/{i}.py"
    if os.path.exists(f):
        t = ast.parse(open(f).read())
        fns = {n.name: doc(n) for n in t.body if isinstance(n, ast.FunctionDef)}
        ns, th = names(t, "CONTRACTS"), names(t, "THOROUGH")
        out.append(f"Proved contracts (`contracts/{i}.py`):\n")
        for n in ns:
            out.append(f"- `{n}`: {fns[n]}" if fns.get(n) else f"- `{n}`")
        for n in th:
            out.append(f"- (thorough tier) `{n}`: {fns.get(n, '')}")
        out.append("")
    f = f"{H}/concrete/{i}.py"
    if os.path.exists(f):
        t = ast.parse(open(f).read())
        out.append(f"Bounded cases on the real code (`concrete/{i}.py`):\n")
        for n in t.body:
            if isinstance(n, ast.FunctionDef) and any("case" in ast.dump(d) for d in n.decorator_list):
                out.append(f"- `{n.name}`" + (f": {doc(n)}" if doc(n) else ""))
        out.append("")
out.append("## Findings in datafold\n")
for e in json.load(open(H + "/known_findings.json"))["findings"]:
    out.append(f"- {e['id']}: {e['note']}" if e["status"] == "fixed" else f"- {e['id']} (**open**, property {e['property']}): {e['note']}")
out.append("\n## Planted bugs\n")
out.append("Every bug below builds, passes the stable tests and is demonstrated by its `demo.sh`; `caught` is what `tools/seed.py try ID --check` last reported.\n")
caught = json.load(open(H + "/tools/caught.json")) if os.path.exists(H + "/tools/caught.json") else {}
for d in sorted(os.listdir(H + "/seeded")) if os.path.isdir(H + "/seeded") else []:
    m = f"{H}/seeded/{d}/meta.json"
    if os.path.exists(m):
        m = json.load(open(m))
        out.append(f"- `{d}` ({m['property']}): {m['what_it_breaks']} Needs: {m['needs']} Caught: {caught.get(d, 'yes')}.")
s = open(H + "/DESIGN.md").read()
mark = "<!-- generated by tools/mkdesign.py -->"
s = s.split(mark)[0].rstrip() + "\n\n" + mark + "\n\n## Contracts and bounded cases\n\n" + "\n".join(out) + "\n"
open(H + "/DESIGN.md", "w").write(s)

#!/usr/bin/env python3
"""development helper for planted bugs (no check uses it)

seed.py new ID PROPERTY FILE < spec     spec: old text, a line '====', new text, '====', demo python, '====', needs, '====', what it breaks
                                        ('----' separates several replacements  'FILE2' / old / new  are given as  '++++ FILE2')
seed.py try ID [--tests] [--check]      demo on clean and patched copy, optionally the datafold tests and the property's check"""
import json
import os
import shutil
import subprocess
import sys

H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", MKL_NUM_THREADS="1")


def copy(name):
    d = f"/tmp/seed_{name}"
    shutil.rmtree(d, ignore_errors=True)
    subprocess.check_call(["cp", "-a", "/repo", d])
    return d


def new(i, prop, file):
    old, rest, demo, needs, breaks = sys.stdin.read().split("\n====\n")
    reps = [(file, old, rest)]
    if "\n++++ " in "\n" + old:
        reps = []
        for blk_o, blk_n in zip(("\n" + old).split("\n++++ "), ("\n" + rest).split("\n++++ ")):
            if not blk_o.strip():
                continue
            f, o = blk_o.split("\n", 1)
            f2, n = blk_n.split("\n", 1)
            assert f == f2
            reps.append((f, o, n))
    d = copy("new_" + i)
    for f, o, n in reps:
        s = open(f"{d}/{f}").read()
        o, n = o.strip("\n"), n.strip("\n")
        assert s.count(o) == 1, (f, s.count(o), o)
        open(f"{d}/{f}", "w").write(s.replace(o, n))
    p = subprocess.run(["git", "-C", d, "diff"], capture_output=True, text=True).stdout
    o = f"{H}/seeded/{i}"
    os.makedirs(o, exist_ok=True)
    open(o + "/patch.diff", "w").write(p)
    open(o + "/demo.py", "w").write(demo.strip("\n") + "\n")
    open(o + "/demo.sh", "w").write('#!/bin/bash\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OPENBLAS_NUM_THREADS=1\nexec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
    os.chmod(o + "/demo.sh", 0o755)
    json.dump({"property": prop, "needs": needs.strip(), "what_it_breaks": breaks.strip()}, open(o + "/meta.json", "w"), indent=1)
    shutil.rmtree(d)


def run_demo(i, d):
    r = subprocess.run(["bash", f"{H}/seeded/{i}/demo.sh"], cwd=d, env=ENV, capture_output=True, text=True, timeout=300)
    return r.returncode, (r.stdout + r.stderr).strip().splitlines()[-1:]


def attempt(i, flags):
    prop = json.load(open(f"{H}/seeded/{i}/meta.json"))["property"]
    d = copy(i)
    out = [i, prop, "clean", run_demo(i, d)]
    subprocess.check_call(["git", "-C", d, "apply", f"{H}/seeded/{i}/patch.diff"])
    out += ["patched", run_demo(i, d)]
    ok = out[3][0] == 0 and out[5][0] != 0
    if "--tests" in flags:
        ids = json.load(open("/opt/vp/BASELINE.json"))
        x = f"/tmp/seed_{i}.xml"
        subprocess.run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "-p", "no:warnings", "-x", "-n", "4", "--dist", "worksteal",
                        *[f"--ignore=datafold/dynfold/tests/test_{t}.py" for t in ("dmap", "helper", "outofsample", "roseland")], "--junitxml", x, "datafold"],
                       cwd=d, env=dict(ENV, PYTHONPATH=d, MPLBACKEND="Agg"), capture_output=True, text=True)
        import xml.etree.ElementTree as ET
        t = ET.parse(x).getroot()[0].attrib
        out += ["tests", {k: t[k] for k in ("tests", "failures", "errors")}]
        os.remove(x)
    if "--check" in flags:
        r = subprocess.run(["python3", "check.py", prop], cwd=H, env=dict(ENV, VC_REPO=d), capture_output=True, text=True)
        out += ["check", r.returncode, [l[:160] for l in r.stdout.splitlines() if l.startswith(("VIOLATION", "OK"))]]
    shutil.rmtree(d)
    print("GOOD" if ok else "BAD", *out)


if __name__ == "__main__":
    if sys.argv[1] == "new":
        new(*sys.argv[2:5])
    else:
        for i in [a for a in sys.argv[2:] if not a.startswith("--")]:
            attempt(i, sys.argv[2:])

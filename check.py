#!/usr/bin/env python3
"""Decides one property.  usage: check.py <ID> [--tier quick|thorough] [--replay FILE]

1. proof process (vc/): the contracts in contracts/<id>.py are verified against /repo's
   current source; every obligation must be discharged;
2. search process (concrete/): executable contracts on the real code; replays failed
   obligations on concrete inputs and is the labelled bounded stand-in for functions the
   verifier does not reach.
exit 0 iff every obligation was discharged and no executable contract failed."""
import argparse
import json
import os
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VC_REPO", "/repo")
PY = "/opt/venv/bin/python"


def env():
    e = dict(os.environ)
    e.update(PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1",
             MKL_NUM_THREADS="1", NUMEXPR_NUM_THREADS="1", PYTHONHASHSEED="0", VC_REPO=REPO)
    e["MPLCONFIGDIR"] = e.get("MPLCONFIGDIR", os.path.join(tempfile.gettempdir(), "vc-mpl"))
    return e


def known_findings(pid):
    p = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(p):
        return {}
    with open(p) as f:
        return {k["id"]: k for k in json.load(f)["findings"] if k["property"] == pid and k.get("status", "known") == "known"}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid", nargs="?")
    ap.add_argument("--selftest", action="store_true")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    if a.selftest:
        return selftest()
    pid = a.pid
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if a.replay:
        return replay(pid, a.replay)
    t0 = time.time()
    work = tempfile.mkdtemp(prefix=f"vc-{pid}-")
    try:
        return decide(pid, a.tier, seed, work, t0, a.v)
    finally:
        import shutil

        shutil.rmtree(work, ignore_errors=True)


def selftest():
    """setup: the interpreter, the solver and the instrumented import work"""
    e = env()
    e["PYTHONPATH"] = HERE
    r = subprocess.run([PY, "-c", "from vc import loader; loader.install(); import datafold.pcfold, datafold.dynfold, datafold.appfold; import z3; print('ok', z3.get_version_string())"],
                       cwd=HERE, env=e)
    return r.returncode


def replay(pid, path):
    with open(path) as f:
        r = json.load(f)
    if "case" not in r:
        print(json.dumps(r, indent=1)[:6000])
        return 0
    e = env()
    e["PYTHONPATH"] = REPO + ":" + HERE
    out = tempfile.mktemp()
    subprocess.run([PY, "-m", "concrete.run", pid, "quick", "1", out, "--case", r["case"], "--case-seed", str(r["seed"])], cwd=HERE, env=e)
    with open(out) as f:
        res = json.load(f)
    os.unlink(out)
    for c in res["cases"]:
        for x in c["fails"]:
            print("REPRODUCED", c["name"], x["message"])
            return 1
    print("not reproduced")
    return 0


def decide(pid, tier, seed, work, t0, verbose):
    limit = 780 if tier == "quick" else 6000
    has_proof = os.path.exists(os.path.join(HERE, "contracts", pid.lower() + ".py"))
    has_conc = os.path.exists(os.path.join(HERE, "concrete", pid.lower() + ".py"))
    procs = {}
    pe = env()
    pe["PYTHONPATH"] = HERE
    ce = env()
    ce["PYTHONPATH"] = REPO + ":" + HERE
    po, co = os.path.join(work, "proof.json"), os.path.join(work, "conc.json")
    if has_proof:
        procs["proof"] = subprocess.Popen([PY, "-m", "vc.run", pid, tier, po], cwd=HERE, env=pe, stdout=open(work + "/p.out", "w"), stderr=subprocess.STDOUT)
    if has_conc:
        procs["conc"] = subprocess.Popen([PY, "-m", "concrete.run", pid, tier, str(seed), co], cwd=HERE, env=ce, stdout=open(work + "/c.out", "w"), stderr=subprocess.STDOUT)
    for k, p in procs.items():
        try:
            p.wait(max(1, limit - (time.time() - t0)))
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()

    def load(path, k):
        try:
            with open(path) as f:
                return json.load(f)
        except Exception:
            tail = ""
            try:
                tail = open(f"{work}/{k[0]}.out").read()[-3000:]
            except OSError:
                pass
            return {"error": f"the {k} process gave no result\n{tail}"}

    proof = load(po, "proof") if has_proof else None
    conc = load(co, "conc") if has_conc else None
    rdir = os.path.join(HERE, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    for f in os.listdir(rdir):
        if f.startswith(pid + "-"):
            os.unlink(os.path.join(rdir, f))
    kf = known_findings(pid)
    lines, nviol = [], 0
    inputs = []  # failing inputs
    known_seen = {}
    if conc:
        for c in conc.get("cases", []):
            for k in c["known"]:
                kid, what = k["message"].split("|", 1)
                if kid in kf:
                    known_seen.setdefault(kid, what)
                else:
                    inputs.append((c["name"], {"seed": k["seed"], "message": k["message"], "input": {}}))
            for x in c["fails"]:
                inputs.append((c["name"], x))
    failed = []
    if proof is not None:
        if proof.get("error"):
            failed.append({"contract": "*", "name": "load", "status": "unsupported", "how": "engine", "info": proof["error"], "path": "", "secs": 0})
        for c in proof.get("contracts", []):
            for o in c["obligations"]:
                if o["status"] != "proved":
                    failed.append(o)
        if not proof.get("error") and not sum(len(c["obligations"]) for c in proof.get("contracts", [])):
            failed.append({"contract": "*", "name": "zero obligations", "status": "unsupported", "how": "engine", "info": "", "path": "", "secs": 0})
    if conc is not None and conc.get("error"):
        failed.append({"contract": "executable contracts", "name": "load", "status": "unsupported", "how": "engine", "info": conc["error"], "path": "", "secs": 0})
    seen = set()
    for name, x in inputs:
        if name in seen:
            continue
        seen.add(name)
        p = os.path.join(rdir, f"{pid}-{name}.json")
        with open(p, "w") as f:
            json.dump({"property": pid, "case": name, "seed": x["seed"], "message": x["message"], "input": x["input"],
                       "replay_cmd": f"python3 {HERE}/check.py {pid} --replay {p}",
                       "failed_obligations": failed[:20]}, f, indent=1)
        lines.append(f"VIOLATION property={pid} replay={p}")
        lines.append(f"  {name} seed={x['seed']}: {x['message'][:600]}")
        nviol += 1
    if failed and not inputs:
        p = os.path.join(rdir, f"{pid}-obligations.json")
        with open(p, "w") as f:
            json.dump({"property": pid, "failed_obligations": failed[:60]}, f, indent=1)
        for o in failed[:6]:
            lines.append(f"  obligation {o['contract']}/{o['name']} {o['status']} ({o['how']}): {o['info'][:400]}")
        lines.append(f"VIOLATION property={pid} replay={p} no-failing-input-found")
        nviol += 1
    elif failed:
        for o in failed[:6]:
            lines.append(f"  failed obligation {o['contract']}/{o['name']} {o['status']} ({o['how']}): {o['info'][:300]}")
    for kid, what in sorted(known_seen.items()):
        print(f"KNOWN-FINDING: property={pid} {kid}: {what}")
    for ln in lines:
        print(ln)
    write_evidence(pid, tier, seed, proof, conc, failed, nviol, time.time() - t0)
    if verbose and proof:
        for c in proof.get("contracts", []):
            print(f"  {c['name']:40s} {c['secs']:6.1f}s paths {c['paths']} obligations {len(c['obligations'])}")
    if verbose and conc:
        for c in conc.get("cases", []):
            print(f"  [bounded] {c['name']:40s} {c['secs']:6.1f}s runs {c['runs']} distinct {c['distinct']}" + (" BUDGET" if c.get("budget") else ""))
    if not nviol:
        n = sum(len(c["obligations"]) for c in (proof or {}).get("contracts", []))
        m = sum(c["runs"] for c in (conc or {}).get("cases", []))
        print(f"OK property={pid} obligations={n} bounded-runs={m} wall={time.time() - t0:.1f}s")
    return 1 if nviol else 0


def write_evidence(pid, tier, seed, proof, conc, failed, nviol, wall):
    n = d = 0
    by, fns, z3s = {}, set(), 0.0
    if proof:
        for c in proof.get("contracts", []):
            z3s += c["z3_secs"]
            fns.update(c["functions"])
            for o in c["obligations"]:
                n += 1
                if o["status"] == "proved":
                    d += 1
                    by[o["how"]] = by.get(o["how"], 0) + 1
    cases = (conc or {}).get("cases", [])
    runs = sum(c["runs"] for c in cases)
    dist = sum(c["distinct"] for c in cases)
    skip = ("datafold._decorators",)
    cov = {
        "functions_under_contract": sorted(f for f in fns if not f.startswith(skip)),
        "contracts": [{"name": c["name"], "what": c["doc"], "obligations": len(c["obligations"]), "paths": c["paths"], "secs": c["secs"]} for c in (proof or {}).get("contracts", [])],
        "discharged_by": by,
        "solver_secs": round(z3s, 3),
        "bounded_stand_ins": [{"name": c["name"], "what": c["doc"], "runs": c["runs"], "distinct": c["distinct"]} for c in cases],
        "bounded_runs": runs,
    }
    level = "proof" if proof else "exploration"
    samples = [dict(case=c["name"], **c["sample"]) for c in cases if c.get("sample")][:4]
    if proof:
        cov.update(obligations=n, discharged=d, checker_cmd=f"python3 check.py {pid} --tier {tier}",
                   trusted_base=[
                       "CPython 3.12 executing the instrumented datafold source (vc/loader.py: every call routed through a dispatcher, loops/comprehensions hooked; no statement dropped)",
                       "vc/ engine: normal forms, rewriting, path exploration, loop rule", "z3",
                   ] + ["library contract: " + u for u in (proof or {}).get("used", [])])
    if conc:
        cov.update(evaluations=runs, distinct_nontrivial=dist, rule="one run = one generated input through one executable contract; distinct = different recorded inputs", samples=samples)
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": level, "coverage": cov,
        "assumptions": [
            "floats are treated as elements of a field, machine integers as mathematical integers; divisors are nonzero",
            "numpy/scipy/pandas/scikit-learn functions satisfy the contracts of vc/models.py (assumed, not proved)",
            "functions listed under bounded_stand_ins are only checked on generated inputs, never counted as proved",
        ],
        "wall_s": round(wall, 2), "violations": nviol,
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)


if __name__ == "__main__":
    sys.exit(main())

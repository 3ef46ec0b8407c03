"""usage: python -m concrete.run <property> <tier> <seed> <out.json> [--case name --case-seed n] [--only a,b]"""
import argparse
import hashlib
import importlib
import json
import sys
import time
import traceback


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("tier")
    ap.add_argument("seed", type=int)
    ap.add_argument("out")
    ap.add_argument("--case")
    ap.add_argument("--case-seed", type=int)
    ap.add_argument("--budget", type=float, default=None)
    ap.add_argument("--scale", type=float, default=None)
    a = ap.parse_args()
    t0 = time.time()
    from . import core

    res = {"property": a.pid, "cases": [], "error": None}
    try:
        import datafold  # noqa

        mod = importlib.import_module("concrete." + a.pid.lower())
        cases = list(mod.CASES)
        a.scale = a.scale or getattr(mod, "SCALE", 1)
    except BaseException as e:
        res["error"] = f"{type(e).__name__}: {e}\n{traceback.format_exc()[-3000:]}"
        cases = []
    budget = a.budget or (55.0 if a.tier == "quick" else 600.0)
    for f in cases:
        if a.case and f.__name__ != a.case:
            continue
        n = f.n if a.tier == "quick" else f.n_thorough
        n = max(1, int(round(n * a.scale)))
        r = {"name": f.__name__, "doc": (f.__doc__ or "").strip(), "runs": 0, "distinct": 0, "fails": [], "known": [], "sample": None, "secs": 0}
        seen = set()
        t1 = time.time()
        seeds = [a.case_seed] if a.case_seed is not None else [core.seed_of(f.__name__, a.seed, i) for i in range(n)]
        for s in seeds:
            st, msg, log = core.run_case(f, s, a.tier)
            r["runs"] += 1
            key = hashlib.sha1(json.dumps(log, sort_keys=True, default=str).encode()).hexdigest()
            seen.add(key)
            if r["sample"] is None and log:
                r["sample"] = {"seed": s, **log}
            if st == "broken":
                r["fails"].append({"seed": s, "message": msg, "input": log})
                if len(r["fails"]) >= 3:
                    break
            elif st == "known":
                r["known"].append({"seed": s, "message": msg})
            if time.time() - t0 > budget:
                r["budget"] = True
                break
        r["distinct"] = len(seen)
        r["secs"] = round(time.time() - t1, 2)
        res["cases"].append(r)
    res["secs"] = round(time.time() - t0, 2)
    with open(a.out, "w") as fh:
        json.dump(res, fh, default=str)


if __name__ == "__main__":
    main()

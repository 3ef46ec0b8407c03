"""Proof process: explores every contract of one property and writes the obligations.

usage: python -m vc.run <property> <tier> <out.json> [contract names...]"""
import collections
import importlib
import json
import os
import sys
import time
import traceback
import warnings


_WORK = []


def one_at(k):
    return one(_WORK[k])


def one(w):
    """explore one contract (own process: results do not depend on the other contracts)"""
    _, c, tier, _ = w
    from .engine import Engine
    from . import models, prover

    name = c.__name__
    e = Engine(max_paths=getattr(c, "max_paths", 400), budget=getattr(c, "budget", 300 if tier == "quick" else 600),
               timeout=4000 if tier == "quick" else 20000)
    t0 = time.time()
    s0 = dict(prover.STATS)
    try:
        obs = e.explore(name, c)
    except BaseException as ex:
        e.record("engine", "unsupported", "engine", f"{type(ex).__name__}: {ex} {traceback.format_exc()[-1500:]}")
        obs = e.obligations
    st = {k: prover.STATS[k] - s0.get(k, 0) for k in prover.STATS}
    r = {"name": name, "doc": (c.__doc__ or "").strip(), "secs": round(time.time() - t0, 2), "paths": e.paths,
         "live": e.live_paths, "z3_secs": round(st.get("z3_time", 0), 3),
         "functions": sorted(e.functions), "obligations": [o.as_dict() for o in obs]}
    return r, sorted(models.USED), st


def main():
    pid, tier, out = sys.argv[1:4]
    sel = set(sys.argv[4:])
    warnings.simplefilter("ignore")
    t00 = time.time()
    from . import loader

    loader.install()
    from . import engine, models, prover, runtime  # noqa: everything is imported before the workers fork
    try:
        import datafold.appfold, datafold.dynfold, datafold.pcfold, datafold.utils.general  # noqa
        import sklearn.metrics, scipy.sparse.linalg  # noqa
        from . import tables
        tables.install()
    except BaseException:
        pass
    res = {"property": pid, "contracts": [], "error": None}
    try:
        mod = importlib.import_module("contracts." + pid.lower())
        cs = list(mod.CONTRACTS)
        if tier == "thorough":
            cs += list(getattr(mod, "THOROUGH", []))
    except BaseException as e:
        res["error"] = f"import: {type(e).__name__}: {e}\n{traceback.format_exc()[-3000:]}"
        cs = []
    names = [(k, c) for k, c in enumerate(cs) if not sel or c.__name__ in sel]
    work = [(k, c, tier, t00) for k, c in names]
    import multiprocessing as mp

    jobs = int(os.environ.get("VC_JOBS", "5"))
    used, stats = set(), collections.Counter()
    if len(work) <= 1 or jobs == 1:
        outs = [one(w) for w in work]
    else:
        global _WORK
        _WORK = work
        with mp.get_context("fork").Pool(min(jobs, len(work)), maxtasksperchild=1) as pool:
            outs = pool.map(one_at, range(len(work)), chunksize=1)
    for r, u, st in outs:
        res["contracts"].append(r)
        used |= set(u)
        stats.update(st)
    res["used"] = sorted(used)
    res["stats"] = dict(stats)
    res["stubs"] = []
    res["secs"] = round(time.time() - t00, 2)
    with open(out, "w") as f:
        json.dump(res, f)


if __name__ == "__main__":
    main()

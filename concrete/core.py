"""Executable contracts: run the real code on generated inputs (counterexample search and
the labelled *bounded* stand-in for functions outside the verifier's reach).

A case function takes a Gen; it raises Broken (or an unexpected exception) on violation."""
import hashlib
import json
import os
import time
import traceback
import warnings

import numpy as np


class Broken(Exception):
    pass


class Known(Exception):
    """a listed known finding manifested"""

    def __init__(self, kid, what):
        super().__init__(f"{kid}: {what}")
        self.kid, self.what = kid, what


class Gen:
    def __init__(self, seed, tier="quick"):
        self.seed = seed
        self.rng = np.random.default_rng(seed)
        self.tier = tier
        self.log = {}

    def note(self, **kw):
        for k, v in kw.items():
            self.log[k] = describe(v)

    def int(self, lo, hi):
        return int(self.rng.integers(lo, hi + 1))

    def choice(self, *xs):
        return xs[self.int(0, len(xs) - 1)]

    def flag(self, p=0.5):
        return bool(self.rng.random() < p)

    def normal(self, *shape, scale=1.0):
        return self.rng.normal(size=shape) * scale

    def uniform(self, lo, hi, size=None):
        return self.rng.uniform(lo, hi, size)


def describe(v, lim=400):
    try:
        import pandas as pd

        if isinstance(v, (pd.DataFrame, pd.Series)):
            return f"{type(v).__name__} index={list(v.index)[:12]} columns={list(getattr(v, 'columns', []))[:8]} values={np.asarray(v)[:6].tolist()}"[:lim * 2]
    except Exception:
        pass
    if isinstance(v, np.ndarray):
        return f"array{v.shape} {v.dtype} {np.array2string(v.ravel()[:24], precision=6)}"[:lim]
    return repr(v)[:lim]


def check(cond, msg, **ctx):
    try:
        ok = bool(cond)
    except Exception as e:  # ambiguous truth value etc.
        raise Broken(f"{msg}: {e}")
    if not ok:
        raise Broken(msg + ("" if not ctx else " | " + "; ".join(f"{k}={describe(v)}" for k, v in ctx.items())))


def close(a, b, msg, rtol=1e-8, atol=1e-10, **ctx):
    a = np.asarray(a)
    b = np.asarray(b)
    if a.shape != b.shape:
        raise Broken(f"{msg}: shape {a.shape} instead of {b.shape}")
    if a.dtype == object or b.dtype == object:
        a, b = a.astype(complex), b.astype(complex)
    with np.errstate(all="ignore"):
        ok = np.allclose(a, b, rtol=rtol, atol=atol, equal_nan=True)
    if not ok:
        with np.errstate(all="ignore"):
            d = np.nanmax(np.abs(a - b)) if a.size else 0
        raise Broken(f"{msg}: differ by {d:.3g}; got {describe(a, 200)} want {describe(b, 200)}" + ("" if not ctx else " | " + "; ".join(f"{k}={describe(v)}" for k, v in ctx.items())))


def same(a, b, msg, **ctx):
    a = np.asarray(a)
    b = np.asarray(b)
    if a.shape != b.shape:
        raise Broken(f"{msg}: shape {a.shape} instead of {b.shape}")
    try:
        eq = (a == b) | ((a != a) & (b != b))
    except Exception:
        eq = a == b
    if not np.all(eq):
        raise Broken(f"{msg}: got {describe(a, 200)} want {describe(b, 200)}" + ("" if not ctx else " | " + "; ".join(f"{k}={describe(v)}" for k, v in ctx.items())))


def raises(exc, fn, msg):
    try:
        r = fn()
    except exc:
        return
    except Exception as e:
        raise Broken(f"{msg}: raised {type(e).__name__} ({e}) instead of {exc}")
    raise Broken(f"{msg}: accepted, returned {describe(r)}")


def case(n=8, thorough=10, weight=1):
    """n runs in quick tier, n*thorough in thorough tier"""

    def deco(f):
        f.n = n
        f.n_thorough = n * thorough
        return f

    return deco


def run_case(f, seed, tier):
    """-> (status, message, log)"""
    g = Gen(seed, tier)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            f(g)
            return "ok", "", g.log
        except Known as e:
            return "known", f"{e.kid}|{e.what}", g.log
        except Broken as e:
            return "broken", str(e)[:1500], g.log
        except Exception as e:
            tb = traceback.format_exc()
            return "broken", f"unexpected {type(e).__name__}: {e} @ {tb[-900:]}", g.log


def seed_of(name, base, i):
    h = hashlib.sha256(f"{name}:{base}:{i}".encode()).digest()
    return int.from_bytes(h[:6], "little")

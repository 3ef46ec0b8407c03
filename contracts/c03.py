"""C03 operations never mix different time series"""
import types

import numpy as np
import pandas as pd

from vc import tables as tb


def A():
    from datafold.pcfold.timeseries import accessor
    return accessor


def C():
    from datafold.pcfold.timeseries import collection
    return collection


def _orient(v, lr, col):
    return tuple(x.T for x in lr) if col else lr


def pairs_equal_length(v):
    """K series of m >= 2 samples: pair k (m-1) + r is (x_k(t_r), x_k(t_r+1)), all pairs of all series in order"""
    X = tb.tensor_collection(v, m=v.int("m", 2), K=v.int("K", 2))
    col = bool(v.split(v.bool("col")))
    l, r = _orient(v, X.tsc.shift_matrices(snapshot_orientation="col" if col else "row", validate=False), col)
    k, q, j = v.int("k", 0, X.K - 1), v.int("q", 0, X.m - 2), v.int("j", 0, X.n - 1)
    p = k * (X.m - 1) + q
    for nm, a in (("left", l), ("right", r)):
        v.prove_eq(f"{nm}: number of pairs", a.shape[0], X.K * (X.m - 1))
        v.prove_eq(f"{nm}: features", a.shape[1], X.n)
    v.prove("left snapshots", l[p, j] == X.val[k, q, j])
    v.prove("right snapshots", r[p, j] == X.val[k, q + 1, j])
    v.frame("data unchanged", X.v)


def pairs_single(v):
    """one series"""
    X = tb.tensor_collection(v, m=v.int("m", 2), K=1)
    col = bool(v.split(v.bool("col")))
    l, r = _orient(v, X.tsc.shift_matrices(snapshot_orientation="col" if col else "row", validate=False), col)
    q, j = v.int("q", 0, X.m - 2), v.int("j", 0, X.n - 1)
    v.prove_eq("left: number of pairs", l.shape[0], X.m - 1)
    v.prove_eq("right: number of pairs", r.shape[0], X.m - 1)
    v.prove("left snapshots", l[q, j] == X.val[0, q, j])
    v.prove("right snapshots", r[q, j] == X.val[0, q + 1, j])
    v.frame("data unchanged", X.v)


CONTRACTS = [pairs_equal_length, pairs_single]


def ragged(v, name="X", least=2):
    """K series of different lengths L(k), stored one after the other: series k holds rows off(k) .. off(k) + L(k) - 1"""
    K, n = v.int("K", 2), v.int("n", 1)
    L = v.array("L", (K,), dt="int", pos=True)
    v.assume_forall(K, lambda k: L[k] >= least)
    ids = v.array("id", (K,), dt="int", nonneg=True)
    off = lambda k: v.sum(k, lambda q: L[q])
    N = off(K)
    # prefix sums of positive numbers increase
    v.assume_forall(K, lambda k: v.and_(off(k + 1) <= N, off(k) >= 2 * k))
    val, rid, rt = v.array(name, (N, n)), v.array("rowid", (N,), dt="int"), v.array("time", (N,))
    l0 = tb.SIndex(rid)
    l0.first = tb.SIndex(ids, "ID")
    X = tb.Tab(val, tb.SMulti(l0, tb.SIndex(rt)), None, C().TSCDataFrame)
    X.__dict__.update(K=K, n=n, N=N, L=L, off=off, n_timeseries=K, n_timesteps=tb.Tab(L, tb.SIndex(ids, "ID"), None, pd.Series), val=val)
    return X


def pairs_different_length(v):
    """series of different lengths: every pair of consecutive samples of every series, in order, and no other"""
    X = ragged(v)
    col = bool(v.split(v.bool("col")))
    l, r = _orient(v, X.tsc.shift_matrices(snapshot_orientation="col" if col else "row", validate=False), col)
    k, j = v.int("k", 0, X.K - 1), v.int("j", 0, X.n - 1)
    q = v.int("q", 0)
    v.assume(q < X.L[k] - 1)
    p = X.off(k) - k + q
    v.assume(X.off(k + 1) == X.off(k) + X.L[k])
    v.lemma("rows of a series lie inside", v.and_(p >= 0, p < X.N - X.K, X.off(k) >= 0, X.off(k) + X.L[k] <= X.N))
    v.instantiate(p, k)
    v.instantiate(p, k + 1)
    for nm, a in (("left", l), ("right", r)):
        v.prove_eq(f"{nm}: number of pairs", a.shape[0], X.N - X.K)
    v.prove("left snapshots", l[p, j] == X.val[X.off(k) + q, j])
    v.prove("right snapshots", r[p, j] == X.val[X.off(k) + q + 1, j])
    v.frame("data unchanged", X.v)


def shift_delta(v):
    """shift_time_by_delta adds the same time to every row, values and series stay"""
    X = tb.rows_collection(v)
    d = v.real("shift")
    ids, t, val = X.ids_.copy(), X.times_.copy(), X.v
    Y = X.tsc.shift_time_by_delta(d)
    v.prove_eq("times", Y.index.get_level_values("time").to_numpy(), t + d)
    v.prove_eq("series", Y.index.get_level_values("ID").to_numpy(), ids)
    v.fact("values", Y.v is val)
    v.frame("values and labels handed in", X.val, X.ids_, X.times_)


def shift_each(v):
    """shift_time_per_time_series adds the shift of its own series to every row"""
    X = tb.tensor_collection(v)
    s = v.array("shift", (X.K,))
    sh = tb.Tab(s, tb.SIndex(X.ids_, "ID"), None, pd.Series)
    val = X.v
    Y = X.tsc.shift_time_per_time_series(sh)
    k, q = v.int("k", 0, X.K - 1), v.int("q", 0, X.m - 1)
    p = k * X.m + q
    v.prove("times", Y.index.get_level_values("time").a[p] == X.times_[q] + s[k])
    v.prove("series", Y.index.get_level_values("ID").a[p] == X.ids_[k])
    v.fact("values", Y.v is val)
    v.frame("values and shifts", X.val, s)


def shift_to_zero(v):
    """without shift values every series starts at time zero"""
    X = tb.tensor_collection(v)
    Y, sh = X.tsc.shift_time_per_time_series(return_shift_values=True)
    k, q = v.int("k", 0, X.K - 1), v.int("q", 0, X.m - 1)
    v.prove("times", Y.index.get_level_values("time").a[k * X.m + q] == X.times_[q] - X.times_[0])


def control_rows(v):
    """augment_control_input: the control of sample p of a series sits on sample p + 1 of the same series"""
    X = tb.rows_collection(v)
    row = v.arr_fn((X.N, 1), lambda p, _: p, dt="int")
    X.__dict__["v"] = row
    seen = []
    v.stub(A(), "is_df_same_index", lambda a, b, **k: seen.append((a, b)))

    class U:
        _vc_sym = True
        index = None

        def copy(self, deep=True):
            self.deep = deep
            return U2

    class U2_:
        _vc_sym = True

    U2 = U2_()
    u = U()
    out = []
    from vc.models import MODELS
    old = MODELS[pd.concat]
    MODELS[pd.concat] = lambda objs, axis=0: out.append((list(objs), axis)) or "done"
    try:
        X.tsc.augment_control_input(u)
    finally:
        MODELS[pd.concat] = old
    a = seen[0][0]
    q = v.int("q", 0)
    v.assume(q < a.v.shape[0])
    s = a.v[q, 0]
    v.prove("rows with control: the next row continues the series", v.and_(s >= 0, s < X.N - 1, X.ids_[s + 1] == X.ids_[s]))
    p = v.int("p", 0)
    v.assume(p < X.N - 1)
    v.assume(X.ids_[p] == X.ids_[p + 1])
    v.prove("every such row has control", v.not_(v.forall(a.v.shape[0], lambda x: v.not_(a.v[x, 0] == p))))
    t = U2.index
    y = v.int("y", 0)
    v.assume(y < t.shape[0])
    v.fact("put beside the states", out[0][1] == 1 and out[0][0][0] is X and out[0][0][1] is U2)


CONTRACTS += [pairs_different_length, shift_delta, shift_each, shift_to_zero, control_rows]

"""C02 time queries describe the stored time axis truthfully"""
import numpy as np
import pandas as pd

from vc import tables as tb


def A():
    from datafold.pcfold.timeseries import accessor
    return accessor


def C():
    from datafold.pcfold.timeseries import collection
    return collection


def lengths(v, K=None):
    """K series with identifiers ids[k] and L[k] samples each"""
    K = v.int("K", 1) if K is None else K
    L = v.array("L", (K,), dt="int", pos=True)
    ids = v.array("id", (K,), dt="int", nonneg=True)
    v.assume_forall(K - 1, lambda k: ids[k] < ids[k + 1])
    N = v.sum(K, lambda q: L[q])
    l0 = tb.SIndex(v.array("rowid", (N,), dt="int"))
    l0.uniq, l0.first = (ids, L), tb.SIndex(ids, "ID")
    X = tb.Tab(v.array("X", (N, v.int("n", 1))), tb.SMulti(l0, tb.SIndex(v.array("time", (N,))), levels=[tb.SLevel(ids, "ID"), None]), None, C().TSCDataFrame)
    X.__dict__.update(K=K, L=L, ids_=ids, equal=v.forall(K, lambda k: L[k] == L[0]))
    return X


def is_int(x):
    from vc.arrays import SNum
    return isinstance(x, (int, SNum))


def number_of_series(v):
    X = lengths(v)
    v.prove_eq("identifiers", X.ids.to_numpy(), X.ids_)
    v.prove_eq("number of series", X.n_timeseries, X.K)


def n_timesteps(v):
    """the common length if all series have the same number of samples, otherwise the length of each series"""
    X = lengths(v)
    r = X.n_timesteps
    if is_int(r):
        v.prove("a single number only for equal lengths", X.equal)
        v.prove_eq("the common length", r, X.L[0])
        k = v.int("k", 0, X.K - 1)
        v.prove("the length of every series", X.L[k] == r)
    else:
        v.prove("one number per series only for different lengths", v.not_(X.equal))
        v.prove_eq("lengths", r.v, X.L)
        v.prove_eq("labelled with the series", r.index.to_numpy(), X.ids_)


def equal_length(v):
    """is_equal_length / check_timeseries_same_length / check_const_timesteps"""
    X = lengths(v)
    which = v.split(v.bool("ask"))
    if which:
        r = X.is_equal_length()
        v.prove("yes exactly for equal lengths", v.iff(r, X.equal))
    elif v.split(v.bool("check")):
        v.raises("different lengths", C().TSCException, v.not_(X.equal), lambda: X.tsc.check_timeseries_same_length())
    else:
        r = v.raises("different lengths", C().TSCException, v.not_(X.equal), lambda: X.tsc.check_const_timesteps())
        v.prove_eq("the common length", r, X.L[0])


def required_steps(v):
    """check_required_n_timesteps / check_required_min_timesteps raise exactly if some series has not (at least) that many samples"""
    X = lengths(v)
    q = v.int("required", 1)
    if v.split(v.bool("exact")):
        v.raises("required number", C().TSCException, v.not_(v.forall(X.K, lambda k: X.L[k] == q)), lambda: X.tsc.check_required_n_timesteps(q))
    else:
        v.raises("required minimum", C().TSCException, v.not_(v.forall(X.K, lambda k: X.L[k] >= q)), lambda: X.tsc.check_required_min_timesteps(q))


def degenerate(v):
    """degenerate_ids: exactly the series with a single sample; has_degenerate / check_no_degenerate_ts accordingly"""
    X = lengths(v)
    none = v.forall(X.K, lambda k: v.not_(X.L[k] == 1))
    c = v.split(v.bool("ask"))
    if c:
        r = X.degenerate_ids()
        if r is None:
            v.prove("none", none)
        else:
            v.prove("some", v.not_(none))
            a = r.a
            s, k = v.int("s", 0), v.int("k", 0, X.K - 1)
            v.prove("reported series are degenerate", v.implies(s < a.shape[0], v.not_(v.forall(X.K, lambda q: v.not_(v.and_(X.ids_[q] == a[s], X.L[q] == 1))))))
            v.prove("degenerate series are reported", v.implies(X.L[k] == 1, v.not_(v.forall(a.shape[0], lambda q: v.not_(a[q] == X.ids_[k])))))
    elif v.split(v.bool("has")):
        v.prove("has", v.iff(X.has_degenerate(), v.not_(none)))
    else:
        v.raises("degenerate", C().TSCException, v.not_(none), lambda: X.tsc.check_no_degenerate_ts())


def _axis(v, fixed):
    """any collection; level[1] of its index holds the sorted distinct times"""
    X = tb.rows_collection(v)
    d = v.real("fixed_delta") if fixed else None
    if fixed:
        v.assume(d > 0)
    u = v.lib(np.unique, X.times_)
    X.index.levels = [None, tb.SIndex(u)]
    X.__dict__.update(fixed_delta=d, u=u, scale=d if fixed else 1)
    return X


def time_values(v):
    """time_values: the distinct times of the rows in increasing order (times the fixed delta)"""
    X = _axis(v, bool(v.split(v.bool("fixed"))))
    raw = bool(v.split(v.bool("raw")))
    r = X.time_values(with_fixed_delta=not raw)
    c = 1 if raw else X.scale
    v.assume(r.shape[0] == X.u.shape[0])
    s, p = v.int("s", 0), v.int("p", 0, X.N - 1)
    v.assume(s < r.shape[0])
    v.prove("every reported time is the time of a row", v.not_(v.forall(X.N, lambda q: v.not_(r[s] == X.times_[q] * c))))
    v.prove("the time of every row is reported", v.not_(v.forall(X.u.shape[0], lambda q: v.not_(r[q] == X.times_[p] * c))))
    v.assume(s + 1 < r.shape[0])
    v.prove("increasing", X.u[s] < X.u[s + 1])
    v.prove("in order", r[s] == X.u[s] * c)
    v.frame("labels unchanged", X.times_, X.ids_)


def time_interval(v):
    """time_interval: the first and the last of the time values"""
    X = lengths(v)
    m = v.int("m", 1)
    t = v.array("t", (m,))
    X.__dict__["time_values"] = lambda: t
    lo, hi = X.time_interval()
    p = v.int("p", 0, m - 1)
    v.prove("no time earlier or later", v.and_(lo <= t[p], t[p] <= hi))
    v.prove("first attained", v.not_(v.forall(m, lambda q: v.not_(lo == t[q]))))
    v.prove("last attained", v.not_(v.forall(m, lambda q: v.not_(hi == t[q]))))


def time_interval_series(v):
    """time_interval of one series: its own first and last time"""
    X = tb.tensor_collection(v)
    fixed = bool(v.split(v.bool("fixed")))
    d = v.real("fixed_delta")
    v.assume(d > 0)
    X.__dict__["fixed_delta"] = d if fixed else None
    k, p = v.int("k", 0, X.K - 1), v.int("p", 0, X.m - 1)
    lo, hi = X.time_interval(X.ids_[k])
    c = d if fixed else 1
    t = X.times_[p] * c
    v.prove("no sample earlier or later", v.and_(lo <= t, t <= hi))
    v.prove("first attained", v.not_(v.forall(X.m, lambda q: v.not_(lo == X.times_[q] * c))))
    v.prove("last attained", v.not_(v.forall(X.m, lambda q: v.not_(hi == X.times_[q] * c))))


def same_times(v):
    """is_same_time_values / check_equal_timevalues: a single series, or equal lengths and no more distinct times than samples per series"""
    X = lengths(v)
    T = v.int("distinct", 1)
    X.index.levels = [tb.SLevel(X.ids_), tb.SIndex(v.array("times", (T,)))]
    want = v.or_(X.K == 1, v.and_(X.equal, X.L[0] == T))
    if v.split(v.bool("ask")):
        v.prove("answer", v.iff(X.is_same_time_values(), want))
    else:
        v.raises("different times", C().TSCException, v.not_(want), lambda: X.tsc.check_equal_timevalues())


def const_delta(v):
    """is_const_delta_time: one number for all series, and not 'undefined'; check_const_time_delta returns it or raises"""
    X = lengths(v)
    dt = v.real("dt")
    kind = "series" if v.split(v.bool("series")) else "nan" if v.split(v.bool("nan")) else "number"
    val = dict(series=tb.Tab(v.array("d", (X.K,)), tb.SIndex(X.ids_), None, pd.Series), nan=float("nan"), number=dt)[kind]
    X.__dict__["delta_time"] = val
    if v.split(v.bool("ask")):
        v.fact("answer", bool(X.is_const_delta_time()) == (kind == "number"))
    else:
        r = v.raises("not constant", C().TSCException, kind != "number", lambda: X.tsc.check_const_time_delta())
        v.prove_eq("the interval", r, dt)


def normalized(v):
    """is_normalized_time / check_normalized_time: starts at zero with unit steps"""
    X = lengths(v)
    dt, t0, t1 = v.real("dt"), v.real("t0"), v.real("t1")
    const = v.bool("const")
    X.__dict__.update(delta_time=dt, is_const_delta_time=lambda: bool(v.split(const)), time_interval=lambda: (t0, t1))
    want = v.and_(const, t0 == 0, dt == 1)
    if v.split(v.bool("ask")):
        v.prove("answer", v.iff(X.is_normalized_time(), want))
    else:
        v.raises("not normalized", C().TSCException, v.not_(want), lambda: X.tsc.check_normalized_time())


def const_sampled(v):
    """const_sampled_time_values: start, start + dt, ... up to the end of the interval"""
    X = lengths(v)
    dt, t0 = v.real("dt"), v.real("t0")
    v.assume(v.and_(dt > 0, t0 >= 0))
    M = v.int("steps", 0)
    const = v.bool("const")
    X.__dict__.update(delta_time=dt, is_const_delta_time=lambda: bool(v.split(const)), time_interval=lambda: (t0, t0 + M * dt))
    r = v.raises("not constant", C().TSCException, v.not_(const), lambda: X.const_sampled_time_values())
    v.prove_eq("number of times", r.shape[0], M + 1)
    s = v.int("s", 0, M)
    v.prove("times", r[s] == t0 + s * dt)


def required_ids(v):
    """check_contain_required_ids raises exactly if the identifiers differ from the required ones"""
    X = lengths(v)
    q = v.int("q", 1)
    want = v.array("want", (q,), dt="int", nonneg=True)
    v.assume_forall(q - 1, lambda a: want[a] < want[a + 1])
    order = bool(v.split(v.bool("order")))
    first = tb.Tab(v.array("first", (X.K, 1)), tb.SMulti(tb.SIndex(X.ids_), tb.SIndex(v.array("t", (X.K,)))), None, C().TSCDataFrame)
    X.__dict__["initial_states"] = lambda n: first
    differ = v.or_(v.not_(q == X.K), v.not_(v.forall(X.K, lambda k: want[k] == X.ids_[k])))
    if v.split(q == X.K):
        v.raises("other identifiers", C().TSCException, v.not_(v.forall(X.K, lambda k: want[k] == X.ids_[k])), lambda: X.tsc.check_contain_required_ids(want, check_order=order))
    else:
        v.raises("other number of identifiers", C().TSCException, True, lambda: X.tsc.check_contain_required_ids(want, check_order=order))


def required_counts(v):
    """check_required_n_timeseries / check_min_samples / check_min_features raise exactly if the number differs / is smaller"""
    X = lengths(v)
    q = v.int("q", 0)
    if v.split(v.bool("series")):
        v.raises("number of series", C().TSCException, v.not_(X.K == q), lambda: X.tsc.check_required_n_timeseries(q))
    elif v.split(v.bool("samples")):
        v.raises("number of samples", C().TSCException, X.v.shape[0] < q, lambda: X.tsc.check_min_samples(q))
    else:
        v.raises("number of features", C().TSCException, X.v.shape[1] < q, lambda: X.tsc.check_min_features(q))


def equal_delta(v):
    """check_equal_delta_time: two sampling intervals agree up to the tolerance, or both vary and agree per series"""
    Acc = A().TSCAccessor

    class S:
        _vc_sym = True

    X, Y = S(), S()
    X.delta_time, Y.delta_time = v.real("dx"), v.real("dy")
    tol = v.real("atol")
    far = v.not_(abs(X.delta_time - Y.delta_time) <= tol)
    a, b = v.raises("different sampling", C().TSCException, far, lambda: Acc.check_equal_delta_time(X, Y, atol=tol))
    v.prove("returned", v.and_(a == X.delta_time, b == Y.delta_time))


def check_tsc_order(v):
    """check_tsc runs exactly the requested checks"""
    Acc = A().TSCAccessor
    t = tb.Tab(v.array("X", (v.int("N", 1), v.int("n", 1))), None, None, C().TSCDataFrame)
    a = object.__new__(Acc)
    a._tsc_df = t
    seen = []
    names = ["check_finite", "check_min_samples", "check_min_features", "check_timeseries_same_length", "check_const_time_delta", "check_required_time_delta", "check_equal_timevalues",
             "check_normalized_time", "check_required_n_timeseries", "check_required_n_timesteps", "check_required_min_timesteps", "check_no_degenerate_ts", "check_dtype_time"]
    for nm in names:
        v.stub(a, nm, lambda *x, _n=nm, **k: seen.append((_n, x + tuple(k.values()))))
    kw = dict(ensure_all_finite=("check_finite", (), True, False), ensure_same_length=("check_timeseries_same_length", (), True, False),
              ensure_const_delta_time=("check_const_time_delta", (), True, False), ensure_delta_time=("check_required_time_delta", (0.5,), 0.5, None),
              ensure_same_time_values=("check_equal_timevalues", (), True, False), ensure_normalized_time=("check_normalized_time", (), True, False),
              ensure_n_timeseries=("check_required_n_timeseries", (3,), 3, None), ensure_n_timesteps=("check_required_n_timesteps", (4,), 4, None),
              ensure_min_timesteps=("check_required_min_timesteps", (2,), 2, None), ensure_no_degenerate_ts=("check_no_degenerate_ts", (), True, False),
              ensure_dtype_time=("check_dtype_time", (float,), float, None))
    for only in [None, "all", *kw]:
        seen.clear()
        r = a.check_tsc(**{k: (on if only in ("all", k) else off) for k, (_, _, on, off) in kw.items()}, ensure_min_samples=7, ensure_min_features=9)
        want = {("check_min_samples", (7,)), ("check_min_features", (9,))} | {(c, x) for k, (c, x, _, _) in kw.items() if only in ("all", k)}
        v.fact(f"checks run for {only}", set(seen) == want, f"{seen} {want}")
        v.fact("the collection comes back", r is t)


CONTRACTS = [number_of_series, n_timesteps, equal_length, required_steps, degenerate, time_values, time_interval, time_interval_series, same_times, const_delta, normalized,
             const_sampled, required_ids, required_counts, equal_delta, check_tsc_order]

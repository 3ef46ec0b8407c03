"""C02 - time queries describe the stored time axis truthfully (bounded)"""
import numpy as np
import pandas as pd
from concrete.core import Broken, case, check, close, raises, same
from concrete.tsgen import frame, general, names_of, time_axis, untouched, stored
from datafold.pcfold import TSCDataFrame
from datafold.pcfold.timeseries.accessor import TSCAccessor
from datafold.pcfold.timeseries.collection import TSCException


def isnan(v):
    return bool(pd.isnull(v))


def one_delta(t):
    """the sampling interval of one time axis, None if it is not constant"""
    d = np.diff(t)
    if len(d) == 0:
        return None
    if t.dtype.kind == "f":
        lo, hi = d.min(), d.max()
        if hi - lo <= 1e-12 * lo or hi - lo < 1e-16:
            return lo
        if hi - lo < 1e-10 * lo:
            raise ValueError("undecided input")
        return None
    return d[0] if (d == d[0]).all() else None


def deltas(axes):
    return [one_delta(np.asarray(t)) for t in axes]


def agree(ds):
    """all series have the same constant interval"""
    if any(d is None for d in ds):
        return False
    if isinstance(ds[0], (float, np.floating)):
        lo, hi = min(ds), max(ds)
        if hi - lo <= 1e-12 * lo:
            return True
        if hi - lo < 1e-10 * lo:
            raise ValueError("undecided input")
        return False
    return all(d == ds[0] for d in ds)


def noisy(g):
    """float axes of the kind users create: linspace, arange, cumulative sums, shifted, or uneven"""
    m = g.int(1, 3)
    L = g.int(2, 12)
    equal = g.flag()
    dt = g.choice(0.1, 0.01, 1 / 3, 0.25, 1.0, 7.3)
    axes = []
    for _ in range(m):
        k = L if equal else g.int(2, 12)
        d = dt if g.flag(0.75) else g.choice(0.1, 0.01, 1 / 3, 0.25, 1.0, 7.3, dt * (1 + 1e-6), dt * (1 + 1e-8))
        t = g.choice(d * np.arange(k), np.linspace(0, d * (k - 1), k), g.int(0, 4) * d + d * np.arange(k))
        if k > 2 and g.flag(0.25):
            t = t.copy()
            t[g.int(1, k - 2)] += d * g.choice(0.3, 1e-4, 1e-7, -1e-3)
        axes.append(t)
    ids = g.rng.choice(30, m, replace=False)
    if g.flag(0.7):
        ids = np.sort(ids)
    blocks = [g.normal(len(t), 2) for t in axes]
    g.note(ids=ids, axes=[t.tolist() for t in axes])
    return stored(g, blocks, ids, axes, ["a", "b"]), blocks, ids, axes, ["a", "b"]


def queries(g, X, ids, axes):
    ids = [int(i) for i in ids]
    srt = sorted(ids)
    check(sorted(X.ids.tolist()) == srt and len(X.ids) == len(ids), "ids: the stored series")
    check(X.n_timeseries == len(ids), "number of series")
    every = np.unique(np.concatenate(axes))
    same(X.time_values(), every, "time_values: the distinct stored times")
    lo, hi = X.time_interval()
    check(lo == every.min() and hi == every.max(), "time_interval of the collection", got=(lo, hi))
    for i, t in zip(ids, axes):
        lo, hi = X.time_interval(i)
        check(lo == t[0] and hi == t[-1], "time_interval of one series", id=i, got=(lo, hi))
    lens = [len(t) for t in axes]
    n = X.n_timesteps
    if len(set(lens)) == 1:
        check(isinstance(n, int) and n == lens[0], "n_timesteps: one number for equally long series", got=n)
    else:
        check(isinstance(n, pd.Series) and len(n) == len(ids) and all(n.loc[i] == k for i, k in zip(ids, lens)), "n_timesteps per series", got=n)
    check(X.is_equal_length() == (len(set(lens)) == 1), "is_equal_length", lens=lens)
    shared = all(len(t) == len(axes[0]) and (t == axes[0]).all() for t in axes)
    check(X.is_same_time_values() == shared, "is_same_time_values", want=shared)
    deg = [i for i, k in zip(ids, lens) if k == 1]
    got = X.degenerate_ids()
    check((got is None and not deg) or (got is not None and sorted(got.tolist()) == sorted(deg)), "degenerate_ids", got=got, want=deg)
    check(X.has_degenerate() == bool(deg), "has_degenerate")
    ds = deltas(axes)
    const = agree(ds)
    dt = X.delta_time
    none = all(d is None for d in ds)

    def eq(a, b):
        if b is None:
            return isnan(a)
        if isinstance(b, (float, np.floating)):
            return abs(a - b) <= 1e-11 * abs(b)
        return not isnan(a) and np.timedelta64(a) == b if isinstance(b, np.timedelta64) else a == b

    if len(ids) == 1 or const or none:
        check(not isinstance(dt, pd.Series) and eq(dt, ds[0]), "delta_time: one value when all series agree", got=dt, want=ds)
    else:
        check(isinstance(dt, pd.Series) and len(dt) == len(ids) and all(eq(dt.loc[i], d) for i, d in zip(ids, ds)), "delta_time per series", got=dt, want=ds)
    check(bool(X.is_const_delta_time()) == const, "is_const_delta_time", want=const)
    norm = const and X.index.get_level_values(1).dtype.kind != "M" and every.min() == 0 and X.delta_time == 1
    check(bool(X.is_normalized_time()) == norm, "is_normalized_time", want=norm)
    T = TSCException

    def expect(ok, fn, what):
        if ok:
            try:
                fn()
            except Exception as e:
                raise Broken(f"{what} raised {type(e).__name__}: {e}")
        else:
            raises(T, fn, what)

    A = X.tsc
    expect(const, A.check_const_time_delta, "check_const_time_delta")
    expect(len(set(lens)) == 1, A.check_timeseries_same_length, "check_timeseries_same_length")
    expect(len(set(lens)) == 1, A.check_const_timesteps, "check_const_timesteps")
    expect(shared, A.check_equal_timevalues, "check_equal_timevalues")
    expect(norm, A.check_normalized_time, "check_normalized_time")
    expect(not deg, A.check_no_degenerate_ts, "check_no_degenerate_ts")
    for k in {min(lens), max(lens), max(lens) + 1, lens[0]}:
        expect(k <= min(lens), lambda: A.check_required_min_timesteps(k), f"check_required_min_timesteps({k})")
        expect(set(lens) == {k}, lambda: A.check_required_n_timesteps(k), f"check_required_n_timesteps({k})")
    for k in {len(ids), len(ids) + 1}:
        expect(k == len(ids), lambda: A.check_required_n_timeseries(k), "check_required_n_timeseries")
    expect(True, lambda: A.check_contain_required_ids(g.rng.permutation(ids)), "check_contain_required_ids")
    expect(True, lambda: A.check_contain_required_ids(ids, check_order=True), "check_contain_required_ids in order")
    expect(len(ids) == 1, lambda: A.check_contain_required_ids(ids[::-1], check_order=True), "check_contain_required_ids in other order")
    expect(False, lambda: A.check_contain_required_ids(ids[:-1] + [99]), "check_contain_required_ids other ids")
    expect(False, lambda: A.check_contain_required_ids(ids + [99]), "check_contain_required_ids more ids")
    expect(len(every) == len(X), A.check_non_overlapping_timeseries, "check_non_overlapping_timeseries")
    expect(len(X) >= 3, lambda: A.check_min_samples(3), "check_min_samples")
    expect(X.shape[1] >= 2, lambda: A.check_min_features(2), "check_min_features")
    expect(True, A.check_finite, "check_finite")
    kind = X.index.get_level_values(1).dtype
    expect(True, lambda: A.check_dtype_time(kind), "check_dtype_time")
    expect(False, lambda: A.check_dtype_time(np.dtype("float32")), "check_dtype_time other dtype")
    if const:
        d = ds[0]
        expect(True, lambda: A.check_required_time_delta(X.delta_time), "check_required_time_delta of its own interval")
        expect(False, lambda: A.check_required_time_delta(d * 2), "check_required_time_delta of another interval")
        if isinstance(d, float):
            expect(False, lambda: A.check_required_time_delta(d * (1 + 1e-9) + 1e-9), "check_required_time_delta of a slightly different interval")
        grid = X.const_sampled_time_values()
        k = int(round((every.max() - every.min()) / d)) + 1
        if len(every) == k:
            check(len(grid) == k and (np.abs(grid - every) <= 1e-9 * d if isinstance(d, float) else grid == every).all(), "const_sampled_time_values: the whole grid", got=grid, want=every)
    else:
        raises(T, X.const_sampled_time_values, "const_sampled_time_values without constant interval")
        if not isinstance(dt, pd.Series) and not any(d is not None for d in ds) and X.index.get_level_values(1).dtype.kind != "M":
            expect(False, lambda: A.check_required_time_delta(1.0), "check_required_time_delta of uneven series")
    ov = A.time_values_overview()
    check(sorted(ov.index.tolist()) == srt, "overview: one row per series")
    for i, t, d in zip(ids, axes, ds):
        r = ov.loc[i]
        check(r["start"] == t[0] and r["end"] == t[-1] and eq(r["delta_time"], d), "overview of one series", id=i, got=r.tolist())
    for kw, ok in (({}, True), (dict(ensure_same_length=True), len(set(lens)) == 1), (dict(ensure_same_time_values=True), shared), (dict(ensure_no_degenerate_ts=True), not deg),
                   (dict(ensure_const_delta_time=True), const), (dict(ensure_normalized_time=True), norm), (dict(ensure_n_timeseries=len(ids) + 1), False), (dict(ensure_min_timesteps=min(lens) + 1), False),
                   (dict(ensure_n_timesteps=lens[0]), len(set(lens)) == 1), (dict(ensure_min_samples=len(X) + 1), False), (dict(ensure_min_features=X.shape[1] + 1), False)):
        base = dict(ensure_const_delta_time=False, ensure_no_degenerate_ts=False)
        base.update(kw)
        expect(ok, lambda: A.check_tsc(**base), f"check_tsc({kw})")
    Y = X.copy()
    Y.iloc[g.int(0, len(X) - 1), 0] = g.choice(np.nan, np.inf, -np.inf)
    check(not Y.is_finite() and X.is_finite(), "is_finite")
    raises(T, Y.tsc.check_finite, "check_finite")


@case(90)
def any_axis(g):
    X, blocks, ids, axes, names = general(g)
    _, ok = untouched(X, lambda: queries(g, X, ids, axes))
    check(ok, "queries leave the collection unchanged")


@case(90)
def float_axis(g):
    X, blocks, ids, axes, names = noisy(g)
    queries(g, X, ids, axes)


@case(30)
def normalized(g):
    m = g.int(1, 3)
    axes = [g.int(0, 1) * g.int(0, 3) + np.arange(g.int(1, 5)) * (1 if g.flag(0.8) else 2) for _ in range(m)]
    if g.flag():
        axes = [t.astype(float) for t in axes]
    ids = np.sort(g.rng.choice(9, m, replace=False))
    g.note(axes=[t.tolist() for t in axes])
    queries(g, frame([g.normal(len(t), 1) for t in axes], ids, axes, ["a"]), ids, axes)


@case(80)
def pairs_of_collections(g):
    X, _, ix, ax, _ = noisy(g) if g.flag(0.6) else general(g, lo=2)
    if g.flag(0.3):
        Y, iy, ay = X.copy(), ix, ax
    else:
        Y, _, iy, ay, _ = noisy(g) if g.flag(0.6) else general(g, lo=2)
    g.note(X=[np.asarray(t).tolist() for t in ax], Y=[np.asarray(t).tolist() for t in ay])
    if np.asarray(ax[0]).dtype.kind != np.asarray(ay[0]).dtype.kind:
        return
    dx, dy = deltas(ax), deltas(ay)

    def near(a, b):
        if a is None or b is None:
            return a is None and b is None
        if isinstance(a, np.timedelta64):
            return a == b
        if 3e-16 < abs(a - b) < 1e-11 * abs(a):
            raise ValueError("undecided input")
        return abs(a - b) < 1e-14

    try:
        cx, cy = agree(dx), agree(dy)
        if cx and cy:
            want = near(min(dx), min(dy))
        else:
            pair = {int(i): d for i, d in zip(ix, dx)}, {int(i): d for i, d in zip(iy, dy)}
            one = [len(d) == 1 or all(v is None for v in d) for d in (dx, dy)]
            if one[0] or one[1] or cx or cy:
                want = False
            else:
                want = pair[0].keys() == pair[1].keys() and all(near(pair[0][i], pair[1][i]) for i in pair[0])
    except ValueError:
        return
    if want:
        TSCAccessor.check_equal_delta_time(X, Y)
    else:
        raises(TSCException, lambda: TSCAccessor.check_equal_delta_time(X, Y), "check_equal_delta_time of different intervals")
    if cx and cy and want:
        TSCAccessor.check_equal_delta_time(X, Y, require_const=True)
    else:
        raises(TSCException, lambda: TSCAccessor.check_equal_delta_time(X, Y, require_const=True), "check_equal_delta_time(require_const)")


@case(40)
def sliced(g):
    """rows of a larger collection: nothing of the other rows remains"""
    X, blocks, ids, axes, names = general(g, m=g.int(2, 4), lo=2, hi=7)
    queries(g, X, ids, axes)
    how = g.choice("series", "times", "head", "tail", "rows")
    if how == "series":
        k = np.sort(g.rng.choice(len(ids), g.int(1, len(ids) - 1), replace=False))
        Y = X[X.index.get_level_values(0).isin(ids[k])]
        ids, axes = ids[k], [axes[i] for i in k]
    elif how == "times":
        every = np.unique(np.concatenate(axes))
        sel = np.sort(g.rng.choice(every, g.int(1, len(every)), replace=False))
        Y = X.select_time_values(sel)
        axes = [t[np.isin(t, sel)] for t in axes]
    elif how in ("head", "tail"):
        k = g.int(1, min(len(t) for t in axes))
        Y = X.initial_states(k) if how == "head" else X.final_states(k)
        axes = [t[:k] if how == "head" else t[-k:] for t in axes]
    else:
        keep = g.rng.random(len(X)) < 0.6
        keep[g.int(0, len(X) - 1)] = True
        Y = X.iloc[np.flatnonzero(keep)]
        s = np.cumsum([0] + [len(t) for t in axes])
        axes = [t[keep[a:b]] for t, a, b in zip(axes, s[:-1], s[1:])]
    ids, axes = [i for i, t in zip(ids, axes) if len(t)], [t for t in axes if len(t)]
    g.note(how=how, left=[np.asarray(t).tolist() for t in axes])
    queries(g, Y, ids, axes)


@case(20)
def fixed_delta(g):
    L, m = g.int(1, 5), g.int(1, 3)
    f = g.choice(0.1, 0.5, 2.5)
    idx = pd.MultiIndex.from_product([np.arange(m), np.arange(L)])
    X = TSCDataFrame(g.normal(m * L, 1), index=idx, columns=["a"], fixed_delta=f)
    close(X.time_values(), f * np.arange(L), "time_values with fixed_delta")
    close(X.time_interval(), [0, f * (L - 1)], "time_interval with fixed_delta")
    close(X.time_interval(0), [0, f * (L - 1)], "time_interval of a series with fixed_delta")
    X2 = TSCDataFrame(g.normal(m * L, 1), index=pd.MultiIndex.from_product([np.arange(m), 3 + 2 * np.arange(L)]), columns=["a"], fixed_delta=f)
    close(X2.time_values(), f * (3 + 2 * np.arange(L)), "time_values with fixed_delta")
    close(X2.time_interval(m - 1), [3 * f, f * (3 + 2 * (L - 1))], "time_interval of a series with fixed_delta")
    if L > 1:
        close(X2.delta_time, 2 * f, "delta_time with fixed_delta")
        close(X.delta_time, f, "delta_time with fixed_delta")
        close(X.const_sampled_time_values(), f * np.arange(L), "const_sampled_time_values with fixed_delta")


CASES = [any_axis, sliced, float_axis, normalized, pairs_of_collections, fixed_delta]

"""C03 - operations never mix different time series (bounded)"""
import numpy as np
import pandas as pd
from concrete.core import case, check, close, raises, same
from concrete.tsgen import expect_rows, frame, general, names_of, untouched, stored
from datafold.dynfold.transform import TSCFiniteDifference, TSCMovingAverage, TSCTakensEmbedding
from datafold.pcfold import TSCDataFrame
from datafold.pcfold.timeseries.collection import TSCException


def rows_of(X):
    return {(int(i), t): v for (i, t), v in zip(X.index, X.to_numpy())}


def steps(t):
    """sampling interval of one axis as the code reports it"""
    return np.min(np.diff(t))


def constant(g, lo=2, hi=7, kinds=("int", "float", "float"), **kw):
    """collection with one constant sampling interval"""
    while True:
        m = kw.get("m") or g.int(1, 4)
        n = kw.get("n") or g.int(1, 3)
        kind = g.choice(*kinds)
        dt = g.int(1, 3) if kind == "int" else g.choice(0.1, 0.25, 1.0, 0.01)
        if kind == "datetime":
            dt = np.timedelta64(g.int(1, 3), "h")
        base = np.datetime64("2021-01-01T00:00", "ns") if kind == "datetime" else 0
        equal = g.flag(0.4)
        L = g.int(lo, hi)
        ids = g.rng.choice(40, m, replace=False)
        if g.flag(0.6):
            ids = np.sort(ids)
        axes = []
        for _ in range(m):
            k = L if equal else g.int(lo, hi)
            s = 0 if g.flag(0.4) else g.int(0, 4)
            axes.append(base + dt * (s + np.arange(k)))
        blocks = [g.normal(len(t), n) for t in axes]
        names = names_of(g, n)
        g.note(ids=ids, axes=[np.asarray(t).tolist() for t in axes])
        return stored(g, blocks, ids, axes, names), blocks, ids, axes, names, dt


def by_id(Y, msg):
    """rows of the result per series, each in stored order"""
    out = {}
    for (i, t), v in zip(Y.index, Y.to_numpy()):
        out.setdefault(int(i), ([], []))
        out[int(i)][0].append(t)
        out[int(i)][1].append(v)
    return {i: (pd.Index(t).to_numpy(), np.array(v)) for i, (t, v) in out.items()}


@case(60)
def snapshot_pairs(g):
    X, blocks, ids, axes, names, dt = constant(g)
    row = g.flag()
    (l, r), ok = untouched(X, lambda: X.tsc.shift_matrices(snapshot_orientation="row" if row else "col"))
    check(ok, "shift_matrices leaves the data unchanged")
    same(l if row else l.T, np.concatenate([b[:-1] for b in blocks]), "left snapshots: all but the last of every series")
    same(r if row else r.T, np.concatenate([b[1:] for b in blocks]), "right snapshots: their successors in the same series")
    l[:] = -1
    check(ok and X.iloc[0, 0] == blocks[0][0, 0], "snapshots are copies")
    Y, yb, yi, ya, _, _ = constant(g, lo=1, hi=3)
    if min(len(t) for t in ya) < 2:
        raises(TSCException, lambda: Y.tsc.shift_matrices(), "shift_matrices of a single sample")
    raises(ValueError, lambda: X.tsc.shift_matrices(snapshot_orientation="x"), "unknown orientation")


@case(60)
def derivative(g):
    X, blocks, ids, axes, names, dt = constant(g, lo=6, hi=10)
    scheme = g.choice("backward", "center", "forward")
    order = g.int(1, 2)
    acc = g.choice(2, 2, 4) if scheme == "center" else 2
    shift = g.flag()
    g.note(scheme=scheme, order=order, acc=acc, shift=shift)
    (D), ok = untouched(X, lambda: X.tsc.time_derivative(scheme=scheme, diff_order=order, accuracy=acc, shift_index=shift))
    check(ok, "time_derivative leaves the data unchanged")
    # the scheme is exact for polynomials of degree order + acc - 1 on the unit grid: compute its weights from that
    if scheme == "center":
        h = (order + 1) // 2 + acc // 2 - 1
        off = np.arange(-h, h + 1)
    else:
        off = np.arange(order + acc)
        off = -off[::-1] if scheme == "backward" else off
    k = len(off)
    w = np.linalg.solve(np.vander(off.astype(float), k, increasing=True).T, np.eye(k)[order] * [1, 1, 2][order])
    res = by_id(D, "derivative")
    check(sorted(res) == sorted(int(i) for i in ids), "derivative of every series")
    check(list(D.columns) == list(names), "derivative: features")
    for i, b, t in zip(ids, blocks, axes):
        a, e = -off.min(), len(t) - off.max()
        want = np.array([sum(w[j] * b[p + off[j]] for j in range(k)) for p in range(a, e)]) / float(dt) ** order
        at = t[a:e]
        if shift and scheme in ("center", "forward"):
            at = t[len(t) - (e - a):]
        same(res[int(i)][0], at, "derivative: time of every row", id=i)
        close(res[int(i)][1], want, "derivative of the series itself", rtol=1e-7, atol=1e-7 * np.max(np.abs(want)), id=i)


@case(60)
def takens(g):
    d, lag, fr = g.int(1, 3), g.int(0, 2), g.int(1, 2)
    if d == 1:
        fr = 1
    kap = g.choice(0, 0.0, 0.5, 1)
    idx = lag + 1 + fr * np.arange(d)
    # the code documents indices lag + arange(1, delays * frequency + 1, frequency)
    K = idx.max()
    X, blocks, ids, axes, names, dt = constant(g, lo=int(K) + 1, hi=int(K) + 4)
    if g.flag(0.3) and kap == 1:
        X = X.round().astype(int)
        blocks = [np.round(b).astype(int) for b in blocks]
    g.note(delays=d, lag=lag, frequency=fr, kappa=kap)
    est = TSCTakensEmbedding(delays=d, lag=lag, frequency=fr, kappa=kap)
    Y, ok = untouched(X, lambda: est.fit_transform(X))
    check(ok, "embedding leaves the data unchanged")
    res = by_id(Y, "takens")
    check(sorted(res) == sorted(int(i) for i in ids), "embedding of every series")
    check(list(Y.columns) == list(names) + [f"{c}:d{k}" for k in idx for c in names], "embedding: names of the delayed copies", got=list(Y.columns))
    for i, b, t in zip(ids, blocks, axes):
        want = np.array([np.concatenate([b[p]] + [b[p - k] * (np.exp(-kap * (q + 1)) if kap > 0 else 1) for q, k in enumerate(idx)]) for p in range(K, len(t))])
        same(res[int(i)][0], t[K:], "embedding: times", id=i)
        close(res[int(i)][1], want, "embedding: current and delayed samples of one series", rtol=1e-12, id=i)
    B = est.inverse_transform(Y)
    res = by_id(B, "inverse")
    for i, b, t in zip(ids, blocks, axes):
        same(res[int(i)][1], b[K:], "inverse of the embedding")
    S, _, _, sa, _, sdt = constant(g, lo=1, hi=int(K) + 1, n=len(names))
    S = S.set_axis(pd.Index(names), axis=1)
    if min(len(t) for t in sa) <= K:
        raises(Exception, lambda: est.transform(S), "too short series")


@case(40)
def windows(g):
    X, blocks, ids, axes, names, dt = constant(g, lo=2, hi=8)
    w, o = g.int(1, 5), g.int(1, 4)
    g.note(window=w, offset=o)
    got = list(X.tsc.iter_timevalue_window(window_size=w, offset=o, per_time_series=True))
    want = []
    for k in np.argsort(ids):
        for s in range(0, len(axes[k]) - w + 1, o):
            want.append((ids[k], axes[k][s:s + w], blocks[k][s:s + w]))
    check(len(got) == len(want), "windows: every full window of every series once", got=len(got), want=len(want))
    for G, (i, t, b) in zip(got, want):
        expect_rows(G, [i], [t], [b], names, "window of one series")
    every = np.unique(np.concatenate(axes))
    got = list(X.tsc.iter_timevalue_window(window_size=w, offset=o))
    exp = []
    for s in range(0, len(every) - w + 1, o):
        sel = every[s:s + w]
        hit = [(i, t[np.isin(t, sel)], b[np.isin(t, sel)]) for i, t, b in zip(ids, axes, blocks) if np.isin(t, sel).any()]
        exp.append(hit)
    check(len(got) == len(exp), "windows of the whole collection")
    for G, hit in zip(got, exp):
        expect_rows(G, [h[0] for h in hit], [h[1] for h in hit], [h[2] for h in hit], names, "window of the collection")
    for bad in ((0, 1), (2, 0)):
        raises(ValueError, lambda: list(X.tsc.iter_timevalue_window(*bad)), "window parameters")


@case(60)
def moving(g):
    X, blocks, ids, axes, names, dt = constant(g, lo=1 if g.flag(0.2) else 3, hi=8)
    w = g.int(1, 3)
    g.note(window=w)
    if min(len(t) for t in axes) < 2 or max(len(t) for t in axes) < w:
        return
    est = TSCMovingAverage(window=w)
    Y, ok = untouched(X, lambda: est.fit(X).transform(X))
    check(ok, "moving average leaves the data unchanged")
    check(list(Y.columns) == [f"{n}_ma{w}" for n in names] and list(est.get_feature_names_out()) == list(Y.columns), "moving average: names")
    res = by_id(Y, "ma")
    check(sorted(res) == sorted(int(i) for i, t in zip(ids, axes) if len(t) >= w), "moving average of every series")
    for i, b, t in zip(ids, blocks, axes):
        if len(t) < w:
            continue
        same(res[int(i)][0], t[w - 1:], "moving average: times")
        close(res[int(i)][1], np.array([b[p - w + 1:p + 1].mean(axis=0) for p in range(w - 1, len(t))]), "moving average of the series itself", rtol=1e-9, atol=1e-10)


@case(60)
def shifts(g):
    X, blocks, ids, axes, names, dt = constant(g, lo=1 if g.flag(0.2) else 2, hi=6)
    lens = [len(t) for t in axes]
    s = g.choice(2, 0, 0.5, 3.25)
    expect_rows(X.copy().tsc.shift_time_by_delta(s), ids, [t + s for t in axes], blocks, names, "shift_time_by_delta")
    Y, v = X.copy().tsc.shift_time_per_time_series(return_shift_values=True)
    expect_rows(Y, ids, [t - t[0] for t in axes], blocks, names, "shift_time_per_time_series: every series starts at zero")
    check(all(v.loc[int(i)] == -t[0] for i, t in zip(ids, axes)), "shift_time_per_time_series: reported shifts")
    srt = np.argsort(ids)
    own = pd.Series([g.int(0, 6) * 0.5 for _ in ids], index=np.sort(ids))
    Z = X.copy().tsc.shift_time_per_time_series(shift_values=own)
    expect_rows(Z, ids, [t + own.loc[i] for i, t in zip(ids, axes)], blocks, names, "shift_time_per_time_series with given shifts")
    if min(lens) >= 2:
        W = X.copy().tsc.normalize_time()
        lo = min(t[0] for t in axes)
        expect_rows(W, ids, [np.rint((t - lo) / dt).astype(int) for t in axes], blocks, names, "normalize_time")
    k = g.int(1, 2)
    if min(lens) >= k:
        left = [j for j, n in enumerate(lens) if n > k]
        D = X.tsc.drop_last_n_samples(k)
        if left:
            expect_rows(D, ids[left], [axes[j][:-k] for j in left], [blocks[j][:-k] for j in left], names, "drop_last_n_samples")
        else:
            check(len(D) == 0, "drop_last_n_samples drops everything")
    Q = X.copy().tsc.assign_ids_sequential()
    new = Q.index.get_level_values(0).to_numpy()[np.cumsum([0] + [len(t) for t in axes])[:-1]]
    check(sorted(new.tolist()) == list(range(len(ids))), "assign_ids_sequential numbers the series from zero", got=new)
    expect_rows(Q, new, axes, blocks, names, "assign_ids_sequential")


@case(40)
def normalize_datetime(g):
    X, blocks, ids, axes, names, dt = constant(g, lo=2, hi=6, kinds=("datetime",))
    lo = min(t[0] for t in axes)
    expect_rows(X.copy().tsc.normalize_time(), ids, [((t - lo) / dt).astype(int) for t in axes], blocks, names, "normalize_time of dates")
    k = g.int(1, 3)
    if len(ids) == 1:
        n = len(axes[0]) + k
        Y = X.tsc.fill_timeseries_with_last_state(n)
        expect_rows(Y, ids, [axes[0][0] + dt * np.arange(n)], [np.concatenate([blocks[0]] + [blocks[0][-1:]] * k)], names, "fill_timeseries_with_last_state of dates")


@case(40)
def filling(g):
    X, blocks, ids, axes, names, dt = constant(g, lo=2, hi=9, m=1)
    k = g.int(1, 6)
    n = len(axes[0]) + k
    g.note(n_timesteps=n)
    Y, ok = untouched(X, lambda: X.tsc.fill_timeseries_with_last_state(n))
    check(ok, "fill_timeseries_with_last_state leaves the data unchanged")
    check(len(Y) == n and list(Y.ids) == [ids[0]], "fill: one series with the requested length", ids=list(Y.ids), n=len(Y))
    close(Y.index.get_level_values(1).to_numpy().astype(float), axes[0][0] + dt * np.arange(n), "fill: continues the time axis", rtol=1e-12)
    same(Y.to_numpy(), np.concatenate([blocks[0]] + [blocks[0][-1:]] * k), "fill: last state repeated")
    raises(TSCException, lambda: X.tsc.fill_timeseries_with_last_state(len(axes[0])), "nothing to fill")


@case(40)
def expansion(g):
    X, blocks, ids, axes, names = general(g, shared=True, kind=g.choice("int", "float"), lo=2)
    t = axes[0]
    k = g.int(1, 3)
    more = t[-1] + (t[1] - t[0]) * (1 + np.arange(k))
    f = g.choice(0.0, 2.5)
    Y, ok = untouched(X, lambda: X.tsc.expand_time_values(more, fill_value=f))
    check(ok, "expand_time_values leaves the data unchanged")
    res = by_id(Y, "expand")
    check(sorted(res) == sorted(int(i) for i in ids), "expand: every series")
    for i, b in zip(ids, blocks):
        same(res[int(i)][0], np.append(t, more), "expand: times")
        same(res[int(i)][1], np.concatenate([b, np.full((k, len(names)), f)]), "expand: samples stay with their series", id=i)


@case(40)
def control_columns(g):
    X, blocks, ids, axes, names, dt = constant(g, lo=2, hi=5)
    q = g.int(1, 2)
    ub = [g.normal(len(t) - 1, q) for t in axes]
    U = frame(ub, ids, [t[:-1] for t in axes], [f"u{j}" for j in range(q)])
    (Y), ok = untouched(X, lambda: X.tsc.augment_control_input(U))
    check(ok, "augment_control_input leaves the data unchanged")
    res = by_id(Y, "augment")
    check(list(Y.columns) == list(names) + [f"u{j}" for j in range(q)], "augment: columns")
    for i, b, u, t in zip(ids, blocks, ub, axes):
        same(res[int(i)][0], t, "augment: times")
        same(res[int(i)][1], np.hstack([b, np.concatenate([np.full((1, q), np.nan), u])]), "augment: the input that led to the state", id=i)


@case(30)
def finite_difference(g):
    X, blocks, ids, axes, names, dt = constant(g, lo=5, hi=8)
    sch = g.choice("backward", "center", "forward")
    est = TSCFiniteDifference(scheme=sch, diff_order=g.int(1, 2))
    Y, ok = untouched(X, lambda: est.fit_transform(X))
    check(ok, "finite differences leave the data unchanged")
    Z = X.tsc.time_derivative(scheme=sch, diff_order=est.diff_order, shift_index=True)
    same(Y.to_numpy(), Z.to_numpy(), "transformer and accessor agree")
    check(Y.index.equals(Z.index), "transformer and accessor agree on rows")
    close(est.spacing_, float(dt), "spacing")


CASES = [snapshot_pairs, derivative, takens, windows, moving, shifts, normalize_datetime, filling, expansion, control_columns, finite_difference]

"""C01 - collections stay well formed and keep every sample (bounded)"""
import os
import tempfile

import numpy as np
import pandas as pd
from concrete.core import case, check, close, raises, same
from concrete.tsgen import expect_rows, general, names_of, time_axis, untouched
from datafold.pcfold import InitialCondition, TSCDataFrame

N = TSCDataFrame.tsc_id_idx_name, TSCDataFrame.tsc_time_idx_name


@case(40)
def tensor(g):
    m, L, n = g.int(1, 5), g.int(1, 6), g.int(1, 3)
    T = g.normal(m, L, n)
    ids = g.rng.choice(50, m, replace=False) if g.flag(0.7) else None
    names = names_of(g, n) if g.flag() else None
    kind = g.choice("int", "float", "datetime")
    tv = time_axis(g, L, kind, g.flag()) if g.flag(0.7) else None
    if tv is not None and g.flag(0.3):
        tv = g.rng.permutation(tv)
    g.note(ids=ids, tv=tv)
    T0 = T.copy()
    X = TSCDataFrame.from_tensor(T, time_series_ids=ids, feature_names=names, time_values=tv)
    ids_ = np.arange(m) if ids is None else ids
    tv_ = np.arange(L) if tv is None else tv
    order, torder = np.argsort(ids_), np.argsort(tv_)
    expect_rows(X, ids_[order], [tv_[torder]] * m, [T[i][torder] for i in order], names or [f"feature{i}" for i in range(n)], "from_tensor")
    same(T, T0, "the tensor is left unchanged")
    for bad in (dict(time_series_ids=np.arange(m + 1)), dict(time_values=np.arange(L + 1)), dict(time_series_ids=np.zeros((m, 1), int))):
        raises(ValueError, lambda: TSCDataFrame.from_tensor(T, **bad), "from_tensor rejects shapes that do not match")
    if m > 1:
        raises(ValueError, lambda: TSCDataFrame.from_tensor(T, time_series_ids=np.zeros(m, int)), "from_tensor rejects duplicate identifiers")
    raises(ValueError, lambda: TSCDataFrame.from_tensor(T[0]), "from_tensor rejects a matrix")


@case(30)
def shift_matrices(g):
    m, n = g.int(1, 6), g.int(1, 4)
    A, B = g.normal(m, n), g.normal(m, n)
    k = g.choice("", "", "left", "right")
    if k == "left":
        A = np.round(3 * A).astype(int)
    elif k == "right":
        B = np.round(3 * B).astype(int)
    g.note(A=A, B=B)
    names = names_of(g, n)
    row = g.flag()
    t = sorted([g.int(0, 3), g.int(4, 8)]) if g.flag() else (0.5, 0.75)
    X = TSCDataFrame.from_shift_matrices(A if row else A.T, B if row else B.T, time_values=t, snapshot_orientation="row" if row else "col", columns=names)
    expect_rows(X, np.arange(m), [np.array(t)] * m, [np.stack([a, b]) for a, b in zip(A, B)], names, "from_shift_matrices")
    l, r = X.tsc.shift_matrices(snapshot_orientation="row" if row else "col")
    same(l, A if row else A.T, "left matrix comes back")
    same(r, B if row else B.T, "right matrix comes back")
    raises(ValueError, lambda: TSCDataFrame.from_shift_matrices(A, g.normal(m + 1, n), snapshot_orientation="row"), "different shapes are rejected")
    raises(ValueError, lambda: TSCDataFrame.from_shift_matrices(A, B, snapshot_orientation="diag"), "unknown orientation is rejected")


@case(30)
def single_series(g):
    L, n = g.int(1, 6), g.int(1, 3)
    tv = time_axis(g, L, g.choice("int", "float", "datetime"), g.flag())
    V = g.normal(L, n)
    ts_id = g.choice(None, 0, g.int(1, 30))
    names = names_of(g, n)
    if n > 1 and g.flag(0.3):
        names[g.int(0, n - 1)] = "ID"
    p = g.rng.permutation(L)
    df = pd.DataFrame(V[p], index=tv[p], columns=names)
    if g.flag():
        df.index.name = g.choice("t", "time", "x")
    g.note(names=names, ts_id=ts_id, tv=tv)
    X, ok = untouched(df, lambda: TSCDataFrame.from_single_timeseries(df, ts_id=ts_id))
    check(ok, "from_single_timeseries leaves the frame unchanged")
    expect_rows(X, [ts_id or 0], [tv], [V], names, "from_single_timeseries")
    s = pd.Series(V[:, 0], index=tv, name=g.choice(None, "v"))
    expect_rows(TSCDataFrame.from_single_timeseries(s, ts_id=ts_id), [ts_id or 0], [tv], [V[:, :1]], [s.name or "feature"], "from_single_timeseries of a series")
    A = TSCDataFrame.from_array(V, time_values=tv, feature_names=names, ts_id=ts_id)
    expect_rows(A, [ts_id or 0], [tv], [V], names, "from_array")
    expect_rows(TSCDataFrame.from_array(V[p], time_values=tv[p], feature_names=names, ts_id=ts_id), [ts_id or 0], [tv], [V], names, "from_array, times in any order")
    raises(TypeError, lambda: TSCDataFrame.from_single_timeseries(X), "a collection is not a single series")


@case(40)
def frame_list(g):
    X, blocks, ids, axes, names = general(g, m=g.int(1, 4))
    entries, want = [], []
    for k, (b, t) in enumerate(zip(blocks, axes)):
        df = pd.DataFrame(b, index=t, columns=names)
        if g.flag(0.5):
            df = TSCDataFrame.from_single_timeseries(df, ts_id=g.int(0, 9))
        entries.append(df)
        want.append((b, t))
    if g.flag(0.4):
        srt = np.argsort(ids)
        entries.insert(0, X)
        want = [(blocks[i], axes[i]) for i in srt] + want
    keep = [e.copy() for e in entries]
    tids = g.rng.choice(60, len(want), replace=False) if g.flag(0.7) else None
    Y = TSCDataFrame.from_frame_list(entries, ts_ids=tids)
    expect_rows(Y, np.arange(len(want)) if tids is None else tids, [t for _, t in want], [b for b, _ in want], names, "from_frame_list")
    check(all(a.equals(b) and a.index.equals(b.index) and list(a.index.names) == list(b.index.names) for a, b in zip(entries, keep)), "the frames are left unchanged")
    raises(ValueError, lambda: TSCDataFrame.from_frame_list(entries, ts_ids=np.zeros(len(want) + 1, int)), "wrong number of identifiers")
    if len(want) > 1:
        raises(ValueError, lambda: TSCDataFrame.from_frame_list(entries, ts_ids=np.zeros(len(want), int)), "duplicate identifiers")
        bad = list(entries)
        bad[-1] = pd.DataFrame(blocks[-1], index=axes[-1], columns=[f"other{i}" for i in range(len(names))])
        raises(Exception, lambda: TSCDataFrame.from_frame_list(bad), "different features are rejected")
    raises(ValueError, lambda: TSCDataFrame.from_frame_list([]), "empty list")


@case(30)
def round_trips(g):
    X, blocks, ids, axes, names = general(g)
    expect_rows(X.copy(), ids, axes, blocks, names, "copy")
    expect_rows(TSCDataFrame(pd.DataFrame(X)), ids, axes, blocks, names, "from DataFrame")
    expect_rows(TSCDataFrame(X), ids, axes, blocks, names, "from collection")
    C = X.copy()
    C.iloc[0, 0] = 99.0
    check(X.iloc[0, 0] == blocks[0][0, 0], "writing to a copy leaves the original alone")
    with tempfile.TemporaryDirectory() as d:
        f = os.path.join(d, "x.csv")
        X.to_csv(f)
        dt = X.is_datetime_index()
        Y = TSCDataFrame.from_csv(f, float_precision="round_trip", **(dict(parse_dates=["time"]) if dt else {}))
        Y.index = Y.index.set_levels(Y.index.levels[1].astype(X.index.levels[1].dtype), level=1) if not dt else Y.index
        expect_rows(Y, ids, axes, blocks, names, "csv round trip")
    vals = g.normal(X.shape[0], X.shape[1])
    Z = TSCDataFrame.from_same_indices_as(X, vals)
    s = np.cumsum([0] + [len(t) for t in axes])
    nb = [vals[a:b] for a, b in zip(s[:-1], s[1:])]
    expect_rows(Z, ids, axes, nb, names, "from_same_indices_as")
    new = names_of(g, len(names), "q")
    expect_rows(TSCDataFrame.from_same_indices_as(X, vals, except_columns=new), ids, axes, nb, new, "from_same_indices_as new columns")
    expect_rows(X, ids, axes, blocks, names, "the original")
    srt = np.argsort(ids)
    got = list(X.itertimeseries())
    check([i for i, _ in got] == [int(i) for i in ids[srt]], "itertimeseries visits every series once")
    for (i, ts), k in zip(got, srt):
        check(type(ts) is pd.DataFrame, "itertimeseries yields plain frames")
        same(ts.index.to_numpy(), axes[k], "itertimeseries time")
        same(ts.to_numpy(), blocks[k], "itertimeseries values")
    for ts, k in zip(X.itertimeseries(valid_tsc=True), srt):
        expect_rows(ts, [ids[k]], [axes[k]], [blocks[k]], names, "itertimeseries(valid_tsc)")


@case(40)
def insert(g):
    X, blocks, ids, axes, names = general(g)
    kind = "datetime" if X.is_datetime_index() else ("int" if X.index.get_level_values(1).dtype.kind == "i" else "float")
    L = g.int(1, 5)
    tv = time_axis(g, L, kind, g.flag())
    V = g.normal(L, len(names))
    free = [i for i in range(45) if i not in ids]
    tid = g.choice(None, free[g.int(0, len(free) - 1)])
    df = pd.DataFrame(V, index=tv, columns=names)
    if g.flag():
        df = TSCDataFrame.from_single_timeseries(df, ts_id=int(ids[0]))
    g.note(ts_id=tid, new_time=tv)
    keep = df.copy()
    Y, ok = untouched(X, lambda: X.insert_ts(df, ts_id=tid))
    check(ok, "insert_ts leaves the collection unchanged")
    check(df.index.equals(keep.index) and df.equals(keep), "insert_ts leaves the inserted frame unchanged")
    nid = int(max(ids)) + 1 if tid is None else tid
    expect_rows(Y, list(ids) + [nid], axes + [tv], blocks + [V], names, "insert_ts")
    raises(ValueError, lambda: X.insert_ts(pd.DataFrame(V, index=tv, columns=names), ts_id=int(ids[-1])), "existing identifier")
    raises(ValueError, lambda: X.insert_ts(pd.DataFrame(V, index=tv, columns=[f"o{i}" for i in range(len(names))])), "other features")
    raises(ValueError, lambda: X.insert_ts(pd.DataFrame(V, index=tv, columns=names), ts_id=44.5), "identifier is not an integer")
    if kind != "datetime":
        raises(ValueError, lambda: X.insert_ts(pd.DataFrame(V, index=time_axis(g, L, "datetime"), columns=names)), "other kind of time")


@case(40)
def states(g):
    X, blocks, ids, axes, names = general(g, hi=5)
    k = g.int(1, 3)
    short = min(len(t) for t in axes) < k
    if short:
        raises(Exception, lambda: X.initial_states(k), "initial_states of too short series")
        raises(Exception, lambda: X.final_states(k), "final_states of too short series")
    else:
        expect_rows(X.initial_states(k), ids, [t[:k] for t in axes], [b[:k] for b in blocks], names, "initial_states")
        expect_rows(X.final_states(k), ids, [t[-k:] for t in axes], [b[-k:] for b in blocks], names, "final_states")
    for bad in (0, -1, 1.5):
        raises(ValueError, lambda: X.initial_states(bad), "number of samples")
        raises(ValueError, lambda: X.final_states(bad), "number of samples")
    if g.flag(0.1):
        X, blocks, ids, axes, names = general(g, m=4, lo=30, hi=70)
    every = np.unique(np.concatenate(axes))
    sel = np.sort(g.rng.choice(every, len(every) if g.flag(0.2) else g.int(1, len(every)), replace=False))
    if g.flag(0.3):
        sel = sel[::-1]
    hit = [np.isin(t, sel) for t in axes]
    rows = [(i, t[h], b[h]) for i, t, b, h in zip(ids, axes, blocks, hit) if h.any()]
    expect_rows(X.select_time_values(sel), [r[0] for r in rows], [r[1] for r in rows], [r[2] for r in rows], names, "select_time_values")
    one = g.choice(*every.tolist()) if every.dtype.kind != "M" else every[g.int(0, len(every) - 1)]
    rows = [(i, t[t == one], b[t == one]) for i, t, b in zip(ids, axes, blocks) if (t == one).any()]
    expect_rows(X.select_time_values(one), [r[0] for r in rows], [r[1] for r in rows], [r[2] for r in rows], names, "select_time_values of one time")
    if X.is_same_time_values():
        f = names[g.int(0, len(names) - 1)]
        A = X.feature_to_array(f)
        same(A, np.stack([b[:, names.index(f)] for b in blocks]), "feature_to_array: one row per series")
        D = X.feature_to_array(f, as_frame=True)
        for i, t, b in zip(ids, axes, blocks):
            same(D.loc[i].to_numpy(), b[:, names.index(f)], "feature_to_array(as_frame): row of the series")
            same(D.columns.to_numpy(), t, "feature_to_array(as_frame): times")
    else:
        raises(Exception, lambda: X.feature_to_array(names[0]), "feature_to_array needs shared times")


@case(40)
def slicing(g):
    X, blocks, ids, axes, names = general(g)
    k = g.int(0, len(ids) - 1)
    one = X.loc[[int(ids[k])]]
    expect_rows(one, [ids[k]], [axes[k]], [blocks[k]], names, "loc of one series")
    sub = sorted(g.rng.choice(len(ids), g.int(1, len(ids)), replace=False))
    expect_rows(X.loc[X.index.get_level_values(0).isin(ids[sub])], ids[sub], [axes[i] for i in sub], [blocks[i] for i in sub], names, "loc of several series")
    f = names[g.int(0, len(names) - 1)]
    j = names.index(f)
    for what, Y in (("[feature]", X[f]), ("[[feature]]", X[[f]]), ("loc[:, feature]", X.loc[:, f])):
        expect_rows(Y, ids, axes, [b[:, [j]] for b in blocks], [f], what)
    p = list(g.rng.permutation(names))
    expect_rows(X[p], ids, axes, [b[:, [names.index(q) for q in p]] for b in blocks], p, "reordered features")
    rows = np.sort(g.rng.choice(len(X), g.int(1, len(X)), replace=False))
    s = np.cumsum([0] + [len(t) for t in axes])
    per = [rows[(rows >= a) & (rows < b)] - a for a, b in zip(s[:-1], s[1:])]
    kept = [i for i, r in enumerate(per) if len(r)]
    expect_rows(X.iloc[rows], ids[kept], [axes[i][per[i]] for i in kept], [blocks[i][per[i]] for i in kept], names, "iloc rows")
    Y = pd.concat([X, X.rename(columns={n: n + "b" for n in names})], axis=1)
    expect_rows(Y, ids, axes, [np.hstack([b, b]) for b in blocks], names + [n + "b" for n in names], "concat of features")
    Z, zb, zi, za, _ = general(g, n=len(names), kind="datetime" if X.is_datetime_index() else "int" if X.index.get_level_values(1).dtype.kind == "i" else "float")
    Z = Z.set_axis(pd.Index(names), axis=1)
    if set(zi) & set(ids):
        if any(set(np.asarray(za[list(zi).index(i)]).tolist()) & set(np.asarray(axes[list(ids).index(i)]).tolist()) for i in set(zi) & set(ids)):
            raises(Exception, lambda: TSCDataFrame(pd.concat([X, Z])), "concat with duplicate rows")
    else:
        expect_rows(pd.concat([X, Z]), list(ids) + list(zi), axes + za, blocks + zb, names, "concat of series")


@case(60)
def rejects(g):
    X, blocks, ids, axes, names = general(g, m=g.int(2, 3), lo=3)
    I, T = X.index.get_level_values(0).to_numpy(), X.index.get_level_values(1).to_numpy()
    V = X.to_numpy()

    def make(i=I, t=T, v=V, c=names, **kw):
        return TSCDataFrame(v, index=pd.MultiIndex.from_arrays([i, t]), columns=c, **kw)

    expect_rows(make(), ids, axes, blocks, names, "valid data")
    expect_rows(make(i=I.astype(float)), ids, axes, blocks, names, "integer valued identifiers")
    what = g.choice("dup row", "unsorted time", "torn series", "negative id", "fractional id", "levels", "dup column", "columns levels", "text", "text time", "negative time", "missing time", "infinite time", "mixed columns", "set index", "set columns")
    g.note(what=what)
    j = g.int(0, len(axes[0]) - 2)
    E = AttributeError
    isdt = X.is_datetime_index()
    if what == "dup row":
        t = T.copy(); t[j + 1] = t[j]; E = (AttributeError, ValueError)
        raises(E, lambda: make(t=t), what)
    elif what == "unsorted time":
        t = T.copy(); t[[j, j + 1]] = t[[j + 1, j]]
        raises(E, lambda: make(t=t), what)
    elif what == "torn series":
        i = I.copy(); i[-1] = I[0]
        if g.flag():
            i = np.sort(np.unique(I))[np.searchsorted(np.unique(I), I)]
            lo, hi = sorted({int(I[0]), int(I[-1])})
            i = np.where(I == I[0], lo, hi)
            i[-1] = lo
        t = T.copy(); t[-1] = max(T) + (T[1] - T[0])
        g.note(i=i, t=t)
        raises((E, ValueError), lambda: make(i=i, t=t), what)
    elif what == "negative id":
        i = I.copy(); i[I == I[0]] = -3
        raises(E, lambda: make(i=i), what)
    elif what == "fractional id":
        raises(E, lambda: make(i=I + 0.5), what)
    elif what == "levels":
        raises(E, lambda: TSCDataFrame(V, index=pd.MultiIndex.from_arrays([I, T, np.arange(len(T))]), columns=names), what)
        raises(E, lambda: TSCDataFrame(V, index=np.arange(len(T)), columns=names), what)
    elif what == "dup column":
        raises((E, ValueError), lambda: TSCDataFrame(np.hstack([V, V]), index=X.index, columns=list(names) * 2), what)
    elif what == "columns levels":
        raises(E, lambda: TSCDataFrame(V, index=X.index, columns=pd.MultiIndex.from_product([["a"], names])), what)
    elif what == "text":
        v = V.astype(object); v[0, 0] = "a"
        raises(E, lambda: make(v=v), what)
    elif what == "text time":
        raises(E, lambda: make(t=np.array([str(x) for x in range(len(T))])), what)
    elif what == "negative time" and not isdt:
        t = T.copy().astype(float); t[0] = -1
        raises(E, lambda: make(t=t), what)
    elif what == "missing time":
        t = T.copy() if isdt else T.astype(float)
        t[g.int(0, len(t) - 1)] = np.datetime64("NaT") if isdt else np.nan
        raises(E, lambda: make(t=t), what)
    elif what == "infinite time" and not isdt:
        t = T.astype(float); t[len(axes[0]) - 1] = np.inf
        raises(E, lambda: make(t=t), what)
    elif what == "mixed columns" and len(names) > 1:
        raises(E, lambda: make(c=[1] + names[1:]), what)
    elif what == "set index":
        t = T.copy(); t[[j, j + 1]] = t[[j + 1, j]]
        raises(E, lambda: setattr(X, "index", pd.MultiIndex.from_arrays([I, t])), what)
        expect_rows(X, ids, axes, blocks, names, "a rejected index leaves the collection")
    elif what == "set columns" and len(names) > 1:
        raises((E, ValueError), lambda: setattr(X, "columns", pd.Index([names[0]] * len(names))), what)


@case(20)
def initial_condition(g):
    m, n = g.int(1, 9), g.int(1, 3)
    V = g.normal(m, n)
    names = names_of(g, n)
    ids = np.sort(g.rng.choice(30, m, replace=False)) if g.flag() else None
    t = g.choice(0, 1.5, 3)
    Y = InitialCondition.from_array(V if m > 1 or g.flag() else V[0], time_value=t, feature_names=names, ts_ids=ids)
    expect_rows(Y, np.arange(m) if ids is None else ids, [np.array([t])] * m, [v[None] for v in V], names, "InitialCondition.from_array")
    X, blocks, xi, axes, nm = general(g, shared=True, lo=3, uneven=False)
    k = g.int(1, 2)
    expect_rows(InitialCondition.from_tsc(X, n_samples_ic=k), xi, [a[:k] for a in axes], [b[:k] for b in blocks], nm, "InitialCondition.from_tsc")
    X, blocks, xi, axes, nm = general(g, lo=2, uneven=False)
    k = g.int(1, 2)
    seen = {}
    for ic, tv in InitialCondition.iter_reconstruct_ic(X, n_samples_ic=k):
        for i in ic.ids:
            p = list(xi).index(i)
            check(i not in seen, "every series is reconstructed once")
            seen[i] = 1
            expect_rows(ic.loc[[i]], [i], [axes[p][:k]], [blocks[p][:k]], nm, "initial condition of the series")
            same(tv, axes[p][k - 1:], "time values of the series")
    check(len(seen) == len(xi), "all series are reconstructed")


@case(30)
def control_input(g):
    """InitialCondition.from_array_control: row k of the array is the control at the k-th time value"""
    m, n = g.int(2, 30), g.int(1, 3)
    V, names = g.normal(m, n), names_of(g, n, "u")
    dt = g.choice(1, 0.5, 0.1, 0.3, round(g.uniform(0.01, 3), 2), round(g.uniform(0.01, 3), 2))
    ts = g.choice(None, 3)
    t = None if g.flag() else g.int(0, 3) + dt * np.arange(m)
    g.note(V=V, dt=dt, t=t, ts_id=ts)
    Y = InitialCondition.from_array_control(V, control_names=names, dt=dt, time_values=t, ts_id=ts)
    expect_rows(Y, [0 if ts is None else ts], [dt * np.arange(m) if t is None else t], [V], names, "InitialCondition.from_array_control")
    if t is None:
        for k in range(2, m):
            Y = InitialCondition.from_array_control(V[:k], control_names=names, dt=dt, ts_id=ts)
            expect_rows(Y, [0 if ts is None else ts], [dt * np.arange(k)], [V[:k]], names, "InitialCondition.from_array_control")
    raises(ValueError, lambda: InitialCondition.from_array_control(V, control_names=names), "neither sampling nor time values")


CASES = [tensor, shift_matrices, single_series, frame_list, round_trips, insert, states, slicing, rejects, initial_condition, control_input]

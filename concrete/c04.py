"""C04 - cross-validation splits never leak or lose data (bounded)"""
import numpy as np
import pandas as pd
from concrete.core import Broken, case, check, close, raises, same
from concrete.c03 import constant, rows_of
from concrete.tsgen import expect_rows, frame, general, names_of, orbit, stable, untouched
from datafold.pcfold import TSCDataFrame
from datafold.pcfold.timeseries.metric import TSCKfoldSeries, TSCKFoldTime, TSCWindowFoldTime


def spans(axes):
    s = np.cumsum([0] + [len(t) for t in axes])
    return list(zip(s[:-1], s[1:]))


def owner(axes):
    return np.concatenate([np.full(len(t), k) for k, t in enumerate(axes)])


def runs(rows, own):
    """maximal runs of consecutive rows of one series"""
    out = []
    for r in rows:
        if out and out[-1][-1] + 1 == r and own[r] == own[out[-1][-1]]:
            out[-1].append(r)
        else:
            out.append([r])
    return out


def fragments(X, Y, rows, axes, msg):
    """Y consists of exactly these rows of X, cut into maximal runs with distinct ids"""
    if not len(rows):
        check(len(Y) == 0, f"{msg}: nothing selected")
        return []
    own = owner(axes)
    ids = Y.index.get_level_values(0).to_numpy()
    rr = runs(list(rows), own)
    lens = [len(r) for r in rr]
    check(len(Y) == sum(lens), f"{msg}: number of samples", got=len(Y), want=sum(lens))
    same(Y.to_numpy(), X.to_numpy()[rows], f"{msg}: values")
    same(Y.index.get_level_values(1).to_numpy(), X.index.get_level_values(1).to_numpy()[rows], f"{msg}: times")
    p, labels = 0, []
    for n in lens:
        part = set(ids[p:p + n].tolist())
        check(len(part) == 1, f"{msg}: a block stays in one piece", ids=ids, rows=rows)
        labels.append(part.pop())
        p += n
    check(len(set(labels)) == len(labels), f"{msg}: fragments have distinct identifiers", ids=ids, rows=rows)
    return labels


def kfold_sizes(n, k):
    s = np.full(k, n // k)
    s[: n % k] += 1
    return s


@case(60)
def series_folds(g):
    m = g.int(2, 7)
    k = g.int(2, m)
    X, blocks, ids, axes, names = general(g, m=m, equal=True)
    sh = g.flag()
    g.note(n_splits=k, shuffle=sh)
    cv = TSCKfoldSeries(n_splits=k, shuffle=sh, random_state=g.int(0, 99) if sh else None)
    folds, ok = untouched(X, lambda: list(cv.split(X)))
    check(ok, "split leaves the data unchanged")
    check(len(folds) == k == cv.get_n_splits(X), "number of folds")
    own = owner(axes)
    tested = np.zeros(len(X), int)
    sizes = kfold_sizes(m, k)
    for j, (tr, te) in enumerate(folds):
        same(np.sort(np.concatenate([tr, te])), np.arange(len(X)), "training and test rows are disjoint and complete")
        check(set(own[tr]).isdisjoint(own[te]), "series are not torn apart", train=tr, test=te)
        check(len(set(own[te])) == sizes[j], "number of test series")
        tested[te] += 1
        fragments(X, X.tsc.assign_ids_train_test(tr, te)[1], te, axes, "test set of the fold")
    check((tested == 1).all(), "every sample is tested exactly once", tested=tested)
    Y, _, _, ya, _ = general(g, m=2)
    if len(ya[0]) != len(ya[1]):
        raises(NotImplementedError, lambda: list(TSCKfoldSeries(2).split(Y)), "series of different length")


@case(60)
def time_folds(g):
    L = g.int(2, 9)
    k = g.int(2, L)
    X, blocks, ids, axes, names = general(g, shared=True, lo=L, hi=L)
    g.note(n_splits=k)
    cv = TSCKFoldTime(n_splits=k)
    folds, ok = untouched(X, lambda: list(cv.split(X)))
    check(ok, "split leaves the data unchanged")
    check(len(folds) == k == cv.get_n_splits(X), "number of folds")
    T = np.concatenate([np.arange(L)] * len(ids))
    tested = np.zeros(len(X), int)
    sizes = kfold_sizes(L, k)
    start = 0
    for j, (tr, te) in enumerate(folds):
        same(np.sort(np.concatenate([tr, te])), np.arange(len(X)), "training and test rows are disjoint and complete")
        steps = np.arange(start, start + sizes[j])
        same(te, np.flatnonzero(np.isin(T, steps)), "test rows: one contiguous block of time in every series")
        start += sizes[j]
        tested[te] += 1
        a, b = X.tsc.assign_ids_train_test(tr, te)
        la = fragments(X, a, tr, axes, "training set of the fold")
        lb = fragments(X, b, te, axes, "test set of the fold")
        check(set(la).isdisjoint(lb), "training and test identifiers differ")
    check((tested == 1).all(), "every sample is tested exactly once")
    Y, _, _, ya, _ = general(g, m=2, shared=False)
    if len(ya[0]) != len(ya[1]) or (ya[0] != ya[1]).any():
        raises(NotImplementedError, lambda: list(TSCKFoldTime(2).split(Y)), "series with different times")


@case(40)
def window_folds(g):
    m = g.int(1, 4)
    dt = g.choice(1, 0.5)
    ids = g.rng.choice(20, m, replace=False)
    if g.flag(0.6):
        ids = np.sort(ids)
    axes, s = [], 0
    for _ in range(m):
        L = g.int(2, 9)
        axes.append((s + np.arange(L)) * dt)
        s += L + g.int(0, 3)
    names = names_of(g, 2)
    X = frame([g.normal(len(t), 2) for t in axes], ids, axes, names)
    w, o = g.int(1, 5), g.int(0, 3)
    mn = g.choice(None, None, 1, 2, 3)
    g.note(window=w, offset=o, train_min=mn, ids=ids, axes=[t.tolist() for t in axes])
    cv = TSCWindowFoldTime(test_window_length=w, window_offset=o, train_min_timesteps=mn)
    if all(len(t) < w for t in axes):
        raises(ValueError, lambda: list(cv.split(X)), "window longer than every series")
        return
    folds, ok = untouched(X, lambda: list(cv.split(X)))
    check(ok, "split leaves the data unchanged")
    own = owner(axes)
    want = []
    for k in np.argsort(ids)[::-1]:
        a, b = spans(axes)[k]
        e = b
        while e - w >= a:
            test = np.arange(e - w, e)
            rest = np.setdiff1d(np.arange(len(X)), test)
            train = [r for run in runs(list(rest), own) if mn is None or len(run) >= mn for r in run]
            if train:
                want.append((train, test))
            e -= w + o
    check(len(folds) == len(want), "window folds: every full window from the end of every series", got=len(folds), want=len(want))
    check(cv.get_n_splits(X) == len(want), "get_n_splits")
    seen = np.zeros(len(X), int)
    for (tr, te), (wtr, wte) in zip(folds, want):
        same(te, wte, "test window", train=tr)
        same(tr, wtr, "training rows: everything else in long enough pieces", test=te)
        seen[te] += 1
    check((seen <= 1).all(), "no sample is tested twice")
    if m > 1:
        t2 = list(axes)
        t2[1] = axes[0][: max(2, len(axes[0]))]
        Y = frame([g.normal(len(t), 2) for t in t2], ids, t2, names)
        if not all(len(t) < w for t in t2):
            raises(Exception, lambda: list(cv.split(Y)), "overlapping series")
    for bad in (dict(test_window_length=0), dict(test_window_length=1.5), dict(test_window_length=2, window_offset=-1), dict(test_window_length=2, train_min_timesteps=0)):
        raises(ValueError, lambda: TSCWindowFoldTime(**bad), "window parameters")


@case(80)
def assign_train_test(g):
    X, blocks, ids, axes, names = general(g)
    n = len(X)
    lab = g.rng.choice(3, size=n, p=g.choice([0.6, 0.4, 0], [0.5, 0.3, 0.2], [0.2, 0.2, 0.6]))
    if g.flag():
        lab = np.repeat(lab, g.int(2, 3))[:n]
    tr, te = np.flatnonzero(lab == 0), np.flatnonzero(lab == 1)
    g.note(train=tr, test=te)
    (a, b, d), ok = untouched(X, lambda: X.tsc.assign_ids_train_test(tr, te, return_dropped=True))
    check(ok, "assignment leaves the data unchanged")
    la = fragments(X, a, tr, axes, "training fragments")
    lb = fragments(X, b, te, axes, "test fragments")
    check(set(la).isdisjoint(lb), "training and test identifiers differ", train=la, test=lb)
    if len(tr):
        check(isinstance(a, TSCDataFrame), "training data is a collection")
    same(d.to_numpy(), X.to_numpy()[lab == 2], "dropped samples")
    if len(tr) and len(te):
        raises(ValueError, lambda: X.tsc.assign_ids_train_test(np.sort(np.append(tr, te[0])), te), "row in both sets")
    if len(tr) > 1:
        raises(ValueError, lambda: X.tsc.assign_ids_train_test(tr[::-1], te), "unsorted rows")
    raises(ValueError, lambda: X.tsc.assign_ids_train_test(np.array([-1]), te), "negative rows")
    raises(ValueError, lambda: X.tsc.assign_ids_train_test(np.array([0.0]), te), "fractional rows")


@case(80)
def assign_const_delta(g):
    kind = g.choice("int", "float", "datetime")
    m = g.int(1, 3)
    ids = g.rng.choice(20, m, replace=False)
    if g.flag(0.6):
        ids = np.sort(ids)
    axes = []
    d = g.choice(1, 2)
    for _ in range(m):
        L = g.int(2, 10)
        steps = np.full(L, d)
        if g.flag(0.7):
            for _ in range(g.int(1, 3)):
                steps[g.int(0, L - 1):] = g.int(1, 4)
        t = g.int(0, 3) + np.cumsum(steps) - steps[0]
        if g.flag(0.2) and L > 2:
            t = np.cumsum(g.rng.permutation(np.arange(1, L + 1)))
        axes.append(t)
    if kind == "float":
        axes = [t * g.choice(0.5, 0.25) for t in axes]
    elif kind == "datetime":
        axes = [np.datetime64("2020-01-01", "ns") + t * np.timedelta64(1, "h") for t in axes]
    names = names_of(g, 2)
    X = frame([g.normal(len(t), 2) for t in axes], ids, axes, names)
    g.note(ids=ids, axes=[t.tolist() for t in axes])
    drop = g.flag(0.8)
    try:
        Y, ok = untouched(X, lambda: X.tsc.assign_ids_const_delta(drop_samples=drop))
    except ValueError:
        check(not drop, "samples may be dropped")
        return
    check(ok, "assignment leaves the data unchanged")
    flat = {tuple(r): i for i, r in enumerate(X.to_numpy())}
    own = owner(axes)
    used = np.zeros(len(X), int)
    if Y is not None:
        T = X.index.get_level_values(1)
        for i, part in Y.groupby(level=0):
            rows = [flat.get(tuple(r), -1) for r in part.to_numpy()]
            check(min(rows) >= 0, "samples keep their values")
            check((np.diff(rows) == 1).all() and len(set(own[rows])) == 1, "a fragment is a piece of one series", rows=rows)
            same(part.index.get_level_values(1).to_numpy(), T[rows].to_numpy(), "samples keep their times")
            dd = np.diff(T[rows].to_numpy())
            check(len(dd) >= 1 and (dd == dd[0]).all(), "constant interval within a fragment", times=T[rows].to_numpy())
            used[rows] += 1
        check(len(set(Y.ids)) == Y.n_timeseries, "distinct identifiers")
    check((used <= 1).all(), "every sample is kept at most once", used=used)
    if not drop:
        check((used == 1).all(), "nothing is dropped without permission", used=used)
    for a, b in spans(axes):
        t = X.index.get_level_values(1)[a:b].to_numpy()
        dd = np.diff(t)
        if len(dd) and (dd == dd[0]).all():
            check((used[a:b] == 1).all(), "series with constant interval are kept completely")


@case(2, thorough=4)
def grid_search(g):
    from datafold.appfold import EDMD, EDMDCV
    from datafold.dynfold import DMDStandard, TSCPolynomialFeatures
    A = stable(g, 2)
    L, m = 8, 4
    axes = [np.arange(L) * 0.1] * m
    X = frame([orbit(A, g.normal(2), L) + 0.01 * g.normal(L, 2) for _ in range(m)], np.arange(m), axes, ["a", "b"])
    cv = g.choice(TSCKfoldSeries(2), TSCKFoldTime(2), TSCKfoldSeries(4))
    edmd = EDMD(dict_steps=[("p", TSCPolynomialFeatures(degree=2))], include_id_state=False)
    grid = {"p__degree": [2, 3]}
    S, ok = untouched(X, lambda: EDMDCV(edmd, cv=cv, param_grid=grid, verbose=0).fit(X))
    check(ok, "grid search leaves the data unchanged")
    for c, deg in enumerate([2, 3]):
        for k, (tr, te) in enumerate(cv.split(X)):
            a, b = X.tsc.assign_ids_train_test(tr, te)
            e = EDMD(dict_steps=[("p", TSCPolynomialFeatures(degree=deg))], include_id_state=False).fit(a)
            close(S.cv_results_[f"split{k}_test_score"][c], e.score(b), "score of the fold: fitted on the training part, scored on the test part", rtol=1e-6)
    mean = [S.cv_results_[f"mean_test_score"][c] for c in range(2)]
    check(S.best_params_["p__degree"] == [2, 3][int(np.argmax(mean))], "the best mean test score is selected")


CASES = [series_folds, time_folds, window_folds, assign_train_test, assign_const_delta, grid_search]

"""C04 cross-validation splits of time series never leak or lose data"""
import numpy as np
import pandas as pd

from vc import tables as tb


def M():
    from datafold.pcfold.timeseries import metric
    return metric


class Folds:
    """assumed contract of sklearn.model_selection.KFold: every row belongs to exactly one fold; for fold f the test rows
    are the rows of fold f and the train rows are all others, each in increasing order"""

    _vc_sym = True

    def __init__(self, v, n):
        self.v, self.n = v, n
        self.n_splits = v.int("n_splits", 2)
        self.fold = v.array("fold", (n,), dt="int", nonneg=True)
        v.assume_forall(n, lambda k: self.fold[k] < self.n_splits)
        self.f = v.int("f", 0)
        v.assume(self.f < self.n_splits)
        self.seen = []

    def split(self, X, y=None, groups=None):
        self.seen.append(X)
        self.test = self.v.lib(np.nonzero, self.fold == self.f)[0]
        self.train = self.v.lib(np.nonzero, self.fold != self.f)[0]
        yield self.train, self.test

    def get_n_splits(self, X=None, y=None, groups=None):
        return self.n_splits


def _collection(v):
    X = tb.tensor_collection(v)
    X.__dict__.update(n_timeseries=X.K, n_timesteps=X.m)
    return X


def _check(v, idx, rows, inside, fold, width, row, unit, within, n_units):
    """idx lists exactly the rows of the units whose fold satisfies `inside`, in increasing order; row(u, w): row of
    entry w of unit u; `width` entries per unit"""
    n = idx.shape[0]
    v.prove_eq("number of rows", n, rows.shape[0] * width)
    s = v.int("s", 0)
    v.assume(s < n)
    p = idx.perm[s] if hasattr(idx, "perm") else s
    v.assume(v.and_(p >= 0, p < n))
    g = rows[p // width]
    v.prove("an index is a row of its unit", idx[s] == row(g, p % width))
    v.prove("of the right fold", inside(fold[g]))
    if not hasattr(idx, "perm"):
        t = v.int("t", 0)
        v.assume(v.and_(t < n, s < t))
        v.prove("increasing", idx[s] <= idx[t])
    # completeness
    v.assume(inside(fold[unit]))
    a = rows.pos(unit)
    v.lemma("position of the unit", v.and_(a >= 0, a < rows.shape[0]))
    v.prove("the unit is listed", rows[a] == unit)
    w = a * width + within
    v.lemma("position of the entry", v.and_(w >= 0, w < n))
    if hasattr(idx, "unperm"):
        x = w
        w = idx.unperm(x)
        v.mention(x)
        v.lemma("position after sorting", v.and_(w >= 0, w < n, idx.perm[w] == x))
    v.prove("every row of the right fold is listed", idx[w] == row(unit, within))


def series_split(v):
    """TSCKfoldSeries: the test rows of fold f are exactly the rows of the series in fold f, the train rows all others"""
    X = _collection(v)
    X.__dict__["is_equal_length"] = lambda: True
    cv = object.__new__(M().TSCKfoldSeries)
    kf = cv.kfold_splitter = Folds(v, X.K)
    out = list(cv.split(X))
    v.fact("one pair per fold", len(out) == 1)
    train, test = out[0]
    k, r = v.int("k", 0, X.K - 1), v.int("r", 0, X.m - 1)
    v.prove_eq("every series is assigned", kf.seen[0].shape[0], X.K)
    if v.split(v.bool("train_part")):
        _check(v, train, kf.train, lambda f: v.not_(f == kf.f), kf.fold, X.m, lambda g, w: g * X.m + w, k, r, X.K)
    else:
        _check(v, test, kf.test, lambda f: f == kf.f, kf.fold, X.m, lambda g, w: g * X.m + w, k, r, X.K)


def time_split(v):
    """TSCKFoldTime: the test rows of fold f are exactly the rows at the times of fold f, the train rows all others"""
    X = _collection(v)
    X.__dict__["is_same_time_values"] = lambda: True
    cv = object.__new__(M().TSCKFoldTime)
    kf = cv.kfold_splitter = Folds(v, X.m)
    out = list(cv.split(X))
    v.fact("one pair per fold", len(out) == 1)
    train, test = out[0]
    k, r = v.int("k", 0, X.K - 1), v.int("r", 0, X.m - 1)
    v.prove_eq("every time is assigned", kf.seen[0].shape[0], X.m)
    if v.split(v.bool("train_part")):
        _check(v, train, kf.train, lambda f: v.not_(f == kf.f), kf.fold, X.K, lambda g, w: w * X.m + g, r, k, X.m)
    else:
        _check(v, test, kf.test, lambda f: f == kf.f, kf.fold, X.K, lambda g, w: w * X.m + g, r, k, X.m)


def split_requirements(v):
    """collections whose series do not fit the scheme are rejected; the number of splits is the one of the setting"""
    X = _collection(v)
    ok = v.bool("ok")
    X.__dict__.update(is_equal_length=lambda: bool(v.split(ok)), is_same_time_values=lambda: bool(v.split(ok)))
    cls = M().TSCKfoldSeries if v.split(v.bool("series")) else M().TSCKFoldTime
    cv = object.__new__(cls)
    cv.kfold_splitter = Folds(v, X.K if cls is M().TSCKfoldSeries else X.m)
    v.prove_eq("number of splits", cv.get_n_splits(X), cv.kfold_splitter.n_splits)
    v.raises("unsuitable series", NotImplementedError, v.not_(ok), lambda: list(cv.split(X)))


def _blocks(v):
    X = tb.rows_collection(v)
    a, b = v.int("n_train", 1), v.int("n_test", 1)
    tr, te = v.array("train", (a,), dt="int"), v.array("test", (b,), dt="int")
    return X, tr, te, a, b


def blocks_reject(v):
    """assign_ids_train_test rejects index arrays that are negative, not increasing or not disjoint"""
    X, tr, te, a, b = _blocks(v)
    v.assume_forall(a, lambda q: tr[q] < X.N)
    v.assume_forall(b, lambda q: te[q] < X.N)
    good = lambda i, n: v.and_(v.forall(n, lambda q: i[q] >= 0), v.forall(n, lambda q: v.forall(q, lambda w: i[w] < i[q])))
    apart = v.forall(a, lambda q: v.forall(b, lambda w: v.not_(tr[q] == te[w])))
    try:
        X.tsc.assign_ids_train_test(tr, te)
    except ValueError:
        v.prove("raises only for unsuitable indices", v.not_(v.and_(good(tr, a), good(te, b), apart)))
        v.end()
    q, w = v.int("q", 0, a - 1), v.int("w", 0, b - 1)
    v.mention(a + w)
    v.prove("train indices are not negative", tr[q] >= 0)
    v.prove("test indices are not negative", te[w] >= 0)
    v.prove("no row in both", v.not_(tr[q] == te[w]))


def blocks(v):
    """assign_ids_train_test: row s of the train (test) part is row train[s] (test[s]) with its time"""
    X, tr, te, a, b = _blocks(v)
    for i, n in ((tr, a), (te, b)):
        v.assume_forall(n, lambda q: v.and_(i[q] >= 0, i[q] < X.N))
        v.assume_forall(n, lambda q: v.forall(q, lambda w: i[w] < i[q]))
    v.assume_forall(a, lambda q: v.forall(b, lambda w: v.not_(tr[q] == te[w])))
    both = bool(v.split(v.bool("dropped")))
    out = X.tsc.assign_ids_train_test(tr, te, return_dropped=both)
    v.fact("parts", len(out) == (3 if both else 2))
    j = v.int("j", 0, X.n - 1)
    for nm, part, i, n in (("train", out[0], tr, a), ("test", out[1], te, b)):
        s = v.int("s" + nm, 0, n - 1)
        v.prove_eq(f"{nm}: number of samples", part.v.shape[0], n)
        v.prove(f"{nm}: values", part.v[s, j] == X.val[i[s], j])
        v.prove(f"{nm}: times", part.index.get_level_values("time").a[s] == X.times_[i[s]])
    v.frame("data handed in", X.val, X.times_, X.ids_, tr, te)


def _rows(v):
    N, n = v.int("N", 1), v.int("n", 1)
    ids, times, val = v.array("id", (N,), dt="int", nonneg=True), v.array("time", (N,), nonneg=True), v.array("X", (N, n))
    X = tb.Tab(val, tb.SMulti(tb.SIndex(ids), tb.SIndex(times)), None, M().TSCDataFrame)
    X.__dict__.update(N=N, n=n, ids_=ids, times_=times, val=val)
    return X


def _parts(v, **kw):
    """every pair of increasing disjoint index arrays: part[p] = 1 for the train rows, 2 for the test rows, 0 for others"""
    X = _rows(v)
    part = v.array("part", (X.N,), dt="int", nonneg=True)
    tr, te, dr = v.lib(np.nonzero, part == 1)[0], v.lib(np.nonzero, part == 2)[0], v.lib(np.nonzero, part == 0)[0]
    v.assume(v.and_(tr.shape[0] >= 1, te.shape[0] >= 1))
    # the checks of the arguments pass for such arrays (contract `blocks`)
    v.model(np.unique, lambda x: x)
    v.model(np.all, lambda x: True)
    out = X.tsc.assign_ids_train_test(tr, te, **kw)
    return X, part, out, (tr, te)


def _id(v, out, sel, f, p):
    """identifier of row p, which belongs to part f"""
    a = sel[f - 1].pos(p)
    v.lemma("the row is in its part", v.and_(a >= 0, a < sel[f - 1].shape[0], sel[f - 1][a] == p))
    v.use(sel[f - 1][a], p)
    return out[f - 1].index.get_level_values("ID").a[a]


def _neighbours(f, g):
    def c(v):
        X, part, out, sel = _parts(v)
        p = v.int("p", 1, X.N - 1)
        v.assume(v.and_(part[p - 1] == f, part[p] == g))
        a, b = _id(v, out, sel, f, p - 1), _id(v, out, sel, g, p)
        same = X.ids_[p] == X.ids_[p - 1]
        if f == g and v.split(same):
            v.lemma("same identifier within a series", a == b)
        elif f == g:
            v.lemma("another identifier in another series", b == a + 1)
        else:
            v.lemma("another identifier in the other part", b == a + 1)

    c.__name__ = f"neighbours_{('train', 'test')[f - 1]}_{('train', 'test')[g - 1]}"
    c.__doc__ = """neighbouring samples of one part keep a common identifier exactly if they are of the same series; a neighbour in
    the other part gets the next one"""
    return c


def _order(f, g):
    def c(v):
        X, part, out, sel = _parts(v)
        p, q = v.int("p", 0, X.N - 1), v.int("q", 0, X.N - 1)
        v.assume(v.and_(p < q, part[p] == f, part[q] == g))
        a, b = _id(v, out, sel, f, p), _id(v, out, sel, g, q)
        v.lemma("identifiers never decrease", a <= b)

    c.__name__ = f"order_{('train', 'test')[f - 1]}_{('train', 'test')[g - 1]}"
    c.__doc__ = "identifiers never decrease from row to row"
    return c


def _gap(f):
    def c(v):
        X, part, out, sel = _parts(v, return_dropped=True)
        p, r = v.int("p", 0, X.N - 1), v.int("r", 0, X.N - 1)
        v.assume(v.and_(p < r, part[p] == f, part[r] == 0))
        a = _id(v, out, sel, f, p)
        d = out[2]
        s = d.pos(r)
        v.lemma("the dropped sample is returned", v.and_(s >= 0, s < d.v.shape[0]))
        v.mention(s)
        j = v.int("j", 0, X.n - 1)
        v.prove("with its value", d.v[s, j] == X.val[r, j])
        v.lemma("and a new identifier", a < d.index.get_level_values("ID").a[s])

    c.__name__ = f"dropped_{('train', 'test')[f - 1]}"
    c.__doc__ = "a dropped sample separates identifiers: its own is larger than those before it"
    return c


CONTRACTS = [series_split, time_split, split_requirements, blocks_reject, blocks] + [
    _neighbours(f, g) for f in (1, 2) for g in (1, 2)] + [_order(f, g) for f in (1, 2) for g in (1, 2)] + [_gap(f) for f in (1, 2)]

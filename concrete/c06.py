"""C06: executable contracts of the distance backends"""
import numpy as np
import scipy.sparse as sp
from scipy.spatial.distance import cdist

from datafold.pcfold import PCManifold
from datafold.pcfold import distance as DI
from .core import Broken, case, check, close, raises, same

BACKENDS = ("guess_optimal", "brute", "scipy.kdtree", "sklearn.balltree")


def points(g, lo=3, hi=12):
    n, d = g.int(lo, hi), g.int(1, 4)
    X = g.normal(n, d, scale=g.choice(0.2, 1.0, 4.0))
    if g.flag(0.3):
        X[g.int(0, n - 1)] = X[g.int(0, n - 1)]
    Y = g.normal(g.int(1, 7), d)
    if g.flag(0.4):
        Y[g.int(0, len(Y) - 1)] = X[g.int(0, n - 1)]
    if g.flag(0.2):
        Y[g.int(0, len(Y) - 1)] += 50  # far from everything
    return X, Y


def truth(A, B, metric):
    return cdist(A, B, metric)


def stored(S):
    m = np.zeros(S.shape, bool)
    c = S.tocoo()
    check(len(set(zip(c.row.tolist(), c.col.tolist()))) == c.nnz, "every pair stored once")
    m[c.row, c.col] = True
    return m


@case(80)
def dense(g):
    """without cut-off: the metric of every pair, rows are queries, zero diagonal, symmetric; all backends"""
    X, Y = points(g)
    metric = g.choice("euclidean", "sqeuclidean", "cityblock", "chebyshev", "cosine")
    b = g.choice(*BACKENDS) if "euclidean" in metric else g.choice("guess_optimal", "brute")
    kw = dict(exact_numeric=False) if b == "brute" and g.flag() else {}
    g.note(X=X, Y=Y, metric=metric, backend=b)
    X0, Y0 = X.copy(), Y.copy()
    P = DI.compute_distance_matrix(X, metric=metric, backend=b, **kw)
    C = DI.compute_distance_matrix(X, Y, metric=metric, backend=b, **kw)
    check(isinstance(P, np.ndarray) and isinstance(C, np.ndarray), "dense result")
    tol = dict(rtol=1e-6, atol=1e-6 if kw else 1e-9)
    close(P, truth(X, X, metric), "pairwise distances", **tol)
    close(C, truth(Y, X, metric), "distances of queries (rows) and reference points", **tol)
    if not kw:
        same(np.diag(P), np.zeros(len(X)), "zero diagonal")
        close(P, P.T, "symmetric", rtol=1e-12, atol=1e-14)
    same(X, X0, "points unchanged")
    same(Y, Y0, "points unchanged")


def radius(g, X, Y):
    s = np.concatenate([cdist(X, X)[np.triu_indices(len(X), 1)], cdist(Y, X).ravel()])
    s = np.unique(s[s > 0])
    if g.flag(0.3):
        return float(g.rng.choice(s))  # exactly a distance
    return float(np.quantile(s, g.uniform(0.02, 0.98)))


@case(160)
def cut_off(g):
    """with cut-off: exactly the pairs within the radius, with their distance, self distances stored as zeros"""
    X, Y = points(g)
    if g.flag(0.3):
        X, Y = np.round(X), np.round(Y)  # exact distances, duplicates
    metric = g.choice("euclidean", "sqeuclidean", "cityblock")
    b = g.choice(*BACKENDS) if "euclidean" in metric else g.choice("guess_optimal", "brute")
    s = cdist(X, X).max()
    if s == 0:
        return
    cut = radius(g, X, Y)
    g.note(X=X, Y=Y, metric=metric, backend=b, cut_off=cut)
    X0, Y0 = X.copy(), Y.copy()
    alg = DI.init_distance_algorithm(backend=b, metric=metric, cut_off=cut)
    order = g.flag()
    C0 = alg(X, Y) if order else None
    P = alg(X)
    C = alg(X, Y)
    same(X, X0, "points unchanged")
    same(Y, Y0, "points unchanged")
    for R, q in ((P, X), (C, Y)) + (((C0, Y),) if order else ()):
        check(isinstance(R, sp.csr_matrix) and R.shape == (len(q), len(X)), "sparse result", shape=R.shape)
        t = truth(q, X, metric)
        e = cdist(q, X) if metric == "sqeuclidean" else t
        m = stored(R)
        bad = (m != (e <= cut)) & (np.abs(e - cut) > 1e-9 * max(1, cut))
        check(not bad.any(), "stored pairs are those within the cut-off", where=np.argwhere(bad)[:3], distances=e[bad][:3])
        close(R.toarray()[m], t[m], "stored distances", rtol=1e-7, atol=1e-9)
        check(R.has_sorted_indices, "sorted indices")
    check(stored(P).diagonal().all(), "self distances are stored")
    same(P.diagonal(), np.zeros(len(X)), "self distances are zero")
    close(P.toarray(), P.toarray().T, "symmetric", rtol=1e-12)
    # other reference points
    Z = X + 1.0
    R = alg(Z, Y)
    e = cdist(Y, Z)
    t = truth(Y, Z, metric)
    e = e if metric == "sqeuclidean" else t
    m = stored(R)
    check(not ((m != (e <= cut)) & (np.abs(e - cut) > 1e-9 * max(1, cut))).any(), "stored pairs for other reference points")
    close(R.toarray()[m], t[m], "distances to other reference points", rtol=1e-7, atol=1e-9)


@case(24)
def ties(g):
    """a pair exactly at the cut-off is kept by every backend"""
    X = np.array([[0.0], [3.0], [4.0], [9.0]])[:, : 1]
    b = g.choice(*BACKENDS)
    metric = g.choice("euclidean", "sqeuclidean")
    s = float(g.int(1, 4)) * g.choice(1.0, 0.5, 2.0)
    g.note(backend=b, metric=metric, s=s)
    R = DI.compute_distance_matrix(X * s, metric=metric, cut_off=3 * s, backend=b)
    same(stored(R), cdist(X, X) <= 3, "pairs at the cut-off")


@case(120)
def kmin(g):
    """minimum number of neighbours: rows with fewer stored points get their nearest points, at their distance"""
    X, Y = points(g, 5, 14)
    X, Y = X + 1e-3 * g.normal(*X.shape), Y + 1e-3 * g.normal(*Y.shape)
    metric = g.choice("euclidean", "sqeuclidean")
    b = g.choice("guess_optimal", "scipy.kdtree", "sklearn.balltree")
    cut = radius(g, X, Y)
    k = g.int(1, min(5, len(X)))
    g.note(X=X, Y=Y, metric=metric, backend=b, cut_off=cut, k=k)
    name = g.choice("k", "kmin")
    for args, q in (((X,), X), ((X, Y), Y)):
        R = DI.compute_distance_matrix(*args, metric=metric, cut_off=cut, backend=b, **{name: k})
        t, e = truth(q, X, metric), cdist(q, X)
        m = stored(R)
        near = np.argsort(e, axis=1, kind="stable")[:, :k]
        rank = np.sort(e, axis=1)[:, k - 1]
        check((m.sum(axis=1) >= k).all(), "at least that many neighbours", counts=m.sum(axis=1))
        for i in range(len(q)):
            check(m[i, near[i]].all(), "the nearest points are among them", row=i)
        few = (e <= cut).sum(axis=1) < k
        allowed = (e <= cut + 1e-9) | (few[:, None] & (e <= rank[:, None] + 1e-12))
        if len(args) == 1:
            allowed |= allowed.T
            close(R.toarray(), R.toarray().T, "symmetric", rtol=1e-12)
        check(not (m & ~allowed).any(), "no other pairs", where=np.argwhere(m & ~allowed)[:3])
        close(R.toarray()[m], t[m], "stored distances", rtol=1e-7, atol=1e-9)
    P = DI.compute_distance_matrix(X, metric=metric, backend=b, k=k)
    close(P, truth(X, X, metric), "ignored without a cut-off", rtol=1e-7, atol=1e-9)


@case(60)
def knn(g):
    """k nearest neighbours: exactly the k nearest points per row"""
    X, Y = points(g, 5, 14)
    X, Y = X + 1e-3 * g.normal(*X.shape), Y + 1e-3 * g.normal(*Y.shape)
    metric = g.choice("euclidean", "sqeuclidean", "cityblock")
    k = g.int(2, min(5, len(X) - 1))
    g.note(X=X, Y=Y, metric=metric, k=k)
    alg = DI.init_distance_algorithm(backend="sklearn.knn", metric=metric, k=k)
    check(alg.is_symmetric is False, "declared not symmetric")
    for args, q in (((X,), X), ((X, Y), Y), ((X + 1, Y), Y)):
        R = alg(*args)
        t = truth(q, args[0], metric)
        m = stored(R)
        near = np.argsort(t, axis=1, kind="stable")[:, :k]
        w = np.zeros(t.shape, bool)
        np.put_along_axis(w, near, True, axis=1)
        same(m, w, "exactly the nearest points")
        close(R.toarray()[m], t[m], "their distances", rtol=1e-7, atol=1e-9)


@case(24)
def guards(g):
    """invalid settings and mismatching points are refused"""
    X, Y = points(g)
    b = g.choice(*BACKENDS)
    g.note(backend=b, X=X)
    raises(ValueError, lambda: DI.compute_distance_matrix(X[:1], backend=b), "single point")
    raises(ValueError, lambda: DI.compute_distance_matrix(X, np.hstack([Y, Y[:, :1]]), backend=b), "dimension")
    raises((ValueError, TypeError), lambda: DI.compute_distance_matrix(X, backend=b, cut_off=-1.0), "negative cut-off")
    raises((ValueError, TypeError), lambda: DI.compute_distance_matrix(X, backend=b, cut_off="a"), "cut-off no number")
    raises(ValueError, lambda: DI.compute_distance_matrix(X, backend="unknown"), "unknown backend")
    raises(ValueError, lambda: DI.compute_distance_matrix(X, backend=g.choice("scipy.kdtree", "sklearn.balltree"), metric="cityblock", cut_off=1.0), "metric of the backend")


@case(40)
def manifold(g):
    """point clouds forward their distance settings"""
    X, Y = points(g)
    cut = radius(g, X, Y)
    b = g.choice(*BACKENDS)
    metric = g.choice("euclidean", "sqeuclidean")
    g.note(X=X, Y=Y, cut_off=cut, backend=b)
    settings = dict(cut_off=cut, backend=b)
    if b != "brute":
        settings["kmin"] = g.int(1, 3)
    keep = dict(settings)
    pcm = PCManifold(X, dist_kwargs=settings) if b != "brute" else None
    if pcm is None:
        return
    check(settings == keep, "settings unchanged")
    for q in (None, Y):
        R = pcm.compute_distance_matrix(q, metric=metric)
        W = DI.compute_distance_matrix(X, q, metric=metric, cut_off=cut, backend="scipy.kdtree", k=settings["kmin"])
        close(R.toarray(), W.toarray(), "distance matrix", rtol=1e-7, atol=1e-9)
        same(stored(R), stored(W), "stored pairs")
    d = PCManifold(X)
    close(d.compute_distance_matrix(Y), cdist(Y, X), "dense by default", rtol=1e-7, atol=1e-9)
    same(np.asarray(d), X, "points")


CASES = [dense, cut_off, ties, kmin, knn, guards, manifold]

"""C06 distance matrices"""
import numpy as np


def D():
    from datafold.pcfold import distance
    return distance


def _sq(v, d, A, B):
    return lambda i, j: v.sum(d, lambda q: (A[i, q] - B[j, q]) * (A[i, q] - B[j, q]))


def _metric(v, metric):
    n, p, d = v.int("n", 2), v.int("p", 1), v.int("d", 1)
    X, Y = v.array("X", (n, d)), v.array("Y", (p, d))
    f = (lambda s: s) if metric == "sqeuclidean" else v.sqrt
    M = D().compute_distance_matrix(X, metric=metric)
    C = D().compute_distance_matrix(X, Y, metric=metric)
    i, j = v.int("i", 0, n - 1), v.int("j", 0, n - 1)
    v.prove("pairwise", M[i, j] == f(_sq(v, d, X, X)(i, j)))
    v.prove("zero diagonal", M[i, i] == 0)
    v.prove("symmetric", M[i, j] == M[j, i])
    v.prove("not negative", M[i, j] >= 0)
    v.prove_eq("rows are queries", C, v.arr_fn((p, n), lambda i, j: f(_sq(v, d, Y, X)(i, j))))
    v.frame("points unchanged", X, Y)
    B = D().BruteForceDist(metric=metric)
    v.prove_eq("explicit backend", B(X, Y), C)


def euclidean(v):
    """default backend: Euclidean distance of every pair, zero diagonal, symmetric; queries in the rows"""
    _metric(v, "euclidean")


def sqeuclidean(v):
    """default backend: squared Euclidean distance of every pair, zero diagonal, symmetric; queries in the rows"""
    _metric(v, "sqeuclidean")


def guards(v):
    """a single reference point and points of another dimension are refused"""
    n, p, d, e = v.int("n", 1), v.int("p", 1), v.int("d", 1), v.int("e", 1)
    X, Y = v.array("X", (n, d)), v.array("Y", (p, e))
    v.raises("single point", ValueError, n == 1, lambda: D().compute_distance_matrix(X))
    v.assume(n > 1)
    v.raises("dimension", ValueError, d != e, lambda: D().compute_distance_matrix(X, Y))


def cut_off(v):
    """the cut-off is a positive radius in the Euclidean metric, also for squared distances"""
    c = v.real("c")
    for metric in ("euclidean", "sqeuclidean"):
        for cls in ("BruteForceDist", "ScipyKdTreeDist", "SklearnBalltreeDist"):
            b = v.raises(f"{cls} {metric}", ValueError, c < 0, lambda: getattr(D(), cls)(metric=metric, cut_off=c))
            v.assume(c > 0)
            v.prove(f"{cls} {metric} radius", b.cut_off == (c if metric == "euclidean" else c * c))
            v.fact(f"{cls} {metric} sparse", b.is_sparse)


def metric_kdtree(v):
    """the kd-tree refuses metrics it does not compute"""
    v.raises("metric", ValueError, True, lambda: D().ScipyKdTreeDist(cut_off=1.0, metric="cityblock"))


def metric_balltree(v):
    """the ball tree refuses metrics it does not compute"""
    v.raises("metric", ValueError, True, lambda: D().SklearnBalltreeDist(cut_off=1.0, metric="cityblock"))


def neighbours(v):
    """the number of neighbours reaches the backend, under either name"""
    k = v.int("k", 1)
    v.prove("knn", D().init_distance_algorithm(backend="sklearn.knn", k=k).k == k)
    for name in ("k", "kmin"):
        for backend in ("guess_optimal", "scipy.kdtree", "sklearn.balltree"):
            b = D().init_distance_algorithm(backend=backend, cut_off=1.5, **{name: k})
            v.prove(f"{backend} {name}", b.kmin == k)
            v.fact(f"{backend} cut-off", b.cut_off == 1.5)


CONTRACTS = [euclidean, sqeuclidean, guards, cut_off, metric_kdtree, metric_balltree, neighbours]

"""C07: executable contracts of the kernels (datafold.pcfold.kernels)"""
import copy

import numpy as np
import pandas as pd
import scipy.sparse as sp
from scipy.spatial.distance import cdist

from datafold.pcfold import TSCDataFrame
from datafold.pcfold import kernels as K
from .core import Broken, case, check, close, raises, same


def points(g, lo=2, hi=8):
    n, d = g.int(lo, hi), g.int(1, 4)
    X = g.normal(n, d, scale=g.choice(0.3, 1.0, 3.0))
    if g.flag(0.3) and n > 2:
        X[g.int(0, n - 1)] = X[g.int(0, n - 1)]
    Y = g.normal(g.int(1, 6), d)
    if g.flag(0.4):
        Y[0] = X[g.int(0, n - 1)]
    return X, Y


def tpl(s):
    with np.errstate(all="ignore"):
        return np.where(s == 0, 0.0, s ** 2 * np.log(np.where(s == 0, 1, s)))


# name -> (constructor, formula of the squared distance)
RADIAL = {
    "gaussian": (lambda e, **k: K.GaussianKernel(epsilon=e, **k), lambda s, e: np.exp(-s / (2 * e))),
    "multiquadric": (lambda e, **k: K.MultiquadricKernel(epsilon=e, **k), lambda s, e: np.sqrt(s / (2 * e) + 1)),
    "inverse_multiquadric": (lambda e, **k: K.InverseMultiquadricKernel(epsilon=e, **k), lambda s, e: 1 / np.sqrt(s / (2 * e) + 1)),
    "inverse_quadratic": (lambda e, **k: K.InverseQuadraticKernel(epsilon=e), lambda s, e: 1 / (s / (2 * e) + 1)),
    "cubic": (lambda e, **k: K.CubicKernel(**k), lambda s, e: np.sqrt(s) ** 3),
    "quintic": (lambda e, **k: K.QuinticKernel(**k), lambda s, e: np.sqrt(s) ** 5),
    "thinplate": (lambda e, **k: K.ThinplateKernel(**k), lambda s, e: tpl(np.sqrt(s))),
}


@case(60)
def radial(g):
    """radial kernels equal their formula: self comparison, queries, precomputed distances, dense and sparse; inputs unchanged"""
    name = g.choice(*RADIAL)
    make, f = RADIAL[name]
    eps = g.choice(0.1, 0.5, 1, 2.5, float(g.uniform(0.05, 10)))
    X, Y = points(g)
    g.note(kernel=name, eps=eps, X=X, Y=Y)
    X0, Y0 = X.copy(), Y.copy()
    ker = make(eps)
    P, C = ker(X), ker(X, Y)
    sxx, syx = cdist(X, X, "sqeuclidean"), cdist(Y, X, "sqeuclidean")
    close(P, f(sxx, eps), "pairwise kernel matrix", rtol=1e-7, atol=1e-8)
    close(C, f(syx, eps), "kernel matrix of queries (rows) and reference points", rtol=1e-7, atol=1e-8)
    close(P, P.T, "symmetric", rtol=1e-10, atol=1e-12)
    close(ker(X, X), P, "self comparison equals queries at the reference points", rtol=1e-7, atol=1e-7)
    U = ker(np.vstack([X, Y]))
    close(U[len(X):, :len(X)], C, "block of the kernel on the union", rtol=1e-7, atol=1e-7)
    same(X, X0, "points unchanged")
    same(Y, Y0, "points unchanged")
    D = syx if ker.metric == "sqeuclidean" else np.sqrt(syx)
    D0 = D.copy()
    close(ker.evaluate(D), f(syx, eps), "evaluation of given distances", rtol=1e-10)
    same(D, D0, "given distances unchanged")
    S = sp.csr_matrix(D)
    d0 = S.data.copy()
    R = ker.evaluate(S)
    check(sp.issparse(R) and R.shape == S.shape, "sparse distances give a sparse kernel")
    nz = R.nonzero()
    close(S.toarray() != 0, S.toarray() != 0, "pattern")
    r, c = S.nonzero()
    close(np.asarray(R[r, c]).ravel(), f(syx, eps)[r, c], "stored entries of the sparse kernel", rtol=1e-10)
    check(set(zip(*nz)) <= set(zip(r, c)), "no entries outside the stored ones")
    same(S.data, d0, "given sparse distances unchanged")


@case(40)
def radial_sparse(g):
    """a cut-off keeps exactly the pairs within the radius and their dense kernel values"""
    name = g.choice(*[k for k in RADIAL if k != "inverse_quadratic"])
    make, f = RADIAL[name]
    eps = float(g.uniform(0.2, 3))
    X, Y = points(g, 3, 10)
    s = cdist(np.vstack([X, Y]), np.vstack([X, Y]))
    cut = float(np.quantile(s[s > 0], g.uniform(0.1, 0.95))) * 1.0001 + 1e-6
    g.note(kernel=name, eps=eps, X=X, Y=Y, cut_off=cut)
    ker, den = make(eps, distance=dict(cut_off=cut)), make(eps)
    for args, q in (((X,), X), ((X, Y), Y)):
        R, F = ker(*args), den(*args)
        check(sp.issparse(R), "sparse")
        within = cdist(q, X) <= cut
        mask = np.zeros(R.shape, bool)
        coo = R.tocoo()
        mask[coo.row, coo.col] = True
        same(mask | (F == 0), within | (F == 0), "stored pairs are those within the cut-off")
        close(R.toarray()[within], F[within], "stored entries equal the dense kernel", rtol=1e-7, atol=1e-8)
        if len(args) == 1:
            close(R.toarray(), R.toarray().T, "symmetric", rtol=1e-10)


@case(20)
def bandwidth(g):
    """invalid bandwidths are refused; a callable bandwidth is evaluated on the distances"""
    X, Y = points(g)
    name = g.choice("gaussian", "multiquadric", "inverse_multiquadric", "inverse_quadratic")
    bad = g.choice(0, 0.0, -1.0, -1e-9, np.nan, "a", None)
    g.note(kernel=name, X=X, eps=bad)
    if not (isinstance(bad, float) and np.isnan(bad)):
        raises((ValueError, TypeError), lambda: RADIAL[name][0](bad)(X), "invalid bandwidth")
    ker = K.GaussianKernel(epsilon=lambda D: float(np.median(D)) + 0.1)
    s = cdist(X, X, "sqeuclidean")
    e = float(np.median(s)) + 0.1
    close(ker(X), np.exp(-s / (2 * e)), "callable bandwidth", rtol=1e-6, atol=1e-8)


@case(60)
def continuous_nn(g):
    """CkNN: entry iff d_ij < delta sqrt(r_i r_j), dense and sparse, with the radii of the reference points"""
    X, Y = points(g, 4, 10)
    X, Y = X + 1e-3 * g.normal(*X.shape), Y + 1e-3 * g.normal(*Y.shape)
    k = g.int(1, len(X) - 1)
    delta = float(g.uniform(0.3, 2.5))
    g.note(X=X, Y=Y, k=k, delta=delta)
    D, C = cdist(X, X), cdist(Y, X)
    r, q = np.sort(D, axis=1)[:, k - 1], np.sort(C, axis=1)[:, k - 1]
    if k == 1:  # the first neighbour of a reference point is itself: radius zero is refused
        raises(ZeroDivisionError, lambda: K.ContinuousNNKernel(k, delta)(X), "radius zero")
        return
    wp = D < delta * np.sqrt(np.outer(r, r))
    wc = C < delta * np.sqrt(np.outer(q, r))
    near = np.abs(D / np.sqrt(np.outer(r, r)) - delta).min() < 1e-6 or np.abs(C / np.sqrt(np.outer(q, r)) - delta).min() < 1e-6
    if near:
        return
    ker = K.ContinuousNNKernel(k_neighbor=k, delta=delta)
    P = ker(X)
    Q = ker(X, Y)
    check(sp.issparse(P) and sp.issparse(Q), "sparse")
    same(P.toarray().astype(bool), wp, "pairwise graph")
    same(Q.toarray().astype(bool), wc, "query graph")
    close(np.asarray(ker.reference_dist_knn_).ravel(), r, "radii of the reference points", rtol=1e-6)
    D0, C0 = D.copy(), C.copy()
    k2 = K.ContinuousNNKernel(k_neighbor=k, delta=delta)
    same(k2.evaluate(D, is_pdist=True).toarray().astype(bool), wp, "pairwise graph from distances")
    same(k2.evaluate(C).toarray().astype(bool), wc, "query graph from distances")
    same(k2.evaluate(C).toarray().astype(bool), wc, "query graph repeatedly")
    same(D, D0, "distances unchanged")
    same(C, C0, "distances unchanged")
    raises(ValueError, lambda: K.ContinuousNNKernel(k_neighbor=len(X) + 1, delta=delta)(X), "too many neighbours")
    raises((ValueError, TypeError), lambda: K.ContinuousNNKernel(k_neighbor=0, delta=delta)(X), "no neighbour")
    raises((ValueError, TypeError), lambda: K.ContinuousNNKernel(k_neighbor=k, delta=g.choice(0.0, -1.0))(X), "delta not positive")
    # new points before a self comparison
    raises(Exception, lambda: K.ContinuousNNKernel(k_neighbor=k, delta=delta)(X, Y), "reference radii missing")


@case(30)
def kth_neighbor(g):
    """k-th smallest stored distance of every row, dense and sparse"""
    n, m = g.int(1, 6), g.int(2, 8)
    D = np.abs(g.normal(n, m)) + 0.01
    k = g.int(1, m)
    g.note(D=D, k=k)
    D0 = D.copy()
    close(np.asarray(K._kth_nearest_neighbor_dist(D, k)).ravel(), np.sort(D, axis=1)[:, k - 1], "k-th smallest", rtol=1e-12)
    same(D, D0, "unchanged")
    S = sp.csr_matrix(D * (g.uniform(0, 1, D.shape) < 0.8))
    k = g.int(1, m)
    cnt = np.diff(S.indptr)
    if (cnt >= k).all():
        want = np.array([np.sort(S.data[a:b])[k - 1] for a, b in zip(S.indptr, S.indptr[1:])])
        close(np.asarray(K._kth_nearest_neighbor_dist(S.copy(), k)).ravel(), want, "k-th smallest stored entry", rtol=1e-12)
    raises(ValueError, lambda: K._kth_nearest_neighbor_dist(D, m + 1), "k larger than columns")
    raises(ValueError, lambda: K._kth_nearest_neighbor_dist(D, 0), "k zero")


@case(40)
def division(g):
    """_symmetric_matrix_division, dense and sparse"""
    n, m = g.int(1, 6), g.int(1, 6)
    M = g.normal(n, m) * (g.uniform(0, 1, (n, m)) < 0.8)
    l, r, s = g.uniform(0.1, 3, n), g.uniform(0.1, 3, m), g.choice(1.0, float(g.uniform(0.5, 3)))
    g.note(M=M, l=l, r=r, s=s)
    want = M / np.outer(l, r)
    close(K._symmetric_matrix_division(M.copy(), l, is_symmetric=False, vec_right=r, scalar=s), want / s, "quotient", rtol=1e-10)
    close(K._symmetric_matrix_division(sp.csr_matrix(M), l, is_symmetric=False, vec_right=r).toarray(), want, "quotient (sparse)", rtol=1e-10)
    A = g.normal(n, n)
    A = A + A.T
    wa = A / np.outer(l, l)
    close(K._symmetric_matrix_division(A.copy(), l, is_symmetric=True, scalar=s), wa / s, "symmetric quotient", rtol=1e-10)
    R = K._symmetric_matrix_division(sp.csr_matrix(A), l, is_symmetric=True)
    close(R.toarray(), wa, "symmetric quotient (sparse)", rtol=1e-10)
    same(R.toarray(), R.toarray().T, "exactly symmetric")
    z = l.copy()
    z[g.int(0, n - 1)] = 0
    raises(ZeroDivisionError, lambda: K._symmetric_matrix_division(A.copy(), z, is_symmetric=True), "zero divisor")
    B = K._symmetric_matrix_division(A.copy(), z, is_symmetric=True, value_zero_division=0)
    with np.errstate(all="ignore"):
        wz = A / np.outer(z, z)
    wz[z == 0], wz[:, z == 0] = 0, 0
    close(B, wz, "zero divisor replaced", rtol=1e-10)


def series(g, nmin=8, nmax=12, ns=2, d=None):
    d = d or g.int(2, 3)
    dt = g.choice(0.1, 0.5, 1.0)
    fr = []
    for k in range(ns):
        n = g.int(nmin, nmax)
        w = g.uniform(0.3, 1.2, d)
        t = np.arange(n) * dt
        v = np.cos(np.outer(t, w) + g.uniform(0, 6, d)) + 0.01 * g.normal(n, d)
        fr.append(pd.DataFrame(v, index=t, columns=[f"x{i}" for i in range(d)]))
    return TSCDataFrame.from_frame_list(fr), dt


CENTER = {2: ([-1, 1], [-0.5, 0.5]), 4: ([-2, -1, 1, 2], [1 / 12, -2 / 3, 2 / 3, -1 / 12])}


def fd(X, dt, acc):
    """central difference, shifted so that no future samples are used -> (index, derivative)"""
    off, w = CENTER[acc]
    h = acc // 2
    idx, val = [], []
    for i, s in X.groupby(level=0):
        v = s.to_numpy()
        for t in range(2 * h, len(v)):
            c = t - h
            val.append(sum(a * v[c + o] for a, o in zip(w, off)) / dt)
            idx.append(s.index[t])
    return pd.MultiIndex.from_tuples(idx, names=X.index.names), np.array(val)


@case(24)
def cone(g):
    """cone kernel: exp(-sqrt(F_ij F_ji) d^2 / (eps dt^2 |xi_i| |xi_j|)) with F = 1 - zeta cos^2(angle)"""
    X, dt = series(g)
    zeta = g.choice(0.0, 0.5, 0.9, float(g.uniform(0.01, 0.99)))
    eps = float(g.uniform(0.5, 4))
    acc = g.choice(2, 4)
    Y = X.copy()
    Y = TSCDataFrame(Y + 0.05 * g.normal(*Y.shape)) if g.flag(0.7) else Y
    g.note(X=X, Y=Y, zeta=zeta, eps=eps, acc=acc)
    X0, Y0 = X.copy(), Y.copy()
    ker = K.ConeKernel(zeta=zeta, epsilon=eps, fd_accuracy=acc)
    P = ker(X)
    C = ker(X, Y)
    ix, dx = fd(X, dt, acc)
    iy, dy = fd(Y, dt, acc)
    check(P.index.equals(ix) and C.index.equals(iy), "rows are the samples with a derivative", index=P.index[:4])

    def want(y, xi_y, x, xi_x):
        D = cdist(y, x)
        ny, nx = np.linalg.norm(xi_y, axis=1), np.linalg.norm(xi_x, axis=1)

        def fac(a, xa, b):
            F = np.empty((len(a), len(b)))
            for i in range(len(a)):
                for j in range(len(b)):
                    den = np.linalg.norm(xa[i]) * np.linalg.norm(b[j] - a[i])
                    c = 1.0 if den <= 1e-14 else (xa[i] @ (b[j] - a[i])) / den
                    F[i, j] = 1 - zeta * c ** 2
            return F

        return np.exp(-np.sqrt(fac(y, xi_y, x) * fac(x, xi_x, y).T) * D ** 2 / (eps * dt ** 2 * np.outer(ny, nx)))

    xv, yv = X.loc[ix].to_numpy(), Y.loc[iy].to_numpy()
    close(P.to_numpy(), want(xv, dx, xv, dx), "pairwise cone kernel", rtol=1e-6, atol=1e-9)
    close(C.to_numpy(), want(yv, dy, xv, dx), "cone kernel of queries", rtol=1e-6, atol=1e-9)
    close(P.to_numpy(), P.to_numpy().T, "symmetric", rtol=1e-9, atol=1e-12)
    same(X.to_numpy(), X0.to_numpy(), "data unchanged")
    same(Y.to_numpy(), Y0.to_numpy(), "data unchanged")
    check(X.index.equals(X0.index) and X.columns.equals(X0.columns), "labels unchanged")
    raises((ValueError, TypeError), lambda: K.ConeKernel(zeta=g.choice(1.0, 1.5, -0.1))(X), "zeta outside [0, 1)")
    raises(TypeError, lambda: ker(X.to_numpy()), "array instead of time series")


@case(30)
def cone_angle(g):
    """factor 1 - zeta cos^2 with cos = <xi_i, x_j - y_i> / (|xi_i| |x_j - y_i|), and the Euclidean distances"""
    X, Y = points(g)
    d = X.shape[1]
    XI = g.normal(len(Y), d)
    z = float(g.uniform(0, 1))
    g.note(X=X, Y=Y, XI=XI, zeta=z)
    keep = [a.copy() for a in (X, Y, XI)]
    N = np.linalg.norm(XI, axis=1)[:, None]
    N = N if g.flag() else N[:, 0]
    C, D = K.ConeKernel(zeta=z)._compute_distance_and_cosinus_matrix(Y, XI, N, X_numpy=X)
    N = np.linalg.norm(XI, axis=1)
    close(D, cdist(Y, X), "distances", rtol=1e-10)
    with np.errstate(all="ignore"):
        c = np.einsum("iq,ijq->ij", XI, X[None] - Y[:, None]) / (N[:, None] * cdist(Y, X))
    c[N[:, None] * cdist(Y, X) <= 1e-14] = 1
    close(C, 1 - z * c ** 2, "cone factor", rtol=1e-9)
    for a, b in zip((X, Y, XI), keep):
        same(a, b, "inputs unchanged")


@case(16)
def dmap_variable(g):
    """variable bandwidth kernel: documented chain rho0, q0, rho, q_eps and operator"""
    n, k, d = g.int(5, 10), g.int(1, 3), g.int(1, 3)
    X = g.normal(n, d)
    eps, beta = float(g.uniform(0.3, 2)), -1 / 2
    D = cdist(X, X, "sqeuclidean")
    sym = g.flag()
    g.note(X=X, eps=eps, k=k, d=d, sym=sym)
    a = -d / 4
    if not 0.5 - 2 * a + 2 * d * a + d * beta / 2 + beta < 0:
        beta = -4.0
    D0 = D.copy()
    ker = K.DmapKernelVariable(epsilon=eps, k=k, expected_dim=d, beta=beta, symmetrize_kernel=sym)
    L, B, rho0, rho, q0, qe = ker.evaluate(D)
    same(D, D0, "distances unchanged")
    S = np.sort(np.sqrt(D), axis=1)
    r0 = np.sqrt((S[:, 1:k + 1] ** 2).mean(axis=1))
    close(rho0, r0, "rho0", rtol=1e-9)
    m = r0.mean()
    t = r0 / m
    w0 = (2 * np.pi * m ** 2) ** (-d / 2) / (r0 ** d * n) * np.exp(-D / np.outer(t, t) / (2 * m ** 2)).sum(axis=1)
    close(q0, w0, "q0", rtol=1e-8)
    w = w0 ** beta
    w = w / w.mean()
    close(rho, w, "rho", rtol=1e-8)
    E = np.exp(-D / (4 * eps * np.outer(w, w)))
    wq = E.sum(axis=1) / w ** d
    close(qe, wq, "q_eps", rtol=1e-8)
    A = E / np.outer(wq ** a, wq ** a)
    qa = A.sum(axis=1)
    if sym:
        s = 1 / (w * np.sqrt(qa))
        close(np.asarray(B.todense()) if sp.issparse(B) else B, np.diag(s), "basis change", rtol=1e-8)
        close(L, A * np.outer(s, s) - np.diag(w ** -2 - 1), "symmetric operator", rtol=1e-7, atol=1e-9)


CASES = [radial, radial_sparse, bandwidth, continuous_nn, kth_neighbor, division, cone, cone_angle, dmap_variable]

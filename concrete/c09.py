"""C09: executable contracts of the eigensolver, diffusion maps, Roseland and the coordinate selection"""
import numpy as np
import pandas as pd
import scipy.sparse as sp
from scipy.spatial.distance import cdist

from datafold import TSCDataFrame
from datafold.dynfold import DiffusionMaps, LocalRegressionSelection, Roseland
from datafold.pcfold import eigsolver as E
from datafold.pcfold import kernels as K
from .core import Broken, case, check, close, raises, same


def dense(A):
    return A.toarray() if sp.issparse(A) else np.asarray(A)


def cloud(g, lo=6, hi=14):
    n, d = g.int(lo, hi), g.int(1, 3)
    return g.normal(n, d), g.normal(g.int(1, 5), d), float(g.uniform(0.3, 2))


def tsc(g, X, t0=0):
    n = len(X)
    cut = g.int(3, n - 3) if n >= 7 and g.flag() else n
    fr = [pd.DataFrame(X[:cut], index=t0 + np.arange(cut) * 0.5, columns=[f"x{i}" for i in range(X.shape[1])])]
    if cut < n:
        fr.append(pd.DataFrame(X[cut:], index=t0 + np.arange(n - cut) * 0.5, columns=fr[0].columns))
    return TSCDataFrame.from_frame_list(fr)


def eigen_equation(M, lam, V, what, tol=1e-7):
    check(np.isrealobj(lam) and np.isrealobj(V), f"{what}: real pairs")
    s = max(1.0, np.abs(M).max())
    for i in range(len(lam)):
        r = np.abs(M @ V[:, i] - lam[i] * V[:, i]).max()
        check(r <= tol * s, f"{what}: pair {i} solves the eigenvalue equation (residual {r:.2g})")
    check((np.diff(lam) <= 1e-12).all(), f"{what}: decreasing values", lam=lam)


@case(60)
def eigenpairs(g):
    """compute_kernel_eigenpairs: k pairs of the matrix, decreasing, optionally unit vectors"""
    X, _, eps = cloud(g)
    n = len(X)
    sym, alpha = g.flag(), g.choice(0, 0.5, 1)
    knn = g.flag(0.2) and not sym
    cut = None if knn else g.choice(None, None, 3.0, 1e3)
    dist = dict(backend="sklearn.knn", k=g.int(3, 5)) if knn else (dict(cut_off=cut) if cut else None)
    ker = K.DmapKernelFixed(K.GaussianKernel(epsilon=eps, distance=dist), is_stochastic=g.flag(0.8), alpha=alpha, symmetrize_kernel=sym)
    if knn and not ker.is_stochastic:
        return
    M = ker(X)
    k = g.choice(1, 2, 3, g.int(1, n), n - 1, n)
    normalize = g.flag()
    g.note(X=X, k=k, sym=sym, alpha=alpha, dist=dist, stochastic=ker.is_stochastic)
    A = dense(M).copy()
    if knn:
        w = np.linalg.eigvals(A)
        if np.abs(w.imag).max() > 1e-10 or g.flag(0.0):
            return
    if sp.issparse(M) and not ker.is_symmetric and k == n - 1:
        return  # not available in scipy: refused
    lam, V = E.compute_kernel_eigenpairs(ker, M, n_eigenpairs=k, normalize_eigenvectors=normalize)
    same(dense(M), A, "matrix unchanged")
    check(lam.shape == (k,) and V.shape == (n, k), "number of pairs", got=(lam.shape, V.shape), want=k)
    lam, V = np.real_if_close(lam, tol=1e6), np.real_if_close(V, tol=1e6)
    tol = 1e-5 if k < n else 1e-7
    eigen_equation(A, lam, V, "pairs", tol)
    norm = np.linalg.norm(V, axis=0)
    check((norm > 1e-3).all(), "non-trivial vectors")
    if normalize:
        close(norm, np.ones(k), "unit vectors")
    if ker.is_stochastic:
        close(lam[0], 1.0, "leading eigenvalue of a Markov matrix", rtol=1e-7)
    w = np.sort(np.linalg.eigvals(A).real)[::-1]
    if ker.is_symmetric:
        sel = np.sort(np.linalg.eigvalsh(A))[::-1]
        if ker.is_stochastic and (sel > -1e-9).all():
            close(lam, sel[:k], "leading values", rtol=1e-6, atol=1e-8)
        check(np.linalg.matrix_rank(V, tol=1e-6) == k, "independent vectors")
    elif ker.is_stochastic and (w > -1e-9).all():
        close(lam, w[:k], "leading values", rtol=1e-5, atol=1e-7)


@case(30)
def eigensolver_refuses(g):
    X, _, eps = cloud(g)
    ker = K.DmapKernelFixed(K.GaussianKernel(epsilon=eps))
    M = ker(X)
    B = M.copy()
    B[g.int(0, len(X) - 1), g.int(0, len(X) - 1)] = g.choice(np.nan, np.inf, -np.inf)
    raises(ValueError, lambda: E.compute_kernel_eigenpairs(ker, B, n_eigenpairs=2), "not finite")
    raises(ValueError, lambda: E.compute_kernel_eigenpairs(ker, sp.csr_matrix(B), n_eigenpairs=2), "not finite, sparse")
    raises(ValueError, lambda: E.compute_kernel_eigenpairs(ker, M[:-1], n_eigenpairs=2), "not square")
    raises(ValueError, lambda: E.compute_kernel_eigenpairs(ker, M, n_eigenpairs=2, backend="nope"), "backend")
    U = M.copy()
    U[0, 1] += 1
    raises(ValueError, lambda: E.compute_kernel_eigenpairs(ker, U, n_eigenpairs=2, validate_matrix=True), "not symmetric")
    raises(ValueError, lambda: E.compute_kernel_svd(M[:, :3], n_svdtriplet=4), "too many triplets")
    raises(ValueError, lambda: E.compute_kernel_svd(M, n_svdtriplet=2, backend="nope"), "backend")
    b = E.compute_kernel_eigenpairs(ker, np.eye(4, dtype=bool), n_eigenpairs=4)
    close(b[0], np.ones(4), "boolean matrix")


@case(40)
def svd(g):
    """compute_kernel_svd: A v = s u, decreasing, orthonormal"""
    n, m = g.int(3, 10), g.int(3, 10)
    A = np.abs(g.normal(n, m))
    sparse = g.flag()
    k = g.int(1, min(n, m))
    M = sp.csr_matrix(A) if sparse else A.copy()
    g.note(A=A, k=k, sparse=sparse)
    U, s, V = E.compute_kernel_svd(M, n_svdtriplet=k)
    same(dense(M), A, "matrix unchanged")
    check(U.shape == (n, k) and V.shape == (k, m) and s.shape == (k,), "shapes", got=(U.shape, s.shape, V.shape))
    close(s, np.linalg.svd(A)[1][:k], "leading singular values", rtol=1e-7)
    close(A @ V.T, U * s, "A v = s u", rtol=1e-6, atol=1e-8)
    close(A.T @ U, V.T * s, "A' u = s v", rtol=1e-6, atol=1e-8)
    close(U.T @ U, np.eye(k), "orthonormal", rtol=1e-7, atol=1e-8)


def markov(X, Y, eps, alpha, stochastic=True, cut=None):
    W, C = np.exp(-cdist(X, X, "sqeuclidean") / (2 * eps)), np.exp(-cdist(Y, X, "sqeuclidean") / (2 * eps))
    if cut:
        W, C = W * (cdist(X, X) <= cut), C * (cdist(Y, X) <= cut)
    if not stochastic:
        return W, C
    q = W.sum(axis=1) ** alpha
    w, c = W / np.outer(q, q), C / np.outer(C.sum(axis=1) ** alpha, q)
    return w / w.sum(axis=1, keepdims=True), c / c.sum(axis=1, keepdims=True)


@case(90)
def diffusion_maps(g):
    """fit, fit_transform, transform, target coordinates, time exponent, inverse"""
    X, Y, eps = cloud(g)
    n, d = X.shape
    alpha, stoch, sym = g.choice(0, 0.5, 1, float(g.uniform(0, 1))), g.flag(0.85), g.flag()
    t = g.choice(0, 0, 1, 2, 0.5, 3)
    k = g.choice(2, 3, 4, n)
    cut = g.choice(None, None, 50.0)
    kind = g.choice("np", "tsc")
    g.note(X=X, Y=Y, eps=eps, alpha=alpha, stochastic=stoch, symmetrize=sym, time_exponent=t, k=k, cut=cut, kind=kind)
    P, Q = markov(X, Y, eps, alpha, stoch, cut)
    w = np.sort(np.linalg.eigvals(P).real)[::-1]
    if w[k - 1] < 1e-5:
        k = int((w > 1e-5).sum())
        if k < 1 or k == n - 1 and cut:
            return
    if k == n - 1:
        k -= 1
    Xi, Yi = (tsc(g, X), tsc(g, Y) if len(Y) > 1 else Y) if kind == "tsc" else (X.copy(), Y.copy())
    if kind == "tsc" and not isinstance(Yi, TSCDataFrame):
        Yi = TSCDataFrame.from_tensor(Y[None], feature_names=Xi.columns, time_series_ids=np.array([0]))
    Xc, Yc = Xi.copy(), Yi.copy()
    dm = DiffusionMaps(K.GaussianKernel(epsilon=eps, distance=dict(cut_off=cut) if cut else None), n_eigenpairs=k, time_exponent=t,
                       is_stochastic=stoch, alpha=alpha, symmetrize_kernel=sym)
    if g.flag(0.3):  # a previous fit leaves nothing behind
        dm.fit(Xi * 0.7)
        dm.inverse_transform(dm.transform(Xi * 0.7))
    T = dm.fit_transform(Xi, store_kernel_matrix=True)
    lam, V = dm.eigenvalues_, np.asarray(dm.eigenvectors_)
    check(lam.shape == (k,) and V.shape == (n, k), "number of pairs", got=(lam.shape, V.shape))
    eigen_equation(P, lam, V, "diffusion map", 1e-6)
    close(lam, w[:k], "leading eigenvalues", rtol=1e-5, atol=1e-7)
    close(np.linalg.norm(V, axis=0), np.ones(k), "unit vectors")
    close(dense(dm.kernel_matrix_), P, "stored kernel matrix", rtol=1e-7, atol=1e-9)
    sel = np.arange(k)
    if g.flag(0.5) and k > 1:
        if g.flag():
            dm.inverse_transform(T)
        sel = np.sort(g.rng.permutation(k)[: g.int(1, k)])
        dm.set_target_coords([int(i) for i in g.rng.permutation(sel)])
        T = dm.fit_transform(Xi)
        lam, V = dm.eigenvalues_, np.asarray(dm.eigenvectors_)
    g.note(target=sel)
    names = [f"dmap{i}" for i in sel]
    same(dm.get_feature_names_out(), np.array(names), "names")
    want = V[:, sel] * lam[sel] ** t
    close(np.asarray(T), want, "training coordinates are the scaled vectors", rtol=1e-9, atol=1e-12)
    ny = lambda R: (R @ V[:, sel] / lam[sel]) * lam[sel] ** t
    TX, TY = dm.transform(Xi), dm.transform(Yi)
    sc = 1 / lam[sel].min()
    close(np.asarray(TY), ny(Q), "Nystroem extension", rtol=1e-6, atol=1e-8 * sc)
    close(np.asarray(TX), want, "training points as new points", rtol=1e-5, atol=1e-6 * sc)
    C = np.linalg.lstsq(want, X, rcond=None)[0]
    close(np.asarray(dm.inverse_transform(T)), want @ C, "least squares inverse", rtol=1e-5, atol=1e-5)
    if np.linalg.cond(want) < 1e6:
        close(np.asarray(dm.inverse_transform(TY)), ny(Q) @ C, "inverse of new points", rtol=1e-4, atol=1e-5 * sc)
    if kind == "tsc":
        for a, b in ((T, Xi), (TX, Xi), (TY, Yi)):
            check(isinstance(a, TSCDataFrame), "type", got=type(a))
            check(a.index.equals(b.index), "same series and times")
            check(list(a.columns) == names, "column names", got=list(a.columns), want=names)
        I = dm.inverse_transform(T)
        check(list(I.columns) == list(Xi.columns) and I.index.equals(Xi.index), "inverse has the original features and index")
    else:
        check(type(T) is np.ndarray and type(TY) is np.ndarray, "type")
    same(np.asarray(Xi), np.asarray(Xc), "input unchanged")
    same(np.asarray(Yi), np.asarray(Yc), "input unchanged")


@case(25)
def settings(g):
    X, _, eps = cloud(g)
    raises((ValueError, TypeError), lambda: DiffusionMaps(n_eigenpairs=g.choice(0, -1, 1.5)).fit(X), "n_eigenpairs")
    raises((ValueError, TypeError), lambda: DiffusionMaps(n_eigenpairs=3, alpha=g.choice(-0.1, 1.1, "a")).fit(X), "alpha")
    raises((ValueError, TypeError), lambda: DiffusionMaps(n_eigenpairs=3, time_exponent="a").fit(X), "time_exponent")
    raises(ValueError, lambda: DiffusionMaps(n_eigenpairs=len(X) + 1).fit(X), "more pairs than samples")
    d = DiffusionMaps(n_eigenpairs=4)
    raises(TypeError, lambda: d.set_target_coords([0.5, 1]), "coordinate type")
    raises(ValueError, lambda: d.set_target_coords([1, 4]), "coordinate too large")
    raises(ValueError, lambda: d.set_target_coords([-1, 2]), "coordinate too small")
    r = Roseland(n_svdtriplet=4)
    raises(TypeError, lambda: r.set_target_coords([0.5, 1]), "coordinate type")
    raises(ValueError, lambda: r.set_target_coords([1, 4]), "coordinate too large")
    raises(ValueError, lambda: r.set_target_coords([-1, 2]), "coordinate too small")
    for f, a in ((DiffusionMaps.laplace_beltrami, 1), (DiffusionMaps.fokker_planck, 0.5), (DiffusionMaps.graph_laplacian, 0)):
        m = f(kernel=K.GaussianKernel(epsilon=eps), n_eigenpairs=3)
        check(m.alpha == a and m.is_stochastic is True and m.n_eigenpairs == 3, f"{f.__name__}: documented exponent")
        P, _ = markov(X, X, eps, a)
        m.fit(X)
        eigen_equation(P, m.eigenvalues_, np.asarray(m.eigenvectors_), f.__name__, 1e-6)


@case(70)
def roseland(g):
    """landmark kernel, singular vectors, time exponent, new points"""
    X, Y, eps = cloud(g, 8, 16)
    n, d = X.shape
    m = g.int(3, n - 1)
    given = g.flag()
    t, k = g.choice(0, 0, 1, 0.5, 2), g.int(1, min(3, m))
    alpha = g.choice(0, 0, 1, 0.5)
    kind = g.choice("np", "tsc")
    Xi, Yi = (tsc(g, X), TSCDataFrame.from_tensor(np.concatenate([Y, Y])[None], feature_names=[f"x{i}" for i in range(d)], time_series_ids=np.array([0]))) if kind == "tsc" else (X.copy(), np.concatenate([Y, Y]))
    Y = np.concatenate([Y, Y])
    lm = X[g.rng.permutation(n)[:m]] if given else g.choice(m, (m + 0.5) / n)
    g.note(X=X, Y=Y, landmarks=lm, k=k, t=t, alpha=alpha, kind=kind)
    r = Roseland(K.GaussianKernel(epsilon=eps), n_svdtriplet=k, time_exponent=t, landmarks=lm, alpha=alpha, random_state=g.int(0, 99))
    sel = np.arange(k)
    if g.flag() and k > 1:
        sel = np.sort(g.rng.permutation(k)[: g.int(1, k)])
        r.set_target_coords(sel)
    T = r.fit_transform(Xi)
    L = np.asarray(r.landmarks_)
    if given:
        same(L, lm, "landmarks")
    else:
        check(len(L) == m, "number of landmarks", got=len(L), want=m)
        check(len({tuple(x) for x in L}) == m and all((X == x).all(axis=1).any() for x in L), "landmarks are distinct samples")

    f = lambda Z: np.exp(-cdist(Z, L, "sqeuclidean") / (2 * eps))
    W, C = f(X), f(Y)
    if alpha > 0:
        col = W.sum(axis=0) ** alpha
        W, C = W / np.outer(W.sum(axis=1) ** alpha, col), C / np.outer(C.sum(axis=1) ** alpha, col)
    c = W.sum(axis=0)
    D, DB = 1 / np.sqrt(W @ c), 1 / np.sqrt(C @ c)
    A, B = W * D[:, None], C * DB[:, None]
    s = np.linalg.svd(A)[1][:k]
    close(r.svdvalues_, s, "leading singular values", rtol=1e-6)
    close(A @ r.svdvec_right_, (np.asarray(r.svdvec_left_) / D[:, None]) * r.svdvalues_, "singular vectors", rtol=1e-5, atol=1e-7)
    check((np.diff(r.svdvalues_) <= 1e-12).all(), "decreasing")
    names = [f"rose{i}" for i in sel]
    same(r.get_feature_names_out(), np.array(names), "names")
    want = np.asarray(r.svdvec_left_)[:, sel] * r.svdvalues_[sel] ** (2 * t)
    close(np.asarray(T), want, "training embedding", rtol=1e-9, atol=1e-12)
    if (r.svdvalues_ > 1e-4).all():
        close(np.asarray(r.transform(Xi)), want, "training points as new points", rtol=1e-5, atol=1e-6)
        TY = r.transform(Yi)
        close(np.asarray(TY), DB[:, None] * (B @ r.svdvec_right_[:, sel] / r.svdvalues_[sel]) * r.svdvalues_[sel] ** (2 * t), "new points", rtol=1e-5, atol=1e-6)
        if kind == "tsc":
            for a, b in ((T, Xi), (TY, Yi)):
                check(isinstance(a, TSCDataFrame) and a.index.equals(b.index), "series and times")
                check(list(a.columns) == names, "columns", got=list(a.columns))


def locreg_reference(X, scale, kind):
    n = len(X)
    res = [np.nan, 1.0]
    for c in range(2, X.shape[1]):
        D, y = X[:, 1:c], X[:, c]
        s = cdist(D, D, "sqeuclidean")
        eps = (np.median(s) if kind == "median" else s.mean()) / scale
        w = np.exp(-s / eps)
        pred = []
        for i in range(n):
            A = np.column_stack([np.ones(n), D - D[i]])
            WA = A.T * w[i]
            pred.append((np.linalg.lstsq(WA @ A, WA, rcond=1e-6)[0] @ y)[0])
        res.append(np.sqrt(((y - pred) ** 2).sum() / (y ** 2).sum()))
    return np.array(res)


@case(25)
def local_regression(g):
    """residual of the local linear regression on the previous coordinates; selection by dimension or threshold"""
    n, k = g.int(12, 30), g.int(3, 6)
    X = g.normal(n, k)
    X[:, 0] = 1
    if k > 3 and g.flag():
        X[:, 3] = X[:, 1] ** 2 - 0.3
    strategy = g.choice("dim", "threshold")
    scale, kind = float(g.uniform(1, 4)), g.choice("median", "mean")
    dim, thr = g.int(1, k - 1), float(g.uniform(0.05, 0.95))
    g.note(X=X, strategy=strategy, scale=scale, kind=kind, dim=dim, threshold=thr)
    l = LocalRegressionSelection(eps_med_scale=scale, strategy=strategy, intrinsic_dim=dim, regress_threshold=thr, bandwidth_type=kind)
    X0 = X.copy()
    l.fit(X)
    want = locreg_reference(X, scale, kind)
    close(l.residuals_, want, "residuals", rtol=1e-6, atol=1e-8)
    if strategy == "dim":
        w = want.copy()
        w[0] = -1
        sel = [1] if dim == 1 else sorted(np.argsort(-w)[:dim].tolist())
    else:
        sel = [i for i in range(1, k) if want[i] > thr]
    same(np.asarray(l.evec_indices_), np.array(sel), "selected coordinates")
    same(l.transform(X), X[:, sel], "selected columns")
    Z = g.normal(5, k)
    same(l.transform(Z), Z[:, sel], "selected columns of new data")
    T = TSCDataFrame.from_tensor(X[None], feature_names=[f"c{i}" for i in range(k)], time_series_ids=np.array([3]))
    t = LocalRegressionSelection(eps_med_scale=scale, strategy=strategy, intrinsic_dim=dim, regress_threshold=thr, bandwidth_type=kind).fit(T).transform(T)
    check(list(t.columns) == [f"c{i}" for i in sel] and t.index.equals(T.index), "columns and index of a time series")
    same(np.asarray(t), X[:, sel], "values of a time series")
    same(X, X0, "input unchanged")


@case(20)
def cone_kernel_map(g):
    """kernels that drop samples: the coordinates carry the remaining samples; training points as new points"""
    n = g.int(14, 20)
    X = np.column_stack([np.sin(np.arange(n) * 0.4), np.cos(np.arange(n) * 0.4)]) + g.normal(n, 2, scale=0.05)
    T = tsc(g, X)
    if T.n_timeseries > 1 and T.n_timesteps is None and min(T.n_timesteps if np.isscalar(T.n_timesteps) else [9]) < 6:
        return
    if any(len(d) < 6 for _, d in T.itertimeseries()):
        return
    k = g.int(2, 4)
    g.note(X=X, k=k)
    m = DiffusionMaps(K.ConeKernel(zeta=float(g.uniform(0, 0.9)), epsilon=float(g.uniform(0.3, 2))), n_eigenpairs=k)
    F = m.fit_transform(T, store_kernel_matrix=True)
    M = np.asarray(m.kernel_matrix_)
    check(len(F) == len(M) < len(T), "samples without derivative are dropped")
    check(F.index.isin(T.index).all(), "remaining samples keep series and time")
    eigen_equation(M, m.eigenvalues_, np.asarray(m.eigenvectors_), "cone", 1e-6)
    close(M.sum(axis=1), np.ones(len(M)), "Markov")
    N = m.transform(T)
    check(N.index.equals(F.index), "index of new points")
    close(np.asarray(N), np.asarray(F), "training points as new points", rtol=1e-4, atol=1e-5)
    C = np.linalg.lstsq(np.asarray(F), np.asarray(T.loc[F.index]), rcond=None)[0]
    close(np.asarray(m.inverse_transform(F)), np.asarray(F) @ C, "inverse uses the remaining samples", rtol=1e-5, atol=1e-6)


CASES = [eigenpairs, eigensolver_refuses, svd, diffusion_maps, settings, roseland, local_regression, cone_kernel_map]

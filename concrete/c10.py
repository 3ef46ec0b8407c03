"""C10 - out-of-sample extension agrees with the training data (bounded)"""
import numpy as np
import pandas as pd
from concrete.core import check, case, close, raises, same
from concrete.tsgen import untouched
from datafold.dynfold import DiffusionMaps, Roseland
from datafold.dynfold.jsf import JointlySmoothFunctions
from datafold.dynfold.outofsample import GeometricHarmonicsInterpolator, LaplacianPyramidsInterpolator
from datafold.pcfold import GaussianKernel, TSCDataFrame


def gauss(A, B, eps):
    """rows: A, columns: B"""
    return np.exp(-((A[:, None, :] - B[None]) ** 2).sum(-1) / (2 * eps))


def normalised(Kx, Kq, alpha, stochastic):
    """documented density normalisation of the training kernel Kx and the kernel Kq of new points against the training points"""
    if alpha:
        q, p = Kx.sum(1) ** -float(alpha), Kq.sum(1) ** -float(alpha)
        Kx, Kq = q[:, None] * Kx * q, p[:, None] * Kq * q
    if stochastic:
        Kx, Kq = Kx / Kx.sum(1, keepdims=True), Kq / Kq.sum(1, keepdims=True)
    return Kx, Kq


def cloud(g, lo=5, hi=12):
    n, d = g.int(lo, hi), g.int(1, 3)
    while True:
        X = g.normal(n, d)
        D = ((X[:, None] - X[None]) ** 2).sum(-1) + 10 * np.eye(n)
        if D.min() > 1e-2:
            return X


@case(60)
def harmonics(g):
    X = cloud(g)
    n, d = X.shape
    Q = g.normal(g.int(1, 4), d)
    t = g.choice(1, 1, 2, 3)
    y = g.normal(n) if t == 1 and g.flag() else g.normal(n, t)
    eps, alpha = g.uniform(0.1, 1.5), g.choice(0, 1, 0.5)
    k = g.int(1, n - 1)
    g.note(X=X, y=y, eps=eps, alpha=alpha, k=k)
    Kx, Kq = normalised(gauss(X, X, eps), gauss(Q, X, eps), 0, False)
    w, V = np.linalg.eigh(Kx)
    w, V = w[::-1], V[:, ::-1]
    if w[k - 1] < 1e-7 * w[0] or w[k - 1] - w[k] < 1e-9 * w[0]:
        return
    X0, y0 = X.copy(), y.copy()
    est = GeometricHarmonicsInterpolator(GaussianKernel(epsilon=eps), n_eigenpairs=k, alpha=alpha, symmetrize_kernel=g.flag()).fit(X, y)
    same(X, X0, "fit leaves the points unchanged")
    same(y, y0, "fit leaves the targets unchanged")
    Y = y.reshape(n, -1)
    want = Kq @ (V[:, :k] / w[:k]) @ (V[:, :k].T @ Y)
    sh = lambda A: A[:, 0] if t == 1 else A
    tol = 1e-9 * w[0] / w[k - 1]
    P = est.predict(Q)
    close(P, sh(want), "extension: kernel times harmonics over eigenvalues times coefficients", rtol=max(1e-6, tol), atol=max(1e-7, tol))
    close(est.predict(X), sh(V[:, :k] @ V[:, :k].T @ Y), "training points: projection of the target on the harmonics", rtol=max(1e-6, tol), atol=max(1e-7, tol))
    c = V[:, :k] @ g.normal(k, t)
    est2 = GeometricHarmonicsInterpolator(GaussianKernel(epsilon=eps), n_eigenpairs=k, alpha=alpha).fit(X, sh(c))
    close(est2.predict(X), sh(c), "a target in the span of the harmonics is reproduced", rtol=max(1e-6, tol), atol=max(1e-7, tol))
    same(est.predict(Q), P, "repeating gives the same")
    # each target on its own
    if t > 1:
        j = g.int(0, t - 1)
        one = GeometricHarmonicsInterpolator(GaussianKernel(epsilon=eps), n_eigenpairs=k, alpha=alpha).fit(X, y[:, j])
        close(one.predict(Q), P[:, j], "targets do not influence each other", rtol=max(1e-6, tol), atol=max(1e-7, tol))
    # score
    yq = g.normal(len(Q)) if t == 1 and y.ndim == 1 else g.normal(len(Q), t)
    sw = g.uniform(0.1, 2, len(Q)) if g.flag() else None
    err = (yq.reshape(len(Q), -1) - P.reshape(len(Q), -1)) ** 2
    mse = np.average(err, axis=0, weights=sw)
    s = est.score(Q, yq, sample_weight=sw)
    close(np.ravel(s), -np.sqrt(mse), "score: negative root mean squared error per target")
    if t > 1:
        close(est.score(Q, yq, sample_weight=sw, multioutput="uniform_average"), -np.sqrt(mse.mean()), "score: average over targets")
        check(np.ndim(s) == 1, "one score per target")
    else:
        check(np.ndim(s) == 0, "a single score")


@case(20)
def harmonics_stochastic(g):
    """row stochastic kernel: the formula with the eigenvectors of the kernel"""
    X = cloud(g)
    n, d = X.shape
    Q = g.normal(g.int(1, 4), d)
    y = g.normal(n, 2)
    eps, alpha, k = g.uniform(0.1, 1.0), g.choice(0, 1), g.int(1, n - 1)
    sym = g.flag()
    g.note(X=X, y=y, eps=eps, alpha=alpha, k=k, sym=sym)
    est = GeometricHarmonicsInterpolator(GaussianKernel(epsilon=eps), n_eigenpairs=k, alpha=alpha, is_stochastic=True, symmetrize_kernel=sym).fit(X, y, store_kernel_matrix=True)
    Kx, Kq = normalised(gauss(X, X, eps), gauss(Q, X, eps), alpha, True)
    V, w = est.eigenvectors_, est.eigenvalues_
    close(np.asarray(est.kernel_matrix_), Kx, "stored kernel is row stochastic", rtol=1e-8)
    if abs(w[-1]) < 1e-6:
        return
    close(Kx @ V, V * w, "harmonics are eigenvectors of the kernel", rtol=1e-6, atol=1e-8)
    close(est.predict(Q), Kq @ (V / w) @ (V.T @ y), "extension formula", rtol=1e-5, atol=1e-6)


@case(12)
def harmonics_reject(g):
    X = cloud(g)
    g.note(X=X)
    y = g.normal(len(X))
    k = GaussianKernel(epsilon=1.0)
    raises((ValueError, TypeError), lambda: GeometricHarmonicsInterpolator(k, n_eigenpairs=len(X)).fit(X, y), "too many harmonics")
    raises((ValueError, TypeError), lambda: GeometricHarmonicsInterpolator(k, n_eigenpairs=0).fit(X, y), "no harmonics")
    raises(ValueError, lambda: GeometricHarmonicsInterpolator(k, n_eigenpairs=2).fit(X, y[:-1]), "targets do not match")
    bad = X.copy()
    bad[0, 0] = np.nan
    raises(ValueError, lambda: GeometricHarmonicsInterpolator(k, n_eigenpairs=2).fit(bad, y), "missing values")
    raises(ValueError, lambda: LaplacianPyramidsInterpolator().fit(X, y), "no stopping criterion")
    raises(ValueError, lambda: LaplacianPyramidsInterpolator(mu=1.0, residual_tol=0.1).fit(X, y), "factor one")


def pyramid(X, y, eps, mu, tol, auto, alpha):
    """levels of one target: [(epsilon, values)]"""
    r = y.astype(float).copy()
    out, last, approx = [], np.nan, np.zeros(len(y))
    while True:
        K, _ = normalised(gauss(X, X, eps), gauss(X, X, eps), alpha, True)
        if auto:
            K = K - np.diag(np.diag(K))
        approx = approx + K @ r
        res = y - approx
        nr = np.linalg.norm(res)
        if auto and not np.isnan(last) and nr >= last:
            return out
        out.append((eps, r))
        if (tol is not None and nr <= tol) or nr < 1e-15:
            return out
        eps, r, last = eps / mu, res, nr


@case(50)
def pyramids(g):
    X = cloud(g)
    n, d = X.shape
    Q = g.normal(g.int(1, 4), d)
    t = g.choice(1, 2, 3)
    auto = g.flag()
    tol = None if auto and g.flag(0.6) else g.choice(0.5, 0.1, 1e-2)
    mu, eps, alpha = g.choice(2.0, 2, 3.5), g.uniform(0.5, 10), g.choice(0, 0, 1)
    y = np.column_stack([np.sin(X.sum(1) * g.uniform(0.3, 3)) * g.choice(1, 10) for _ in range(t)])
    g.note(X=X, y=y, mu=mu, eps=eps, alpha=alpha, tol=tol, auto=auto)
    est = LaplacianPyramidsInterpolator(initial_epsilon=eps, mu=mu, residual_tol=tol, auto_adaptive=auto, alpha=alpha)
    y0, X0 = y.copy(), X.copy()
    est.fit(X, y if t > 1 or g.flag() else y[:, 0])
    same(y, y0, "fit leaves the targets unchanged")
    same(X, X0, "fit leaves the points unchanged")
    want = np.zeros((len(Q), t))
    for j in range(t):
        for e, r in pyramid(X, y[:, j], eps, mu, tol, auto, alpha):
            want[:, j] += normalised(gauss(X, X, e), gauss(Q, X, e), alpha, True)[1] @ r
    # a residual next to a threshold may stop one level earlier or later
    P = est.predict(Q)
    close(P, want[:, 0] if t == 1 else want, "sum over the levels of smoothed residuals", rtol=1e-6, atol=1e-7)
    if not auto:
        R = est.predict(X).reshape(n, -1)
        check((np.linalg.norm(y - R, axis=0) <= tol * (1 + 1e-9)).all(), "the residual reaches the tolerance")
    same(est.predict(Q), P, "repeating gives the same")


@case(40)
def jointly_smooth(g):
    m = g.choice(2, 2, 3)
    n = g.int(9, 14)
    d = m + g.int(0, 1)
    X = g.normal(n, d)
    cuts = [slice(i, i + 1) for i in range(m - 1)] + [slice(m - 1, d)]
    eps = [g.uniform(0.3, 2) for _ in range(m)]
    k, nf = g.int(2, 5), g.int(1, 6)
    kind = g.choice("np", "tsc", "df")
    cols = [f"x{i}" for i in range(d)]
    D = {"np": X, "df": pd.DataFrame(X, columns=cols), "tsc": TSCDataFrame(X, index=pd.MultiIndex.from_arrays([np.repeat([7, 2], [n // 2, n - n // 2]), np.arange(n) * 0.5]), columns=cols)}[kind]
    g.note(X=X, eps=eps, k=k, nf=nf, kind=kind)
    sp = [(f"s{i}", GaussianKernel(epsilon=e), c) for i, (e, c) in enumerate(zip(eps, cuts))]
    W, L = [], []
    for c, e in zip(cuts, eps):
        w, V = np.linalg.eigh(gauss(X[:, c], X[:, c], e))
        w, V = w[::-1], V[:, ::-1]
        if w[k - 1] < 1e-6 or min(-np.diff(w[:k + 1])) < 1e-6:
            return
        W.append(V[:, :k])
        L.append(w[:k])
    est = JointlySmoothFunctions(sp, n_kernel_eigenvectors=k, n_jointly_smooth_functions=nf)
    if kind == "tsc":
        _, ok = untouched(D, lambda: est.fit(D))
        check(ok, "fit leaves the data unchanged")
    else:
        est.fit(D)
    F = np.asarray(est.jointly_smooth_vectors_)
    for i in range(m):
        close(est.kernel_eigenvalues_[f"s{i}"], L[i], "kernel eigenvalues of the split", rtol=1e-6)
        close(np.abs(np.asarray(est.kernel_eigenvectors_[f"s{i}"])), np.abs(W[i]), "kernel eigenvectors of the split", rtol=1e-4, atol=1e-5)
    if m == 2:
        Qm, s, Rt = np.linalg.svd(W[0].T @ W[1])
        cnt = min(nf, k - 1)
        want = (W[0] @ Qm[:, :cnt] + W[1] @ Rt.T[:, :cnt]) / np.sqrt(2 * (1 + s[:cnt]))
        gap = min(-np.diff(s), default=1)
    else:
        U, s, _ = np.linalg.svd(np.column_stack(W), full_matrices=False)
        cnt = min(nf, m * k)
        want = U[:, :cnt]
        gap = min(-np.diff(s[:cnt + 1]), default=1)
    check(F.shape == (n, cnt), "number of functions", got=F.shape, want=(n, cnt))
    close(F.T @ F, np.eye(cnt), "orthonormal functions", rtol=1e-6, atol=1e-6)
    if gap > 1e-5:
        close(np.abs(F), np.abs(want), "functions: left singular vectors of all kernel eigenvectors", rtol=1e-3, atol=1e-4)

    def extend(Z):
        out = 0
        for i, (c, e) in enumerate(zip(cuts, eps)):
            V, w = np.asarray(est.kernel_eigenvectors_[f"s{i}"]), est.kernel_eigenvalues_[f"s{i}"]
            out = out + gauss(Z[:, c], X[:, c], e) @ (V / w) @ (V.T @ F)
        return out / m
    q = np.sort(g.rng.choice(n, 3, replace=False))
    part = D[q] if kind == "np" else D.iloc[q]
    T = est.transform(part)
    close(np.asarray(T), extend(X[q]), "Nystroem extension averaged over the splits", rtol=1e-5, atol=1e-6)
    check(type(T) is type(part), "type of the data", got=type(T).__name__)
    if kind != "np":
        check(T.index.equals(part.index) and list(T.columns) == list(est.get_feature_names_out()) == [f"jsf{i}" for i in range(cnt)], "rows and names", got=list(T.columns))
    Z = g.normal(2, d)
    Zi = Z if kind == "np" else (pd.DataFrame(Z, columns=cols) if kind == "df" else TSCDataFrame(Z, index=pd.MultiIndex.from_arrays([[0, 0], [0, 1]]), columns=cols))
    close(np.asarray(est.transform(Zi)), extend(Z), "extension to new points", rtol=1e-5, atol=1e-6)
    close(est.score_(None, None), sum((np.linalg.norm(w.T @ F, axis=0) ** 2).sum() for w in W), "score: truncated energies", rtol=1e-4)


@case(25)
def embeddings(g):
    """the extension of an embedding evaluated at the training points is the training embedding"""
    X = cloud(g, lo=8, hi=14)
    eps = g.uniform(0.3, 1.5)
    lm = X[np.sort(g.rng.choice(len(X), len(X) // 2 + 1, replace=False))]
    alpha, t = g.choice(0, 1), g.choice(0, 1, 2)
    if g.flag():
        k = g.int(1, 4)
        est = DiffusionMaps(GaussianKernel(epsilon=eps), n_eigenpairs=k, alpha=alpha, time_exponent=t, symmetrize_kernel=g.flag())
    else:
        k = g.int(1, 3)
        est = Roseland(GaussianKernel(epsilon=eps), n_svdtriplet=k, landmarks=lm, alpha=alpha, time_exponent=t)
    g.note(est=repr(est), X=X)
    E = np.asarray(est.fit_transform(X))
    w = est.eigenvalues_ if hasattr(est, "eigenvalues_") else est.svdvalues_
    if min(np.abs(w)) < 1e-5:
        return
    close(np.asarray(est.transform(X)), E, "embedding of the training points", rtol=1e-5, atol=1e-6)
    q = g.rng.permutation(len(X))[:3]
    close(np.asarray(est.transform(X[q])), E[q], "embedding of some of the training points", rtol=1e-5, atol=1e-6)


CASES = [harmonics, harmonics_stochastic, harmonics_reject, pyramids, jointly_smooth, embeddings]

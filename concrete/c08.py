"""C08: executable contracts of the Markov and density normalisation"""
import numpy as np
import scipy.sparse as sp
from scipy.spatial.distance import cdist

from datafold.pcfold import kernels as K
from .core import Broken, case, check, close, raises, same


def dense(A):
    return A.toarray() if sp.issparse(A) else np.asarray(A)


def setup(g):
    n, d = g.int(2, 9), g.int(1, 3)
    X, Y = g.normal(n, d), g.normal(g.int(1, 6), d)
    eps = float(g.uniform(0.2, 3))
    return X, Y, eps


def reference(W, C, alpha, density=None):
    """row stochastic kernel of the training points W and of the queries C"""
    q = W.sum(axis=1) ** alpha
    w = W / np.outer(q, q)
    c = C / np.outer(C.sum(axis=1) ** alpha, q)
    return w, w / w.sum(axis=1, keepdims=True), c / c.sum(axis=1, keepdims=True)


@case(80)
def fixed(g):
    """DmapKernelFixed, dense and sparse: density exponent, row sums, conjugate, reuse for new points"""
    X, Y, eps = setup(g)
    alpha = g.choice(0, 0.0, 0.5, 1, 1.0, float(g.uniform(0, 1)))
    sym, stoch = g.flag(), g.flag(0.85)
    s, c = cdist(X, X, "sqeuclidean"), cdist(Y, X, "sqeuclidean")
    cut = None
    if g.flag():
        cut = float(np.sqrt(np.max(c.min(axis=1).max() + 0.1)))
        cut = max(cut, float(np.quantile(np.sqrt(s), g.uniform(0.2, 1)))) + 1e-6
    g.note(X=X, Y=Y, eps=eps, alpha=alpha, symmetrize=sym, stochastic=stoch, cut_off=cut)
    X0, Y0 = X.copy(), Y.copy()
    inner = K.GaussianKernel(epsilon=eps, distance=dict(cut_off=cut) if cut else None)
    W, C = np.exp(-s / (2 * eps)), np.exp(-c / (2 * eps))
    if cut:
        W, C = W * (np.sqrt(s) <= cut), C * (np.sqrt(c) <= cut)
    ker = K.DmapKernelFixed(inner, is_stochastic=stoch, alpha=alpha, symmetrize_kernel=sym)
    M = ker(X)
    N = ker(X, Y)
    T = ker(X, X)
    check(sp.issparse(M) == sp.issparse(N) == bool(cut), "type of the kernel matrix")
    same(X, X0, "points unchanged")
    same(Y, Y0, "points unchanged")
    M, N, T = dense(M), dense(N), dense(T)
    if not stoch:
        close(M, W, "internal kernel", rtol=1e-7, atol=1e-9)
        close(N, C, "internal kernel of queries", rtol=1e-7, atol=1e-9)
        check(ker.basis_change_matrix_ is None, "no basis change")
        return
    w, P, Q = reference(W, C, alpha)
    close(N, Q, "queries", rtol=1e-7, atol=1e-9)
    close(N.sum(axis=1), np.ones(len(Y)), "row sums of queries")
    check((N >= 0).all() and (M >= 0).all(), "not negative")
    close(T, P, "training points as new points", rtol=1e-6, atol=1e-8)
    if sym:
        q = np.sqrt(w.sum(axis=1))
        close(M, w / np.outer(q, q), "conjugate", rtol=1e-7, atol=1e-9)
        same(M, M.T, "symmetric")
        B = dense(ker.basis_change_matrix_)
        close(B, np.diag(1 / q), "basis change", rtol=1e-7)
        close(B @ M @ np.linalg.inv(B), T, "conjugate of the kernel of the training points as new points", rtol=1e-6, atol=1e-8)
        check(ker.is_symmetric and ker.is_conjugate, "declared conjugate")
    else:
        close(M, P, "row stochastic", rtol=1e-7, atol=1e-9)
        close(M.sum(axis=1), np.ones(len(X)), "row sums")
        check(not ker.is_symmetric and not ker.is_conjugate and ker.basis_change_matrix_ is None, "declared not conjugate")
    if alpha > 0:
        close(np.asarray(ker.row_sums_alpha_).ravel(), W.sum(axis=1) ** alpha, "stored row sums", rtol=1e-7)
    # queries do not change the fitted normalisation; same result row by row
    N2 = dense(ker(X, Y[:1]))
    close(N2, N[:1], "a query alone", rtol=1e-10)
    close(dense(ker(X, Y)), N, "repeated", rtol=1e-12)
    if not cut:
        k2 = K.DmapKernelFixed(K.GaussianKernel(epsilon=eps), is_stochastic=True, alpha=alpha, symmetrize_kernel=sym)
        s0, c0 = s.copy(), c.copy()
        close(k2.evaluate(s, is_pdist=True), M, "evaluation of given distances", rtol=1e-6, atol=1e-9)
        close(k2.evaluate(c), N, "evaluation of given query distances", rtol=1e-6, atol=1e-9)
        same(s, s0, "distances unchanged")
        same(c, c0, "distances unchanged")
        raises(ValueError, lambda: k2.evaluate(np.ones((2, len(X) + 3))), "other number of reference points") if alpha > 0 else None


@case(30)
def guards(g):
    """alpha outside [0, 1] refused, new points before the training points refused"""
    X, Y, eps = setup(g)
    a = g.choice(-0.1, 1.1, -1, 2)
    g.note(X=X, Y=Y, alpha=a)
    inner = K.GaussianKernel(epsilon=eps)
    raises(ValueError, lambda: K.DmapKernelFixed(inner, alpha=a), "alpha")
    raises(ValueError, lambda: K.RoselandKernel(inner, alpha=a), "alpha")
    raises(Exception, lambda: K.DmapKernelFixed(inner, alpha=1)(X, Y), "new points first")
    raises(ValueError, lambda: K.RoselandKernel(inner, alpha=1)(X), "landmark kernel needs data")


@case(40)
def normalisation(g):
    """_stochastic_kernel_matrix and _conjugate_stochastic_kernel_matrix, dense and sparse"""
    n, m = g.int(1, 6), g.int(1, 6)
    A = np.abs(g.normal(n, m)) + 0.01
    A[A < 0.3] = 0
    A[:, 0] += 0.1
    if g.flag(0.3):
        A[g.int(0, n - 1)] = 0
    g.note(A=A)
    A0 = A.copy()
    q = A.sum(axis=1, keepdims=True)
    with np.errstate(all="ignore"):
        want = np.where(q > 0, A / q, 0)
    with np.errstate(all="ignore"):
        close(K._stochastic_kernel_matrix(A), want, "row normalised (a zero row stays zero)", rtol=1e-10)
    same(A, A0, "unchanged")
    close(K._stochastic_kernel_matrix(sp.csr_matrix(A)).toarray(), want, "row normalised (sparse)", rtol=1e-10)
    S = np.abs(g.normal(n, n))
    S = S + S.T + 0.1
    S0 = S.copy()
    r = np.sqrt(S.sum(axis=1))
    M, B = K._conjugate_stochastic_kernel_matrix(S.copy())
    close(M, S0 / np.outer(r, r), "conjugate", rtol=1e-10)
    close(dense(B), np.diag(1 / r), "basis change", rtol=1e-10)
    M, B = K._conjugate_stochastic_kernel_matrix(sp.csr_matrix(S))
    close(M.toarray(), S0 / np.outer(r, r), "conjugate (sparse)", rtol=1e-10)
    close(dense(B), np.diag(1 / r), "basis change (sparse)", rtol=1e-10)


@case(40)
def roseland(g):
    """Roseland kernel: D^(-1/2) K with the row sums of K K^T; landmark sums and densities of the fit are reused"""
    X, Y, eps = setup(g)  # landmarks and data
    Z = g.normal(g.int(1, 5), X.shape[1])
    alpha = g.choice(0, 1, 0.5, float(g.uniform(0, 1)))
    g.note(landmarks=X, Y=Y, Z=Z, alpha=alpha)
    sparse = g.flag(0.3)
    inner = K.GaussianKernel(epsilon=eps, distance=dict(cut_off=1e3) if sparse else None)
    f = lambda q: np.exp(-cdist(q, X, "sqeuclidean") / (2 * eps))
    W, C = f(Y), f(Z)
    if alpha > 0:
        col = W.sum(axis=0) ** alpha
        W, C = W / np.outer(W.sum(axis=1) ** alpha, col), C / np.outer(C.sum(axis=1) ** alpha, col)
    s = W.sum(axis=0)
    z = lambda A: A / np.sqrt(A @ s)[:, None]
    ker = K.RoselandKernel(inner, alpha=alpha)
    M = ker(X, Y)
    close(dense(M), z(W), "kernel of data and landmarks", rtol=1e-7, atol=1e-10)
    close(np.asarray(ker.normalize_diagonal_).ravel(), 1 / np.sqrt(W @ s), "normalisation", rtol=1e-7)
    N = ker(X, Z)
    close(dense(N), z(C), "kernel of new points and landmarks", rtol=1e-7, atol=1e-10)
    close(dense(ker(X, Y)), z(W), "data as new points", rtol=1e-7, atol=1e-10)


CASES = [fixed, guards, normalisation, roseland]

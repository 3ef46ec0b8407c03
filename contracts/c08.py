"""C08 Markov and density normalisation"""
import numpy as np


def K():
    from datafold.pcfold import kernels
    return kernels


def _pos(v, name, shape):
    return v.array(name, shape, pos=True)


def stochastic(v):
    """_stochastic_kernel_matrix: M_ij = K_ij / sum_j K_ij; rows sum to one, no negative entries; the matrix handed in is unchanged"""
    n, m = v.int("n", 1), v.int("m", 1)
    A = _pos(v, "K", (n, m))
    M = K()._stochastic_kernel_matrix(A)
    rs = lambda i: v.sum(m, lambda j: A[i, j])
    v.prove_eq("row normalised", M, v.arr_fn((n, m), lambda i, j: A[i, j] / rs(i)))
    i, j = v.int("i", 0, n - 1), v.int("j", 0, m - 1)
    v.prove("not negative", M[i, j] >= 0)
    v.prove("row sum", v.sum(m, lambda q: M[i, q]) == 1)
    v.frame("kernel unchanged", A)


def conjugate(v):
    """_conjugate_stochastic_kernel_matrix: K_ij / sqrt(q_i q_j), q the row sums, with basis change diag(1/sqrt(q)); similar to the row-stochastic matrix"""
    n = v.int("n", 1)
    A = v.symmetric("K", n, pos=True)
    A0 = A.snapshot()
    q = lambda i: v.sqrt(v.sum(n, lambda j: A0[i, j]))
    M, B = K()._conjugate_stochastic_kernel_matrix(A)
    v.prove_eq("conjugate", M, v.arr_fn((n, n), lambda i, j: A0[i, j] / (q(i) * q(j))))
    v.prove_eq("basis change", B, v.arr_fn((n, n), lambda i, j: v.ite(i == j, 1 / q(i), 0.0)))
    i, j = v.int("i", 0, n - 1), v.int("j", 0, n - 1)
    v.prove("symmetric", M[i, j] == M[j, i])
    v.prove("similar to the row stochastic matrix", B[i, i] * M[i, j] / B[j, j] == A0[i, j] / v.sum(n, lambda j: A0[i, j]))


def _fixed(v, stochastic, symmetrize, alpha):
    n, p = v.int("n", 1), v.int("p", 1)
    A, C = v.symmetric("K", n, pos=True), _pos(v, "C", (p, n))
    A0, C0 = A.snapshot(), C.snapshot()
    if alpha is None:
        alpha = v.real("alpha", pos=True)
        v.assume(alpha < 1)
    ker = K().DmapKernelFixed(K().GaussianKernel(epsilon=1.0), is_stochastic=stochastic, alpha=alpha, symmetrize_kernel=symmetrize)
    power = lambda x: x if alpha == 1 else v.pow(x, alpha)
    d = lambda i: power(v.sum(n, lambda j: A0[i, j]))
    dc = lambda i: power(v.sum(n, lambda j: C0[i, j]))
    M = ker._eval_kernel_matrix(A, is_pdist=True)
    N = ker._eval_kernel_matrix(C, is_pdist=False)
    return n, p, A0, C0, ker, d, dc, M, N


def plain(v):
    """a kernel that is not asked to be stochastic is the internal kernel"""
    n, p, A0, C0, ker, d, dc, M, N = _fixed(v, False, True, 1)
    v.prove_eq("kernel", M, A0)
    v.prove_eq("queries", N, C0)
    v.fact("no basis change", ker.basis_change_matrix_ is None)
    v.fact("symmetric", ker.is_symmetric is True)


def alpha_zero(v):
    """alpha = 0: row-stochastic internal kernel, for the training points and for new points"""
    n, p, A0, C0, ker, d, dc, M, N = _fixed(v, True, False, 0)
    v.prove_eq("kernel", M, v.arr_fn((n, n), lambda i, j: A0[i, j] / v.sum(n, lambda q: A0[i, q])))
    v.prove_eq("queries", N, v.arr_fn((p, n), lambda i, j: C0[i, j] / v.sum(n, lambda q: C0[i, q])))
    v.fact("not symmetric", ker.is_symmetric is False)


def _alpha(v, alpha):
    n, p, A0, C0, ker, d, dc, M, N = _fixed(v, True, False, alpha)
    w = lambda i, j: A0[i, j] / (d(i) * d(j))
    wc = lambda i, j: C0[i, j] / (dc(i) * d(j))
    v.prove_eq("stored row sums", ker.row_sums_alpha_, v.arr_fn((n,), d))
    i, j, q = v.int("i", 0, n - 1), v.int("j", 0, n - 1), v.int("q", 0, p - 1)
    v.prove("kernel", M[i, j] * v.sum(n, lambda b: w(i, b)) == w(i, j))
    v.prove("queries", N[q, j] * v.sum(n, lambda b: wc(q, b)) == wc(q, j))
    v.prove("not negative", v.and_(M[i, j] >= 0, N[q, j] >= 0))
    v.prove("row sums", v.sum(n, lambda b: M[i, b]) == 1)
    v.prove("row sums of queries", v.sum(n, lambda b: N[q, b]) == 1)


def alpha_one(v):
    """alpha = 1: K_ij / (d_i d_j), then row stochastic; new points use the row sums of the training points"""
    _alpha(v, 1)


def alpha_frac(v):
    """0 < alpha < 1: K_ij / (d_i^alpha d_j^alpha), then row stochastic; new points use the row sums of the training points"""
    _alpha(v, None)


def _conj(v, alpha):
    n, p, A0, C0, ker, d, dc, M, N = _fixed(v, True, True, alpha)
    w = lambda i, j: A0[i, j] / (d(i) * d(j))
    wc = lambda i, j: C0[i, j] / (dc(i) * d(j))
    q = lambda i: v.sqrt(v.sum(n, lambda b: w(i, b)))
    B = ker.basis_change_matrix_
    i, j, k = v.int("i", 0, n - 1), v.int("j", 0, n - 1), v.int("k", 0, p - 1)
    v.prove("conjugate", M[i, j] * q(i) * q(j) == w(i, j))
    v.prove("symmetric", M[i, j] == M[j, i])
    v.prove("basis change", B[i, i] * q(i) == 1)
    v.prove("queries are row stochastic", v.sum(n, lambda b: N[k, b]) == 1)
    v.prove("queries", N[k, j] * v.sum(n, lambda b: wc(k, b)) == wc(k, j))
    v.fact("declared symmetric and conjugate", ker.is_symmetric is True and ker.is_conjugate is True)


def conj_one(v):
    """symmetrised kernel, alpha = 1: conjugate by the square roots of the row sums; queries row stochastic"""
    _conj(v, 1)


def conj_frac(v):
    """symmetrised kernel, 0 < alpha < 1"""
    _conj(v, None)


def reuse(v):
    """evaluating the training points as new points reproduces the (row stochastic) training kernel"""
    n = v.int("n", 1)
    A = v.symmetric("K", n, pos=True)
    A0, A1 = A.snapshot(), A.snapshot()
    alpha = v.real("alpha", pos=True)
    v.assume(alpha < 1)
    for sym in (False, True):
        ker = K().DmapKernelFixed(K().GaussianKernel(epsilon=1.0), alpha=alpha, symmetrize_kernel=sym)
        M = ker._eval_kernel_matrix(A0.copy(), is_pdist=True)
        N = ker._eval_kernel_matrix(A1.copy(), is_pdist=False)
        i, j = v.int("i", 0, n - 1), v.int("j", 0, n - 1)
        if sym:
            B = ker.basis_change_matrix_
            v.prove("conjugate of the training kernel", B[i, i] * M[i, j] == N[i, j] * B[j, j])
        else:
            v.prove("training kernel", M[i, j] == N[i, j])


def call(v):
    """through __call__ and evaluate: the normalised internal kernel of the requested pairs, queries in the rows"""
    n, p, d = v.int("n", 2), v.int("p", 1), v.int("d", 1)
    X, Y, e = v.array("X", (n, d)), v.array("Y", (p, d)), v.real("eps", pos=True)
    ker = K().DmapKernelFixed(K().GaussianKernel(epsilon=e), alpha=0, symmetrize_kernel=False)
    g = lambda A, i, j: v.exp(-v.sum(d, lambda q: (A[i, q] - X[j, q]) * (A[i, q] - X[j, q])) / (2 * e))
    M, N = ker(X), ker(X, Y)
    v.prove_eq("queries", N, v.arr_fn((p, n), lambda i, j: g(Y, i, j) / v.sum(n, lambda q: g(Y, i, q))))
    v.prove_eq("training points", M, v.arr_fn((n, n), lambda i, j: g(X, i, j) / v.sum(n, lambda q: g(X, i, q))))
    v.frame("points unchanged", X, Y)


def evaluate(v):
    """evaluation of given distances: the normalised internal kernel; the distances are unchanged"""
    n, p = v.int("n", 1), v.int("p", 1)
    D, C, e = v.symmetric("D", n, diag=0, nonneg=True), v.array("C", (p, n), nonneg=True), v.real("eps", pos=True)
    ker = K().DmapKernelFixed(K().GaussianKernel(epsilon=e), alpha=0, symmetrize_kernel=False)
    g = lambda A, i, j: v.exp(-A[i, j] / (2 * e))
    v.prove_eq("training points", ker.evaluate(D, is_pdist=True), v.arr_fn((n, n), lambda i, j: g(D, i, j) / v.sum(n, lambda q: g(D, i, q))))
    v.prove_eq("queries", ker.evaluate(C), v.arr_fn((p, n), lambda i, j: g(C, i, j) / v.sum(n, lambda q: g(C, i, q))))
    v.frame("distances unchanged", D, C)


def shape_guard(v):
    """new points against another number of reference points are refused"""
    n, m, p = v.int("n", 1), v.int("m", 1), v.int("p", 1)
    A, C = v.symmetric("K", n, pos=True), _pos(v, "C", (p, m))
    ker = K().DmapKernelFixed(K().GaussianKernel(epsilon=1.0), alpha=1)
    ker._eval_kernel_matrix(A, is_pdist=True)
    v.raises("shape", ValueError, n != m, lambda: ker._eval_kernel_matrix(C, is_pdist=False))


def alpha_guard(v):
    """alpha outside [0, 1] is refused"""
    a = v.real("alpha")
    v.raises("fixed", ValueError, v.or_(a < 0, a > 1), lambda: K().DmapKernelFixed(K().GaussianKernel(epsilon=1.0), alpha=a))
    v.raises("roseland", ValueError, v.or_(a < 0, a > 1), lambda: K().RoselandKernel(K().GaussianKernel(epsilon=1.0), alpha=a))


def roseland(v):
    """Roseland kernel: D^(-1/2) K with D = diag of the row sums of K K^T; the landmark sums of the fit are reused"""
    n, m, p = v.int("n", 1), v.int("m", 1), v.int("p", 1)
    A, C = _pos(v, "K", (n, m)), _pos(v, "C", (p, m))
    A0, C0 = A.snapshot(), C.snapshot()
    ker = K().RoselandKernel(K().GaussianKernel(epsilon=1.0), alpha=0)
    M = ker._eval_kernel_matrix(A)
    s = lambda j: v.sum(n, lambda i: A0[i, j])
    z = lambda X, i: v.sqrt(v.sum(m, lambda j: X[i, j] * s(j)))
    v.prove_eq("kernel", M, v.arr_fn((n, m), lambda i, j: A0[i, j] / z(A0, i)))
    v.prove_eq("normalisation", ker.normalize_diagonal_, v.arr_fn((n,), lambda i: 1 / z(A0, i)))
    N = ker._eval_kernel_matrix(C)
    v.prove_eq("queries", N, v.arr_fn((p, m), lambda i, j: C0[i, j] / z(C0, i)))


def _roseland_density(v, alpha):
    n, m, p = v.int("n", 1), v.int("m", 1), v.int("p", 1)
    A, C = _pos(v, "K", (n, m)), _pos(v, "C", (p, m))
    A0, C0 = A.snapshot(), C.snapshot()
    if alpha is None:
        alpha = v.real("alpha", pos=True)
        v.assume(alpha < 1)
    ker = K().RoselandKernel(K().GaussianKernel(epsilon=1.0), alpha=alpha)
    M = ker._eval_kernel_matrix(A)
    power = lambda x: x if alpha == 1 else v.pow(x, alpha)
    col = lambda j: power(v.sum(n, lambda i: A0[i, j]))
    w = lambda X: (lambda i, j: X[i, j] / (power(v.sum(m, lambda q: X[i, q])) * col(j)))
    s = lambda j: v.sum(n, lambda i: w(A0)(i, j))
    z = lambda X, i: v.sqrt(v.sum(m, lambda j: w(X)(i, j) * s(j)))
    i, j, q = v.int("i", 0, n - 1), v.int("j", 0, m - 1), v.int("q", 0, p - 1)
    v.prove("kernel", M[i, j] * z(A0, i) == w(A0)(i, j))
    N = ker._eval_kernel_matrix(C)
    v.prove("queries", N[q, j] * z(C0, q) == w(C0)(q, j))


def roseland_density(v):
    """Roseland kernel with alpha = 1: first divided by data density and landmark density"""
    _roseland_density(v, 1)


def roseland_density_frac(v):
    """Roseland kernel with 0 < alpha < 1: first divided by data density^alpha and landmark density^alpha"""
    _roseland_density(v, None)


CONTRACTS = [stochastic, conjugate, plain, alpha_zero, alpha_one, alpha_frac, conj_one, conj_frac, reuse, call, evaluate, shape_guard, alpha_guard, roseland, roseland_density, roseland_density_frac]

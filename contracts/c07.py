"""C07 kernel formulas"""
import numpy as np


def K():
    from datafold.pcfold import kernels
    return kernels


def _radial(v, make, formula, square=True):
    k, b = v.int("k", 1), v.int("m", 1)
    D = v.array("D", (k, b), nonneg=True)
    ker, f = make(v), None
    M = ker.evaluate(D)
    v.prove_eq("formula", M, v.arr_fn((k, b), lambda i, j: formula(D[i, j], ker)))
    v.frame("distances unchanged", D)
    # through __call__: the kernel of the distances of the requested pairs, queries in the rows
    n, d = v.int("n", 2), v.int("d", 1)
    X, Y = v.array("X", (n, d)), v.array("Y", (k, d))
    ker = make(v)
    dist = (lambda s: s) if ker.metric == "sqeuclidean" else v.sqrt
    v.prove_eq("cdist formula", ker(X, Y), v.arr_fn((k, n), lambda i, j: formula(dist(v.sum(d, lambda q: (Y[i, q] - X[j, q]) * (Y[i, q] - X[j, q]))), ker)))
    P = ker(X)
    i, j = v.int("i", 0, n - 1), v.int("j", 0, n - 1)
    v.prove("pdist formula", v.or_(i == j, P[i, j] == formula(dist(v.sum(d, lambda q: (X[i, q] - X[j, q]) * (X[i, q] - X[j, q]))), ker)))
    v.prove("pdist diagonal", P[i, i] == formula(v.num(0), ker))
    v.prove("pdist symmetric", P[i, j] == P[j, i])
    v.frame("points unchanged", X, Y)


def _eps(v):
    return v.real("eps", pos=True)


def gaussian(v):
    """exp(-d^2 / (2 eps))"""
    e = _eps(v)
    _radial(v, lambda v: K().GaussianKernel(epsilon=e), lambda s, k: v.exp(-s / (2 * e)))


def multiquadric(v):
    """sqrt(d^2 / (2 eps) + 1)"""
    e = _eps(v)
    _radial(v, lambda v: K().MultiquadricKernel(epsilon=e), lambda s, k: v.sqrt(s / (2 * e) + 1))


def inverse_multiquadric(v):
    """1 / sqrt(d^2 / (2 eps) + 1)"""
    e = _eps(v)
    _radial(v, lambda v: K().InverseMultiquadricKernel(epsilon=e), lambda s, k: 1 / v.sqrt(s / (2 * e) + 1))


def inverse_quadratic(v):
    """1 / (d^2 / (2 eps) + 1)"""
    e = _eps(v)
    _radial(v, lambda v: K().InverseQuadraticKernel(epsilon=e), lambda s, k: 1 / (s / (2 * e) + 1))


def cubic(v):
    """d^3"""
    _radial(v, lambda v: K().CubicKernel(), lambda s, k: s * s * s)


def quintic(v):
    """d^5"""
    _radial(v, lambda v: K().QuinticKernel(), lambda s, k: s * s * s * s * s)


def thinplate(v):
    """d^2 log d, continued by 0 in d = 0"""
    _radial(v, lambda v: K().ThinplateKernel(), lambda s, k: v.ite(s == 0, 0.0, s * s * v.log(s)))


CONTRACTS = [gaussian, multiquadric, inverse_multiquadric, inverse_quadratic, cubic, quintic, thinplate]


def kth_neighbor(v):
    """_kth_nearest_neighbor_dist: the k-th smallest entry of every row; k outside 1..columns refused"""
    n, m, k = v.int("n", 1), v.int("m", 1), v.int("k")
    D = v.array("D", (n, m), nonneg=True)
    r = v.raises("k", ValueError, v.or_(k < 1, k > m), lambda: K()._kth_nearest_neighbor_dist(D, k))
    S = v.lib(np.sort, D, axis=1)
    v.prove_eq("order statistic", r, v.arr_fn((n,), lambda i: S[i, k - 1]))
    v.frame("unchanged", D)


def _pos(v, name, n):
    return v.array(name, (n,), pos=True)


def division(v):
    """_symmetric_matrix_division: M_ij / (l_i r_j) / scalar for non-symmetric problems"""
    n, m = v.int("n", 1), v.int("m", 1)
    M, l, r, s = v.array("M", (n, m)), _pos(v, "l", n), _pos(v, "r", m), v.real("s", pos=True)
    M0 = M.snapshot()
    R = K()._symmetric_matrix_division(M, l, is_symmetric=False, vec_right=r, scalar=s)
    v.prove_eq("quotient", R, v.arr_fn((n, m), lambda i, j: M0[i, j] / (l[i] * r[j]) / s))
    v.frame("vectors unchanged", l, r)


def division_symmetric(v):
    """_symmetric_matrix_division: the symmetric part of M_ij / (l_i l_j), hence M_ij / (l_i l_j) for symmetric M"""
    n = v.int("n", 1)
    M, l = v.array("M", (n, n)), _pos(v, "l", n)
    M0 = M.snapshot()
    R = K()._symmetric_matrix_division(M, l, is_symmetric=True)
    v.prove_eq("quotient", R, v.arr_fn((n, n), lambda i, j: (M0[i, j] + M0[j, i]) / (2 * l[i] * l[j])))
    i, j = v.int("i", 0, n - 1), v.int("j", 0, n - 1)
    v.prove("symmetric", R[i, j] == R[j, i])
    v.frame("vectors unchanged", l)


def division_zero(v):
    """a zero in the divisors is refused"""
    n, m = v.int("n", 1), v.int("m", 1)
    M, l, r = v.array("M", (n, m)), v.array("l", (n,)), v.array("r", (m,))
    v.raises("zero", ZeroDivisionError, v.not_(v.and_(v.forall(n, lambda i: l[i] != 0), v.forall(m, lambda j: r[j] != 0))),
             lambda: K()._symmetric_matrix_division(M, l, is_symmetric=False, vec_right=r))


CONTRACTS += [kth_neighbor, division, division_symmetric, division_zero]


def bandwidth(v):
    """a bandwidth that is not positive is refused by every radial kernel with a scale"""
    n = v.int("n", 1)
    D, e = v.array("D", (n, n), nonneg=True), v.real("eps")
    for cls in ("GaussianKernel", "MultiquadricKernel", "InverseMultiquadricKernel", "InverseQuadraticKernel"):
        v.raises(cls, ValueError, e <= 0, lambda: getattr(K(), cls)(epsilon=e).evaluate(D))


def continuous_nn(v):
    """entry = (d_ij < delta sqrt(r_i r_j)) with r the distance to the k-th neighbour; reference radii reused for new points"""
    n, p, k = v.int("n", 2), v.int("p", 1), v.int("k", 1)
    delta = v.real("delta", pos=True)
    D = v.symmetric("D", n, diag=0, nonneg=True)
    C = v.array("C", (p, n), nonneg=True)
    i, j = v.int("i", 0, n - 1), v.int("j", 0, n - 1)
    v.assume(k < n)
    S, T = v.lib(np.sort, D, axis=1), v.lib(np.sort, C, axis=1)
    ker = K().ContinuousNNKernel(k_neighbor=k, delta=delta)
    M = v.unless(ZeroDivisionError, lambda: ker.evaluate(D, is_pdist=True))
    r = lambda a: v.sqrt(S[a, k - 1])
    v.prove("pdist", v.iff(M[i, j], D[i, j] / (r(i) * r(j)) < delta))
    M2 = v.unless(ZeroDivisionError, lambda: ker.evaluate(C, is_pdist=False))
    q = v.int("q", 0, p - 1)
    v.prove("cdist", v.iff(M2[q, j], C[q, j] / (v.sqrt(T[q, k - 1]) * r(j)) < delta))
    v.frame("distances unchanged", D, C)


def _dvar(v, sym):
    n, k, d = v.int("n", 3), v.int("k", 1), v.int("d", 1)
    eps, beta = v.real("eps", pos=True), v.real("beta")
    v.assume(k < n)
    D = v.symmetric("D", n, diag=0, nonneg=True)
    a = -d / 4
    v.assume(0.5 - 2 * a + 2 * d * a + d * beta / 2 + beta < 0)
    # the division contract covers scalar == 1; here the generic case
    S0 = v.lib(np.sort, v.lib(np.sqrt, D), axis=1)
    m0 = v.sum(n, lambda i: v.sqrt(v.sum(k, lambda q: S0[i, q + 1] * S0[i, q + 1]) / k)) / n
    v.assume(2 * m0 * m0 != 1)
    ker = K().DmapKernelVariable(epsilon=eps, k=k, expected_dim=d, beta=beta, symmetrize_kernel=sym)
    L, B, rho0, rho, q0, qe = v.unless(ZeroDivisionError, lambda: ker.evaluate(D))
    S = v.lib(np.sort, v.lib(np.sqrt, D), axis=1)
    w_rho0 = v.arr_fn((n,), lambda i: v.sqrt(v.sum(k, lambda q: S[i, q + 1] * S[i, q + 1]) / k))
    v.prove_eq("rho0", rho0, w_rho0)
    return n, D, eps, beta, a, d, k, L, B, rho0, rho, q0, qe


def dmap_variable(v):
    """variable bandwidth kernel: local scales, density estimates and the row operator"""
    n, D, eps, beta, a, d, k, L, B, rho0, rho, q0, qe = _dvar(v, False)
    _dvar_steps(v, n, D, eps, beta, a, d, rho0, rho, q0, qe)
    e = lambda i, j: v.exp(D[i, j] / (rho[i] * rho[j] * (-4 * eps))) / (v.pow(qe[i], a) * v.pow(qe[j], a))
    v.prove_eq("operator", L, v.arr_fn((n, n), lambda i, j: (e(i, j) - v.ite(i == j, 1.0, 0.0)) / (eps * rho[i] * rho[i])))
    v.fact("no basis change", B is None)
    v.frame("distances unchanged", D)


def _dvar_steps(v, n, D, eps, beta, a, d, rho0, rho, q0, qe):
    mean = v.sum(n, lambda i: rho0[i]) / n
    two_pi_eps = 2 * np.pi * mean * mean
    v.prove_eq("q0", q0, v.arr_fn((n,), lambda i: v.pow(two_pi_eps, -d / 2) / (v.pow(rho0[i], d) * n)
                                  * v.sum(n, lambda j: v.exp(-D[i, j] / (rho0[i] / mean * rho0[j] / mean) / (2 * mean * mean)))))
    mq = v.sum(n, lambda i: v.pow(q0[i], beta)) / n
    v.prove_eq("rho", rho, v.arr_fn((n,), lambda i: v.pow(q0[i], beta) / mq))
    v.prove_eq("q_eps", qe, v.arr_fn((n,), lambda i: v.sum(n, lambda j: v.exp(D[i, j] / (rho[i] * rho[j] * (-4 * eps)))) / v.pow(rho[i], d)))


def dmap_variable_symmetric(v):
    """variable bandwidth kernel: the symmetric conjugate of the operator and its basis change"""
    n, D, eps, beta, a, d, k, L, B, rho0, rho, q0, qe = _dvar(v, True)
    e = lambda i, j: v.exp(D[i, j] / (rho[i] * rho[j] * (-4 * eps))) / (v.pow(qe[i], a) * v.pow(qe[j], a))
    s = lambda i: rho[i] * v.sqrt(v.sum(n, lambda j: e(i, j)))
    v.prove_eq("basis change", B, v.arr_fn((n, n), lambda i, j: v.ite(i == j, 1 / s(i), 0.0)))
    i, j = v.int("i", 0, n - 1), v.int("j", 0, n - 1)
    v.assume(i < j)
    v.prove("operator", L[i, j] == B[i, i] * e(i, j) * B[j, j])
    v.prove("operator transposed", L[j, i] == B[i, i] * e(i, j) * B[j, j])
    v.prove("operator diagonal", L[i, i] == B[i, i] * e(i, i) * B[i, i] - 1 / (rho[i] * rho[i]) + 1)


CONTRACTS += [bandwidth, continuous_nn, dmap_variable]
THOROUGH = [dmap_variable_symmetric]


def cone_angle(v):
    """1 - zeta cos^2(theta) with cos(theta) = <xi_i, x_j - y_i> / (|xi_i| |x_j - y_i|), and the distances"""
    n, p, d = v.int("n", 1), v.int("p", 1), v.int("d", 1)
    X, Y, XI, N = v.array("X", (n, d)), v.array("Y", (p, d)), v.array("XI", (p, d)), v.array("N", (p,), nonneg=True)
    z = v.real("zeta", nonneg=True)
    ker = K().ConeKernel(zeta=z)
    C, D = ker._compute_distance_and_cosinus_matrix(Y, XI, N, X_numpy=X)
    dist = lambda i, j: v.sqrt(v.sum(d, lambda q: (X[j, q] - Y[i, q]) * (X[j, q] - Y[i, q])))
    v.prove_eq("distance", D, v.arr_fn((p, n), dist))
    i, j = v.int("i", 0, p - 1), v.int("j", 0, n - 1)
    c = v.sum(d, lambda q: XI[i, q] * (X[j, q] - Y[i, q])) / (N[i] * dist(i, j))
    v.prove("cone factor", v.or_(N[i] * dist(i, j) <= 1e-14, C[i, j] == 1 - z * c * c))
    v.frame("data unchanged", X, Y, XI, N)



"""C13 online and streaming dynamic mode decomposition"""
import types

import numpy as np


def D():
    from datafold.dynfold import dmd
    return dmd


class Batch:
    """what partial_fit reads of a collection: the snapshot pairs (their contract is C03)"""

    _vc_sym = True

    def __init__(self, Xm, Xp, n=None):
        self.Xm, self.Xp = Xm, Xp  # snapshots in columns
        self.asked = []
        self.delta_time, self.shape, self.empty = "dt", (None, n), False

        def shift_matrices(*, snapshot_orientation="col", validate=True):
            self.asked.append(snapshot_orientation)
            return (Xm, Xp) if snapshot_orientation == "col" else (Xm.T, Xp.T)

        self.tsc = types.SimpleNamespace(shift_matrices=shift_matrices)


def _quiet(m):
    """validation of collection, feature names and sampling interval: contracts of C01 and C14"""
    m._validate_datafold_data = lambda *a, **k: a[0] if a else k.get("X")
    m._validate_and_setup_fit_attrs = lambda *a, **k: None
    m._validate_feature_names = lambda *a, **k: None
    m._validate_delta_time = lambda *a, **k: None
    return m


def _online(v, weighting=1.0, **kw):
    """an arbitrary state with P = M^-1 and A M = C (M: weighted sum of x x^T, C: weighted sum of y x^T, with the
    initial ghost pairs)"""
    from vc.models import contraction
    from vc.terms import app, const, eq, ite
    n = v.int("n", 1)
    m = _quiet(D().OnlineDMD(weighting=weighting, **kw))
    M, P, A, C = v.symmetric("M", n), v.symmetric("P", n), v.array("A", (n, n)), v.array("C", (n, n))
    delta = lambda i, j: ite(eq(i, j), const(1, "R"), const(0, "R"))
    v.rule(contraction([(P.fname, 1, False), (M.fname, 0, False)], lambda bd, a, b: delta(a[0], b[0])))
    v.rule(contraction([(A.fname, 1, False), (M.fname, 0, False)], lambda bd, a, b: app(C.fname, (a[0], b[0]), "R")))
    m.A, m._P, m.timestep_, m.n_features_in_ = A, P, 0, 10**6
    return m, n, M, P, A, C


def _positive(v, n, P, x):
    """P is positive definite (inverse of a Gram matrix): x^T P x >= 0"""
    v.assume(v.sum(n, lambda a: v.sum(n, lambda b: P[a, b] * x(a) * x(b))) >= 0)


def _updated(v, m, n, M2, C2, P2M2, rho):
    i, j = v.int("i", 0, n - 1), v.int("j", 0, n - 1)
    v.prove("A M = C with the new pair", v.sum(n, lambda q: m.A[i, q] * M2(q, j)) == C2(i, j))
    v.prove("P (weighting M) = I with the new pair", v.sum(n, lambda q: m._P[i, q] * M2(q, j)) * rho == v.ite(i == j, 1.0, 0.0))
    v.prove("P symmetric", m._P[i, j] == m._P[j, i])


def online_update(v):
    """one snapshot pair (x, y) from an arbitrary state: the normal equations of the data seen so far hold again,
    A' (M + x x^T) = C + y x^T and P' = (weighting (M + x x^T))^-1"""
    rho = v.real("weighting")
    v.assume(rho > 0)
    v.assume(rho <= 1)
    m, n, M, P, A, C = _online(v, 1.0)
    m.weighting = rho
    x, y = v.array("x", (n, 1)), v.array("y", (n, 1))
    _positive(v, n, P, lambda a: x[a, 0])
    v.fact("returns the model", m.partial_fit(Batch(x, y, n)) is m)
    _updated(v, m, n, lambda q, j: M[q, j] + x[q, 0] * x[j, 0], lambda i, j: C[i, j] + y[i, 0] * x[j, 0], None, rho)
    v.prove_eq("pairs counted", m.timestep_, 1)
    v.frame("data unchanged", x, y)


CONTRACTS = [online_update]


def online_two_updates(v):
    """two snapshot pairs in one call, the first discounted by the weighting"""
    rho = v.real("weighting")
    v.assume(rho > 0)
    v.assume(rho <= 1)
    m, n, M, P, A, C = _online(v, 1.0)
    m.weighting = rho
    x, y = v.array("x", (n, 2)), v.array("y", (n, 2))
    v.assume(v.sum(n, lambda a: v.sum(n, lambda b: P[a, b] * x[a, 0] * x[b, 0])) >= 0)
    m.partial_fit(Batch(x, y, n))
    _updated(v, m, n, lambda q, j: rho * (M[q, j] + x[q, 0] * x[j, 0]) + x[q, 1] * x[j, 1],
             lambda i, j: rho * (C[i, j] + y[i, 0] * x[j, 0]) + y[i, 1] * x[j, 1], None, rho)
    v.frame("data unchanged", x, y)


CONTRACTS += [online_two_updates]


def online_batch(v):
    """initial batch without forgetting: A and P solve the normal equations of all pairs"""
    from vc.models import contraction
    from vc.terms import app
    v.e.normal_equations = True
    n, s = v.int("n", 1), v.int("s", 1)
    m = _quiet(D().OnlineDMD(weighting=1.0))
    m.n_features_in_ = 10**6
    Xm, Xp = v.array("Xm", (s, n)), v.array("Xp", (s, n))
    pin = v.lib(np.linalg.pinv, Xm)
    # X^T X pinv(X) = X^T as two contractions: X pinv(X) is the projection on the range of X
    v.rule(contraction([(Xm.fname, 1, False), (pin.fname, 0, False)], lambda bd, a, b: app("Proj", (a[0], b[0]), "R")))
    v.rule(contraction([(Xm.fname, 0, False), ("Proj", 0, False)], lambda bd, a, b: app(Xm.fname, (b[0], a[0]), "R")))
    m.fit(Batch(Xm.T, Xp.T, n))
    i, j = v.int("i", 0, n - 1), v.int("j", 0, n - 1)
    M = lambda q, j: v.sum(s, lambda t: Xm[t, q] * Xm[t, j])
    v.prove("A M = C", v.sum(n, lambda q: m.A[i, q] * M(q, j)) == v.sum(s, lambda t: Xp[t, i] * Xm[t, j]))
    v.instantiate(i, j)
    v.prove("M (M P - I) = 0", v.sum(n, lambda p: M(i, p) * v.sum(n, lambda q: M(p, q) * m._P[q, j])) == M(i, j))
    v.prove_eq("pairs counted", m.timestep_, s)
    v.frame("data unchanged", Xm, Xp)


def online_spectral(v):
    """the spectral components are those of the current matrix, left eigenvectors on request"""
    v.e.normal_equations = True
    n = v.int("n", 1)
    A = v.array("A", (n, n))
    diag = bool(v.split(v.bool("diag")))
    m = D().OnlineDMD(is_diagonalize=diag, with_warm_up=False)
    m.A = A
    lam, V, L = m._compute_spectral_components()
    i, j = v.int("i", 0, n - 1), v.int("j", 0, n - 1)
    v.prove("A V = V diag(lam)", v.sum(n, lambda q: A[i, q] * V[q, j]) == V[i, j] * lam[j])
    v.fact("left eigenvectors on request", (L is not None) == diag)
    v.frame("matrix unchanged", A)


def online_ready(v):
    """predictions are refused until 2 n pairs were seen, unless the warm-up is switched off"""
    n, t = v.int("n", 1), v.int("t", 0)
    m = D().OnlineDMD(with_warm_up=True)
    m.timestep_, m.n_features_in_ = t, n
    v.prove("ready after 2 n pairs", v.iff(m.ready_, t >= 2 * n))
    m.A = v.array("A", (n, n))
    v.raises("spectral components", ValueError, t < 2 * n, lambda: m._compute_spectral_components())


CONTRACTS += [online_batch, online_spectral, online_ready]


def _streaming(v):
    n, r, q = v.int("n", 1), v.int("rx", 1), v.int("ry", 1)
    m = _quiet(D().StreamingDMD())
    m._Qx, m._Qy = v.array("Qx", (n, r)), v.array("Qy", (n, q))
    m._Gx, m._Gy, m.A = v.array("Gx", (r, r)), v.array("Gy", (q, q)), v.array("A", (q, r))
    return m, n, r, q


def _orthonormal(v, *Qs):
    from vc.models import ortho_rules
    for Q in Qs:
        Q.fvars = ()
        ortho_rules(Q)


def streaming_update(v):
    """one pair in the coordinates of the bases: A += y~ x~^T, Gx += x~ x~^T, Gy += y~ y~^T"""
    m, n, r, q = _streaming(v)
    Qx, Qy, Gx, Gy, A = m._Qx, m._Qy, m._Gx.snapshot(), m._Gy.snapshot(), m.A.snapshot()
    x, y = v.array("x", (n,)), v.array("y", (n,))
    m._update_sys_matrix(x, y)
    xt = lambda a: v.sum(n, lambda p: Qx[p, a] * x[p])
    yt = lambda a: v.sum(n, lambda p: Qy[p, a] * y[p])
    v.prove_eq("A", m.A, v.arr_fn((q, r), lambda a, b: A[a, b] + yt(a) * xt(b)))
    v.prove_eq("Gx", m._Gx, v.arr_fn((r, r), lambda a, b: Gx[a, b] + xt(a) * xt(b)))
    v.prove_eq("Gy", m._Gy, v.arr_fn((q, q), lambda a, b: Gy[a, b] + yt(a) * yt(b)))
    v.frame("pair and bases unchanged", x, y, Qx, Qy)


def _inv_residual(v, n, Q, z, d):
    co = lambda a: v.sum(n, lambda p: Q[p, a] * z[p])
    v.inv(lambda k, i: v.ite(k > 0, z[i] - v.sum(d, lambda a: Q[i, a] * co(a)), z[i]))
    v.inv(lambda k, a: v.ite(k > 0, co(a), 0.0))


def streaming_residual(v):
    """Gram-Schmidt: the residuals are orthogonal to the orthonormal bases and differ from the pair by elements of
    their ranges"""
    m, n, r, q = _streaming(v)
    _orthonormal(v, m._Qx, m._Qy)
    x, y = v.array("x", (n,)), v.array("y", (n,))
    m.ngram = v.int("ngram", 1)
    for Q, z, d in ((m._Qx, x, r), (m._Qy, y, q)):
        _inv_residual(v, n, Q, z, d)
    em, ep = m._gram_schmidt(x, y)
    for nm, e, Q, z, d in (("x", em, m._Qx, x, r), ("y", ep, m._Qy, y, q)):
        v.prove_eq(f"{nm} - Q Q^T {nm}", e, v.arr_fn((n,), lambda i: z[i] - v.sum(d, lambda a: Q[i, a] * v.sum(n, lambda p: Q[p, a] * z[p]))))
        a = v.int(f"a{nm}", 0, d - 1)
        v.prove(f"{nm} orthogonal to the basis", v.sum(n, lambda p: Q[p, a] * e[p]) == 0)
    v.frame("pair and bases unchanged", x, y, m._Qx, m._Qy)


def streaming_basis(v):
    """a residual above the tolerance is appended, normalised, to its basis; the accumulated matrices are the same
    operators in the larger bases"""
    m, n, r, q = _streaming(v)
    Qx, Qy, Gx, Gy, A = m._Qx, m._Qy, m._Gx, m._Gy, m.A
    em, ep = v.array("em", (n,)), v.array("ep", (n,))
    nm, np_ = v.real("nm"), v.real("np")
    v.assume(nm > 0)
    v.assume(np_ > 0)
    m._increase_basis(em, nm, ep, np_)
    for name, Q0, Q, G0, G, e, nrm, d in (("x", Qx, m._Qx, Gx, m._Gx, em, nm, r), ("y", Qy, m._Qy, Gy, m._Gy, ep, np_, q)):
        ne = v.sqrt(v.sum(n, lambda p: e[p] * e[p]))
        k = Q.shape[1]
        v.prove(f"{name}: one more direction above the tolerance", v.or_(v.and_(ne / nrm > m.incr_basis_tol, k == d + 1), v.and_(v.not_(ne / nrm > m.incr_basis_tol), k == d)))
        v.prove_eq(f"{name}: basis", Q, v.arr_fn((n, k), lambda i, a: v.ite(a < d, Q0[i, a], e[i] / ne)))
        v.prove_eq(f"{name}: matrix", G, v.arr_fn((k, k), lambda a, b: v.ite(v.and_(a < d, b < d), G0[a, b], 0.0)))
    v.prove_eq("A rows", m.A.shape[0], m._Qy.shape[1])
    v.prove_eq("A columns", m.A.shape[1], m._Qx.shape[1])
    v.prove_eq("A", m.A, v.arr_fn(m.A.shape, lambda a, b: v.ite(v.and_(a < q, b < r), A[a, b], 0.0)))
    v.frame("inputs unchanged", em, ep, Qx, Qy, Gx, Gy, A)


def streaming_matrix(v):
    """the reduced matrix solves K Gx = Qx^T Qy A (stated as (K Gx - Qx^T Qy A) Gx^T = 0)"""
    v.e.normal_equations = True
    m, n, r, q = _streaming(v)
    K = m._compute_koopman_matrix()
    v.prove_eq("rows", K.shape[0], r)
    v.prove_eq("columns", K.shape[1], r)
    i, j = v.int("i", 0, r - 1), v.int("j", 0, r - 1)
    v.instantiate(i, j)
    v.instantiate(j, i)
    B = lambda a, b: v.sum(n, lambda p: v.sum(q, lambda c: m._Qx[p, a] * m._Qy[p, c] * m.A[c, b]))
    v.prove("K Gx Gx^T = Qx^T Qy A Gx^T", v.sum(r, lambda p: v.sum(r, lambda s: K[i, s] * m._Gx[s, p]) * m._Gx[j, p]) == v.sum(r, lambda p: B(i, p) * m._Gx[j, p]))
    v.frame("state unchanged", m._Qx, m._Qy, m._Gx, m.A)


def streaming_spectral(v):
    """modes: Qx W with K W = W diag(lam)"""
    m, n, r, q = _streaming(v)
    _orthonormal(v, m._Qx)
    K = v.array("K", (r, r))
    m._compute_koopman_matrix = lambda: K
    Phi, lam = m._compute_spectral_components()
    i, j = v.int("i", 0, n - 1), v.int("j", 0, r - 1)
    v.prove_eq("one value per direction", lam.shape[0], r)
    v.prove("(Qx K Qx^T) Phi = Phi diag(lam)", v.sum(r, lambda p: v.sum(r, lambda s: m._Qx[i, s] * K[s, p]) * v.sum(n, lambda t: m._Qx[t, p] * Phi[t, j])) == Phi[i, j] * lam[j])
    v.frame("state unchanged", m._Qx, K)


CONTRACTS += [streaming_update, streaming_residual, streaming_basis, streaming_matrix, streaming_spectral]


def _compression(v, which):
    n, d, o = v.int("n", 1), v.int("d", 2), v.int("o", 1)
    r = v.int("r", 1)
    v.assume(d > r)
    v.assume(o <= r)  # the other basis stays below the rank
    m = _quiet(D().StreamingDMD())
    m.max_rank = r
    G = v.symmetric("G", d)
    Q = v.array("Q", (n, d))
    _orthonormal(v, Q)
    Qo, Go = v.array("Qo", (n, o)), v.array("Go", (o, o))
    if which == "x":
        A = v.array("A", (o, d))
        m._Qx, m._Gx, m._Qy, m._Gy, m.A = Q, G, Qo, Go, A
    else:
        A = v.array("A", (d, o))
        m._Qx, m._Gx, m._Qy, m._Gy, m.A = Qo, Go, Q, G, A
    m._pod_compression()
    Q2, G2, O2, P2 = (m._Qx, m._Gx, m._Qy, m._Gy) if which == "x" else (m._Qy, m._Gy, m._Qx, m._Gx)
    v.prove_eq("directions", Q2.shape[1], r)
    i, j, k = v.int("i", 0, n - 1), v.int("j", 0, r - 1), v.int("k", 0, r - 1)
    F = lambda a, j: v.sum(n, lambda p: Q[p, a] * Q2[p, j])  # coordinates in the old basis
    v.prove("in the range of the old basis", v.sum(d, lambda a: Q[i, a] * F(a, j)) == Q2[i, j])
    a = v.int("a", 0, d - 1)
    v.prove("eigenvectors of the energy matrix", v.sum(d, lambda b: G[a, b] * F(b, j)) == F(a, j) * G2[j, j])
    v.prove("energy matrix is diagonal", v.implies(v.not_(j == k), G2[j, k] == 0))
    w = v.lib(np.linalg.eig, G)[0]
    v.prove("largest energies, decreasing", G2[j, j] == w[v.lib(np.argsort, w)[d - 1 - j]])
    b = v.int("b", 0, o - 1)
    if which == "x":
        v.prove("A in the new coordinates", m.A[b, j] == v.sum(d, lambda a: A[b, a] * F(a, j)))
    else:
        v.prove("A in the new coordinates", m.A[j, b] == v.sum(d, lambda a: F(a, j) * A[a, b]))
    v.fact("other basis untouched", O2 is Qo and P2 is Go)
    v.frame("inputs unchanged", Q, G, Qo, Go, A)


def streaming_compression_x(v):
    """compression of the input basis: the eigenvectors of the energy matrix with the largest eigenvalues"""
    _compression(v, "x")


def streaming_compression_y(v):
    """compression of the output basis"""
    _compression(v, "y")


def streaming_no_compression(v):
    """no compression up to the maximal rank, or without one"""
    m, n, r, q = _streaming(v)
    k = v.int("k", 1)
    m.max_rank = k if v.split(v.bool("limit")) else None
    if m.max_rank is not None:
        v.assume(r <= k)
        v.assume(q <= k)
    old = m._Qx, m._Qy, m._Gx, m._Gy, m.A
    m._pod_compression()
    v.fact("state untouched", all(a is b for a, b in zip(old, (m._Qx, m._Qy, m._Gx, m._Gy, m.A))))
    v.frame("state unchanged", *old)


def streaming_initial(v):
    """the first pair: bases are the normalised snapshots; Qx Gx Qx^T = x x^T, Qy A Qx^T = y x^T"""
    n = v.int("n", 1)
    m = _quiet(D().StreamingDMD())
    X = v.array("X", (2, n))

    class Row:
        def __init__(self, k):
            self.k = k

        def to_numpy(self):
            return X[self.k]

    class Pair:
        n_timesteps = 2

        @property
        def iloc(self):
            return type("I", (), {"__getitem__": lambda s, key: Row(key[0])})()

        def to_numpy(self):
            return X

    got = {}
    m._compute_spectral_components = lambda: ("V", "lam")
    m.setup_spectral_system = lambda **kw: got.update(kw)
    n0, n1 = (v.sum(n, lambda p, k=k: X[k, p] * X[k, p]) for k in (0, 1))
    v.assume(n0 > 0)
    v.assume(n1 > 0)
    m.fit(Pair())
    v.fact("spectral system", got == {"eigenvectors_right": "V", "eigenvalues": "lam"})
    i, j = v.int("i", 0, n - 1), v.int("j", 0, n - 1)
    v.prove("Qx Gx Qx^T = x x^T", m._Qx[i, 0] * m._Gx[0, 0] * m._Qx[j, 0] == X[0, i] * X[0, j])
    v.prove("Qy Gy Qy^T = y y^T", m._Qy[i, 0] * m._Gy[0, 0] * m._Qy[j, 0] == X[1, i] * X[1, j])
    v.prove("Qy A Qx^T = y x^T", m._Qy[i, 0] * m.A[0, 0] * m._Qx[j, 0] == X[1, i] * X[0, j])
    v.prove("Qx normalised", v.sum(n, lambda p: m._Qx[p, 0] * m._Qx[p, 0]) == 1)
    v.prove("Qy normalised", v.sum(n, lambda p: m._Qy[p, 0] * m._Qy[p, 0]) == 1)
    v.frame("data unchanged", X)


CONTRACTS += [streaming_compression_x, streaming_compression_y, streaming_no_compression, streaming_initial]

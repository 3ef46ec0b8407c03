"""C09 eigensolver, diffusion maps, Roseland"""
import numpy as np


def M():
    from datafold.dynfold import dmap
    return dmap


def ES():
    from datafold.pcfold import eigsolver
    return eigsolver


class Kernel:
    """what the eigensolver reads of a kernel object"""

    def __init__(self, symmetric, stochastic=False, basis_change=None):
        self.is_symmetric = self._is_symmetric_kernel = symmetric
        self.is_stochastic = stochastic
        self.basis_change_matrix_ = basis_change


def _pairs(v, n, k, A, lam, V, unit=False):
    v.prove_eq("number of values", lam.shape[0], k)
    v.prove_eq("number of vectors", V.shape[1], k)
    i, j = v.int("i", 0, n - 1), v.int("j", 0, k - 1)
    v.prove("A v = lam v", v.sum(n, lambda q: A[i, q] * V[q, j]) == lam[j] * V[i, j])
    a, b = v.int("a", 0, k - 1), v.int("b", 0, k - 1)
    v.prove("decreasing values", v.or_(a > b, lam[a] >= lam[b]))


def full_symmetric(v):
    """all pairs of a symmetric matrix: A v = lam v, decreasing, the matrix is unchanged"""
    n = v.int("n", 1)
    A = v.symmetric("A", n)
    lam, V = ES().compute_kernel_eigenpairs(Kernel(True), A, n_eigenpairs=n)
    _pairs(v, n, n, A, lam, V)
    v.frame("matrix unchanged", A)


def full_symmetric_unit(v):
    """normalize_eigenvectors: the vectors have unit length"""
    n = v.int("n", 1)
    A = v.symmetric("A", n)
    lam, V = ES().compute_kernel_eigenpairs(Kernel(True), A, n_eigenpairs=n, normalize_eigenvectors=True)
    _pairs(v, n, n, A, lam, V)
    j = v.int("jj", 0, n - 1)
    v.prove("unit length", v.sum(n, lambda q: V[q, j] * V[q, j]) == 1)


def leading_symmetric(v):
    """k < n pairs of a symmetric kernel matrix, stochastic or not"""
    n, k = v.int("n", 2), v.int("k", 1)
    v.assume(k < n)
    A = v.symmetric("A", n)
    for st in (True, False):
        lam, V = ES().compute_kernel_eigenpairs(Kernel(True, stochastic=st), A, n_eigenpairs=k)
        _pairs(v, n, k, A, lam, V)
    v.frame("matrix unchanged", A)


def eigensolver_refuses(v):
    """non-square matrices and unknown backends are refused"""
    n, m = v.int("n", 1), v.int("m", 1)
    A = v.array("A", (n, m))
    v.assume(n != m)
    v.raises("square", ValueError, True, lambda: ES().compute_kernel_eigenpairs(Kernel(True), A, n_eigenpairs=1))


def svd_leading(v):
    """compute_kernel_svd, k < min(n, m): A v = s u, decreasing"""
    n, m, k = v.int("n", 2), v.int("m", 2), v.int("k", 1)
    v.assume(k < n)
    v.assume(k < m)
    _svd(v, n, m, k)


def svd_full(v):
    """compute_kernel_svd, all triplets"""
    n, m = v.int("n", 1), v.int("m", 1)
    v.assume(n <= m)
    _svd(v, n, m, n)


def _svd(v, n, m, k):
    A = v.array("A", (n, m))
    U, s, V = ES().compute_kernel_svd(A, n_svdtriplet=k)
    v.prove_eq("number of values", s.shape[0], k)
    i, j = v.int("i", 0, n - 1), v.int("j", 0, k - 1)
    v.prove("A v = s u", v.sum(m, lambda q: A[i, q] * V[j, q]) == s[j] * U[i, j])
    a, b = v.int("a", 0, k - 1), v.int("b", 0, k - 1)
    v.prove("decreasing values", v.or_(a > b, s[a] >= s[b]))
    v.prove("not negative", s[a] >= 0)
    v.frame("matrix unchanged", A)


def svd_refuses(v):
    """more triplets than the smaller dimension are refused"""
    n, m, k = v.int("n", 1), v.int("m", 1), v.int("k", 1)
    A = v.array("A", (n, m))
    v.raises("too many", ValueError, v.or_(k > n, k > m), lambda: ES().compute_kernel_svd(A, n_svdtriplet=k))


def solve_plain(v):
    """solve_eigenproblem: unit vectors with A v = lam v"""
    n = v.int("n", 1)
    A = v.symmetric("A", n)
    lam, V = M()._DmapKernelAlgorithms.solve_eigenproblem(Kernel(True), A, n_eigenpairs=n)
    _pairs(v, n, n, A, lam, V)
    j = v.int("jj", 0, n - 1)
    v.prove("unit length", v.sum(n, lambda q: V[q, j] * V[q, j]) == 1)


def solve_conjugate(v):
    """with a basis change B the vectors are those of P = B A B^-1 (the row-stochastic matrix), of unit length"""
    import scipy.sparse
    n = v.int("n", 1)
    A = v.symmetric("A", n)
    b = v.array("b", (n,), pos=True)
    B = v.lib(scipy.sparse.diags, b)
    lam, V = M()._DmapKernelAlgorithms.solve_eigenproblem(Kernel(True, True, B), A, n_eigenpairs=n)
    i, j = v.int("i", 0, n - 1), v.int("j", 0, n - 1)
    v.prove("P v = lam v", v.sum(n, lambda q: b[i] * A[i, q] / b[q] * V[q, j]) == lam[j] * V[i, j])
    v.prove("unit length", v.sum(n, lambda q: V[q, j] * V[q, j]) == 1)


def unsymmetric(v):
    """unsymmetric_kernel_matrix: B A B^-1"""
    import scipy.sparse
    n = v.int("n", 1)
    A = v.symmetric("A", n)
    b = v.array("b", (n,), pos=True)
    B = v.lib(scipy.sparse.diags, b)
    P = M()._DmapKernelAlgorithms.unsymmetric_kernel_matrix(A, B)
    v.prove_eq("B A B^-1", P, v.arr_fn((n, n), lambda i, j: b[i] * A[i, j] / b[j]))


def _dmap(v, t=0, target=False):
    n, k = v.int("n", 1), v.int("k", 1)
    dm = M().DiffusionMaps(n_eigenpairs=k, time_exponent=t)
    V, lam = v.array("V", (n, k)), v.array("lam", (k,), pos=True)
    dm.eigenvectors_, dm.eigenvalues_ = V, lam
    c, s = k, (lambda j: j)
    if target:
        c = v.int("c", 1)
        idx = v.array("coords", (c,), dt="int")
        v.assume_forall(c, lambda i: v.and_(idx[i] >= 0, idx[i] < k))
        dm.target_coords_ = idx
        s = lambda j: idx[j]
    return n, k, c, s, dm, V, lam


def _power(v, lam, t):
    if t == 0:
        return v.num(1)
    if t == 1:
        return lam
    return v.pow(lam, t)


def _embedding(v, t, target):
    n, k, c, s, dm, V, lam = _dmap(v, t, target)
    vec, val = dm._select_eigenpairs_target_coords()
    v.prove_eq("selected vectors", vec, v.arr_fn((n, c), lambda i, j: V[i, s(j)]))
    v.prove_eq("selected values", val, v.arr_fn((c,), lambda j: lam[s(j)]))
    E = dm._perform_dmap_embedding(vec)
    v.prove_eq("scaled by lam^t", E, v.arr_fn((n, c), lambda i, j: V[i, s(j)] * _power(v, lam[s(j)], t)))
    p = v.int("p", 1)
    Kc = v.array("Kc", (p, n))
    F = dm._nystrom(Kc, eigvec=vec, eigvals=val, index_from=None)
    v.prove_eq("Nystroem extension", F, v.arr_fn((p, c), lambda i, j: v.sum(n, lambda q: Kc[i, q] * V[q, s(j)]) / lam[s(j)]))
    v.frame("unchanged", V, lam, Kc)


def embedding(v):
    """coordinates are the eigenvectors; new points by the Nystroem formula"""
    _embedding(v, 0, False)


def embedding_time(v):
    """coordinates are scaled by lam^t (t = 1)"""
    _embedding(v, 1, False)


def embedding_time_real(v):
    """coordinates are scaled by lam^t, any real t"""
    t = 0.5
    _embedding(v, t, False)


def embedding_target(v):
    """target coordinates select exactly those pairs"""
    _embedding(v, 0, True)


def embedding_target_time(v):
    """target coordinates with time exponent: every coordinate is scaled by its own eigenvalue"""
    _embedding(v, 2, True)


def _pass(v, cls):
    """input validation has its own contracts (C17)"""
    v.stub(cls, "_validate_datafold_data", lambda self, X, *a, **k: X)
    v.stub(cls, "_validate_feature_input", lambda self, *a, **k: None)
    v.stub(cls, "_same_type_X", lambda self, X, values, feature_names=None: values)


def _transform(v, t, target):
    n, k, c, s, dm, V, lam = _dmap(v, t, target)
    p, d = v.int("p", 1), v.int("d", 1)
    X, Y = v.array("X", (n, d)), v.array("Y", (p, d))
    Kc, kern = v.array("Kc", (p, n)), []
    dm._dmap_kernel = lambda a, b: kern.append((a, b)) or Kc
    dm.X_fit_ = X
    _pass(v, M().DiffusionMaps)
    R = dm.transform(Y)
    v.fact("kernel of the training points and the new points", len(kern) == 1 and kern[0][0] is X and kern[0][1] is Y)
    v.prove_eq("new points", R, v.arr_fn((p, c), lambda i, j: v.sum(n, lambda q: Kc[i, q] * V[q, s(j)]) / lam[s(j)] * _power(v, lam[s(j)], t)))
    return n, k, c, s, dm, V, lam, X, Y, d, p


def transform(v):
    """transform: lam^t / lam_j sum_q K(y_i, x_q) v_qj"""
    _transform(v, 1, False)


def transform_target(v):
    """transform with target coordinates and time exponent"""
    _transform(v, 2, True)


def training_as_new(v):
    """if P V = V diag(lam), mapping the training points as new points gives the training coordinates"""
    n, k, c, s, dm, V, lam = _dmap(v, 1, False)
    P = v.array("P", (n, n))
    v.eigen(P, lam, V)
    vec, val = dm._select_eigenpairs_target_coords()
    T = dm._perform_dmap_embedding(vec)
    N = dm._perform_dmap_embedding(dm._nystrom(P, eigvec=vec, eigvals=val, index_from=None))
    v.prove_eq("same coordinates", N, T)


def _inverse(v, t, target):
    n, k, c, s, dm, V, lam = _dmap(v, t, target)
    d, p = v.int("d", 1), v.int("p", 1)
    dm.X_fit_, Z = v.array("X", (n, d)), v.array("Z", (p, c))
    _pass(v, M().DiffusionMaps)
    R = dm.inverse_transform(Z)
    E = v.arr_fn((n, c), lambda i, j: V[i, s(j)] * _power(v, lam[s(j)], t))
    C = v.lib(np.linalg.lstsq, E, dm.X_fit_, rcond=None)[0]
    v.prove_eq("least squares map of the coordinates to the data", R, v.arr_fn((p, d), lambda i, j: v.sum(c, lambda q: Z[i, q] * C[q, j])))


def inverse(v):
    """inverse_transform: the least squares map from the training coordinates to the training data"""
    _inverse(v, 0, False)


def inverse_time_target(v):
    """inverse_transform with time exponent and target coordinates"""
    _inverse(v, 2, True)


def target_coords(v):
    """set_target_coords refuses indices outside [0, n_eigenpairs), keeps the others sorted, and forgets the inverse map"""
    for cls, nm in ((M().DiffusionMaps, "n_eigenpairs"), (M().Roseland, "n_svdtriplet")):
        k, c = v.int("k", 1), v.int("c", 1)
        idx = v.array("idx", (c,), dt="int")
        dm = cls(**{nm: k})
        dm.inv_coeff_matrix_ = 0
        v.unless(ValueError, lambda: dm.set_target_coords(idx))
        T = dm.target_coords_
        v.prove_eq("number", T.shape[0], c)
        i, j = v.int("i", 0, c - 1), v.int("j", 0, c - 1)
        v.prove("within range", v.and_(T[i] >= 0, T[i] < k))
        v.prove("sorted", v.or_(i > j, T[i] <= T[j]))
        v.prove_eq("sorted input", T, v.lib(np.sort, idx))
        v.prove_eq("number of outputs", dm.n_features_out_, c)
        if nm == "n_eigenpairs":
            v.fact("inverse map forgotten", not hasattr(dm, "inv_coeff_matrix_"))


def target_coords_range(v):
    """set_target_coords raises ValueError exactly for an index out of range"""
    k, c = v.int("k", 1), v.int("c", 1)
    idx = v.array("idx", (c,), dt="int")
    bad = v.not_(v.forall(c, lambda i: v.and_(idx[i] >= 0, idx[i] < k)))
    v.raises("range", ValueError, bad, lambda: M().DiffusionMaps(n_eigenpairs=k).set_target_coords(idx))


def _rose(v, t, target):
    n, m, k = v.int("n", 1), v.int("m", 1), v.int("k", 1)
    r = M().Roseland(n_svdtriplet=k, time_exponent=t)
    U, S, W = v.array("U", (n, k)), v.array("S", (k,), pos=True), v.array("W", (m, k))
    r.svdvec_left_, r.svdvalues_, r.svdvec_right_ = U, S, W
    c, s = k, (lambda j: j)
    if target:
        c = v.int("c", 1)
        idx = v.array("coords", (c,), dt="int")
        v.assume_forall(c, lambda i: v.and_(idx[i] >= 0, idx[i] < k))
        r.target_coords_ = idx
        s = lambda j: idx[j]
    left, vals, right = r._select_svdpairs_target_coords()
    v.prove_eq("selected left vectors", left, v.arr_fn((n, c), lambda i, j: U[i, s(j)]))
    v.prove_eq("selected right vectors", right, v.arr_fn((m, c), lambda i, j: W[i, s(j)]))
    v.prove_eq("selected values", vals, v.arr_fn((c,), lambda j: S[s(j)]))
    pw = lambda x: _power(v, x, 2 * t)
    v.prove_eq("scaled by s^(2t)", r._perform_roseland_embedding(left, vals), v.arr_fn((n, c), lambda i, j: U[i, s(j)] * pw(S[s(j)])))
    p = v.int("p", 1)
    Kc, D = v.array("Kc", (p, m)), v.array("D", (p,))
    N = r._nystrom(Kc, svdvec_right=right, svdvals=vals, normalize_diagonal=D)
    v.prove_eq("extension", N, v.arr_fn((p, c), lambda i, j: D[i] * v.sum(m, lambda q: Kc[i, q] * W[q, s(j)]) / S[s(j)]))

    class RK:
        normalize_diagonal_ = D

        def __call__(self, a, b):
            self.args = (a, b)
            return Kc

    d = v.int("d", 1)
    r.landmarks_, Y, r.rose_kernel_ = v.array("L", (m, d)), v.array("Y", (p, d)), RK()
    _pass(v, M().Roseland)
    v.prove_eq("transform", r.transform(Y), v.arr_fn((p, c), lambda i, j: D[i] * v.sum(m, lambda q: Kc[i, q] * W[q, s(j)]) / S[s(j)] * pw(S[s(j)])))
    v.fact("kernel of the landmarks and the new points", r.rose_kernel_.args[0] is r.landmarks_ and r.rose_kernel_.args[1] is Y)
    v.stub(M().Roseland, "fit", lambda self, X, y=None, **k: self)
    v.prove_eq("fit_transform", r.fit_transform(Y), v.arr_fn((n, c), lambda i, j: U[i, s(j)] * pw(S[s(j)])))


def roseland(v):
    """Roseland: extension, embedding and transform"""
    _rose(v, 0, False)


def roseland_time(v):
    """Roseland with time exponent"""
    _rose(v, 1, False)


def roseland_target(v):
    """Roseland with target coordinates and time exponent"""
    _rose(v, 0.5, True)


def roseland_svd(v):
    """_compute_kernel_svd: left vectors carry the row normalisation, right vectors in the columns; A w = s D^-1 u"""
    n, m, k = v.int("n", 2), v.int("m", 2), v.int("k", 1)
    v.assume(k < n)
    v.assume(k < m)
    A, D = v.array("A", (n, m)), v.array("D", (n,), pos=True)
    U, S, W = M().Roseland(n_svdtriplet=k)._compute_kernel_svd(A, k, normalize_diagonal=D)
    v.prove_eq("right vectors in the columns", W.shape[0], m)
    i, j = v.int("i", 0, n - 1), v.int("j", 0, k - 1)
    v.prove("A w = s D^-1 u", D[i] * v.sum(m, lambda q: A[i, q] * W[q, j]) == S[j] * U[i, j])


CONTRACTS = [full_symmetric, full_symmetric_unit, leading_symmetric, eigensolver_refuses, svd_leading, svd_full, svd_refuses, solve_plain,
             solve_conjugate, unsymmetric, embedding, embedding_time, embedding_time_real, embedding_target, embedding_target_time, transform,
             transform_target, training_as_new, inverse, inverse_time_target, target_coords, target_coords_range, roseland, roseland_time,
             roseland_target, roseland_svd]

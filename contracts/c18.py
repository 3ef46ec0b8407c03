"""C18 matrix utilities"""
import numpy as np


def G():
    from datafold.utils import general
    return general


def diagmat_dot_mat(v):
    """(diag(d) M)[i,j] = d[i] M[i,j]; operands unchanged"""
    n, m = v.int("n", 1), v.int("m", 1)
    d, M = v.array("d", (n,)), v.array("M", (n, m))
    r = G().diagmat_dot_mat(d, M)
    v.prove_eq("d_i M_ij", r, v.arr_fn((n, m), lambda i, j: d[i] * M[i, j]))
    v.frame("operands", d, M)


def diagmat_dot_mat_inplace(v):
    """with out=M the product is written into M and returned"""
    n, m = v.int("n", 1), v.int("m", 1)
    d, M = v.array("d", (n,)), v.array("M", (n, m))
    M0 = M.snapshot()
    r = G().diagmat_dot_mat(d, M, out=M)
    want = v.arr_fn((n, m), lambda i, j: d[i] * M0[i, j])
    v.prove_eq("returned", r, want)
    v.prove_eq("written", M, want)
    v.frame("vector", d)


def mat_dot_diagmat(v):
    """(M diag(d))[i,j] = M[i,j] d[j]; operands unchanged"""
    n, m = v.int("n", 1), v.int("m", 1)
    d, M = v.array("d", (m,)), v.array("M", (n, m))
    r = G().mat_dot_diagmat(M, d)
    v.prove_eq("M_ij d_j", r, v.arr_fn((n, m), lambda i, j: M[i, j] * d[j]))
    v.frame("operands", d, M)


def mat_dot_diagmat_inplace(v):
    """with out=M the product is written into M and returned"""
    n, m = v.int("n", 1), v.int("m", 1)
    d, M = v.array("d", (m,)), v.array("M", (n, m))
    M0 = M.snapshot()
    r = G().mat_dot_diagmat(M, d, out=M)
    want = v.arr_fn((n, m), lambda i, j: M0[i, j] * d[j])
    v.prove_eq("returned", r, want)
    v.prove_eq("written", M, want)


def diagmat_complex(v):
    """complex diagonal (eigenvalues): no conjugation, no truncation"""
    n, m = v.int("n", 1), v.int("m", 1)
    d, M = v.array("d", (n,), dt="complex"), v.array("M", (n, m), dt="complex")
    v.prove_eq("left", G().diagmat_dot_mat(d, M), v.arr_fn((n, m), lambda i, j: d[i] * M[i, j], dt="complex"))
    v.prove_eq("right", G().mat_dot_diagmat(M.T, d), v.arr_fn((m, n), lambda i, j: M[j, i] * d[j], dt="complex"))


def _eig(v, asc):
    n, m = v.int("n", 1), v.int("m", 1)
    w, R, L = v.array("w", (n,)), v.array("R", (m, n)), v.array("L", (n, m))
    kw = dict(ascending=asc) if asc is not None else {}
    p = v.lib(np.argsort, w)
    pos = (lambda k: p[k]) if asc else (lambda k: p[n - 1 - k])
    return n, m, w, R, L, kw, pos


def _sorted(v, asc):
    n, m, w, R, L, kw, pos = _eig(v, asc)
    w2, R2, L2 = G().sort_eigenpairs(w, R, left_eigenvectors=L, **kw)
    v.prove_eq("eigenvalues permuted", w2, v.arr_fn((n,), lambda k: w[pos(k)]))
    v.prove_eq("right vectors permuted alike", R2, v.arr_fn((m, n), lambda i, k: R[i, pos(k)]))
    v.prove_eq("left vectors permuted alike", L2, v.arr_fn((n, m), lambda k, i: L[pos(k), i]))
    i, j = v.int("i", 0, n - 1), v.int("j", 0, n - 1)
    v.assume(i <= j)
    v.prove("sorted", (w2[i] <= w2[j]) if asc else (w2[i] >= w2[j]))
    w3, R3 = G().sort_eigenpairs(w, R, **kw)
    v.prove_eq("without left vectors: values", w3, w2)
    v.prove_eq("without left vectors: vectors", R3, R2)
    v.frame("inputs unchanged", w, R, L)


def sort_eigenpairs_descending(v):
    """one permutation for values, right and left vectors; decreasing values by default"""
    _sorted(v, None)


def sort_eigenpairs_ascending(v):
    """one permutation for values, right and left vectors; increasing values on request"""
    _sorted(v, True)


def sort_eigenpairs_refuses(v):
    """refused iff the number of eigenvalues differs from the number of right or left vectors"""
    n, m, k, l = v.int("n", 1), v.int("m", 1), v.int("k", 1), v.int("l", 1)
    w, R, L = v.array("w", (n,)), v.array("R", (m, k)), v.array("L", (l, m))
    v.raises("counts", ValueError, v.or_(n != k, n != l), lambda: G().sort_eigenpairs(w, R, left_eigenvectors=L))


def remove_noise(v):
    """(M + M^T) / 2, exactly symmetric"""
    n = v.int("n", 1)
    M = v.array("M", (n, n))
    M0 = M.snapshot()
    r = G().remove_numeric_noise_symmetric_matrix(M)
    v.prove_eq("symmetric part", r, v.arr_fn((n, n), lambda i, j: (M0[i, j] + M0[j, i]) / 2.0))
    i, j = v.int("i", 0, n - 1), v.int("j", 0, n - 1)
    v.prove("exactly symmetric", r[i, j] == r[j, i])


def symmetric_test(v):
    """is_symmetric_matrix answers |M_ij - M_ji| <= tol for all pairs"""
    n = v.int("n", 1)
    M = v.array("M", (n, n))
    tol = v.real("tol")
    r = G().is_symmetric_matrix(M, tol)
    i, j = v.int("i", 0, n - 1), v.int("j", 0, n - 1)
    v.prove("yes implies every pair", v.or_(v.not_(r), v.lib(abs, M[i, j] - M[j, i]) <= tol))
    allp = v.forall(n, lambda a: v.forall(n, lambda b: v.lib(abs, M[a, b] - M[b, a]) <= tol))
    v.prove("every pair implies yes", v.or_(r, v.not_(allp)))
    v.frame("unchanged", M)


def _stochastic(v, axis):
    n, m = v.int("n", 1), v.int("m", 1)
    M = v.array("M", (n, m))
    tol = v.real("tol")
    r = G().is_stochastic_matrix(M, axis=axis, tol=tol)
    if axis == 1:
        want = v.forall(n, lambda a: v.lib(abs, v.sum(m, lambda b: M[a, b]) - 1) <= tol)
    else:
        want = v.forall(m, lambda b: v.lib(abs, v.sum(n, lambda a: M[a, b]) - 1) <= tol)
    v.prove("yes only if every sum is one", v.or_(v.not_(r), want))
    v.prove("yes if every sum is one", v.or_(r, v.not_(want)))


def stochastic_rows(v):
    """is_stochastic_matrix(axis=1): every row sums to one within tol"""
    _stochastic(v, 1)


def stochastic_columns(v):
    """is_stochastic_matrix(axis=0): every column sums to one within tol"""
    _stochastic(v, 0)


def shape_checks(v):
    """is_matrix(square) refuses exactly non-square matrices; is_vector refuses exactly empty vectors"""
    n, m = v.int("n", 0), v.int("m", 0)
    M = v.array("M", (n, m))
    r = v.raises("square", ValueError, n != m, lambda: G().is_matrix(M, "M", square=True))
    v.fact("accepted", r is True)


def shape_checks_silent(v):
    """handle=None answers instead of raising"""
    n, m = v.int("n", 0), v.int("m", 0)
    M = v.array("M", (n, m))
    r = G().is_matrix(M, "M", square=True, handle=None)
    v.prove("yes iff square", (n == m) if r else (n != m))
    v.fact("one dimension", G().is_matrix(v.array("x", (n,)), handle=None) is False)
    v.fact("three dimensions", G().is_matrix(v.array("y", (n, m, n)), handle=None) is False)
    v.fact("list", G().is_matrix([1, 2], handle=None) is False)


def vector_checks(v):
    """is_vector accepts exactly one-dimensional arrays with at least one element"""
    n = v.int("n", 0)
    x = v.array("x", (n,))
    r = G().is_vector(x, handle=None)
    v.prove("yes iff not empty", (n >= 1) if r else (n < 1))
    v.fact("matrix", G().is_vector(v.array("M", (n, n)), handle=None) is False)
    v.fact("list", G().is_vector([1, 2], handle=None) is False)


def colrow(v):
    """1-d arrays become a column / a row, 2-d arrays pass"""
    n, m = v.int("n", 0), v.int("m", 0)
    x, M = v.array("x", (n,)), v.array("M", (n, m))
    v.prove_eq("column", G().if1dim_colvec(x), v.arr_fn((n, 1), lambda i, j: x[i]))
    v.prove_eq("row", G().if1dim_rowvec(x), v.arr_fn((1, n), lambda i, j: x[j]))
    v.prove_eq("matrix column", G().if1dim_colvec(M), M)
    v.prove_eq("matrix row", G().if1dim_rowvec(M), M)


def mesh(v):
    """row y*n_x + x of the mesh is (x-th x value, y-th y value)"""
    a, b, c, d = v.real("a"), v.real("b"), v.real("c"), v.real("d")
    nx, ny = v.int("nx", 2), v.int("ny", 2)
    X = G().generate_2d_regular_mesh(low=(a, b), high=(c, d), n_xvalues=nx, n_yvalues=ny)
    v.prove_eq("rows", X.shape[0], nx * ny)
    i, j = v.int("i", 0, nx - 1), v.int("j", 0, ny - 1)
    v.prove("x value", X[j * nx + i, 0] == v.lib(np.linspace, a, c, num=nx)[i])
    v.prove("y value", X[j * nx + i, 1] == v.lib(np.linspace, b, d, num=ny)[j])


CONTRACTS = [diagmat_dot_mat, diagmat_dot_mat_inplace, mat_dot_diagmat, mat_dot_diagmat_inplace, diagmat_complex,
             sort_eigenpairs_descending, sort_eigenpairs_ascending, sort_eigenpairs_refuses, remove_noise, symmetric_test,
             stochastic_rows, stochastic_columns, shape_checks, shape_checks_silent, vector_checks, colrow, mesh]


def random_subsample(v):
    """refused unless 1 <= n_samples < n; otherwise distinct rows of the data at the returned indices"""
    n, m, k = v.int("n", 1), v.int("m", 1), v.int("k")
    X = v.array("X", (n, m))
    out, idx = v.raises("range", ValueError, v.or_(k < 1, k >= n), lambda: G().random_subsample(X, k, random_state=3))
    v.prove_eq("number of samples", out.shape[0], k)
    v.prove_eq("number of indices", idx.shape[0], k)
    v.prove_eq("samples are the rows at the indices", out, v.arr_fn((k, m), lambda i, j: X[idx[i], j]))
    i, j = v.int("i", 0, k - 1), v.int("j", 0, k - 1)
    v.prove("indices are rows", v.and_(idx[i] >= 0, idx[i] < n))
    v.prove("distinct", v.or_(i == j, idx[i] != idx[j]))
    v.frame("unchanged", X)


CONTRACTS += [random_subsample]

"""C18: executable contracts of datafold.utils.general"""
import numpy as np
import pandas as pd
import scipy.sparse as sp

from datafold.utils import general as G
from .core import Broken, case, check, close, raises, same


def rmat(g, n, m, cplx=False):
    M = g.normal(n, m)
    if cplx:
        M = M + 1j * g.normal(n, m)
    return M


def spars(g, M, fmt=None):
    S = M * (g.uniform(0, 1, M.shape) < 0.6)
    return getattr(sp, (fmt or g.choice("csr", "csc", "coo")) + "_matrix")(S), S


@case(40)
def diagonal_products(g):
    """diag @ M and M @ diag, dense / sparse, real / complex, with and without out"""
    n, m = g.int(1, 6), g.int(1, 6)
    cM, cd = g.flag(0.3), g.flag(0.3)
    M = rmat(g, n, m, cM)
    l, r = rmat(g, n, 1, cd)[:, 0], rmat(g, m, 1, cd)[:, 0]
    g.note(M=M, l=l, r=r)
    M0, l0, r0 = M.copy(), l.copy(), r.copy()
    close(G.diagmat_dot_mat(l, M), np.diag(l) @ M, "diag @ dense", rtol=1e-12)
    close(G.mat_dot_diagmat(M, r), M @ np.diag(r), "dense @ diag", rtol=1e-12)
    same(M, M0, "matrix unchanged")
    same(l, l0, "diagonal unchanged")
    same(r, r0, "diagonal unchanged")
    if cM or not cd:
        A = M.copy()
        R = G.diagmat_dot_mat(l, A, out=A)
        close(A, np.diag(l) @ M, "diag @ dense in place", rtol=1e-12)
        check(R is A, "the in-place product returns its output array")
        A = M.copy()
        R = G.mat_dot_diagmat(A, r, out=A)
        close(A, M @ np.diag(r), "dense @ diag in place", rtol=1e-12)
        check(R is A, "the in-place product returns its output array")
    S, D = spars(g, M)
    a, b = G.diagmat_dot_mat(l, S), G.mat_dot_diagmat(S, r)
    check(sp.issparse(a) and sp.issparse(b), "sparse operands give sparse products")
    close(a.toarray(), np.diag(l) @ D, "diag @ sparse", rtol=1e-12)
    close(b.toarray(), D @ np.diag(r), "sparse @ diag", rtol=1e-12)
    close(S.toarray(), D, "sparse matrix unchanged", rtol=0, atol=0)


@case(40)
def eigenpairs(g):
    """same permutation everywhere, sorted by value in the requested direction"""
    n, m = g.int(1, 7), g.int(1, 5)
    cplx = g.flag(0.4)
    w = rmat(g, n, 1, cplx)[:, 0]
    if cplx and g.flag():
        w = np.sort_complex(np.concatenate([w, w.conj()]))[g.rng.permutation(2 * n)]
        n = 2 * n
    R, L = rmat(g, m, n, cplx), rmat(g, n, m, cplx)
    asc = g.flag()
    g.note(w=w, R=R, L=L, asc=asc)
    w0, R0, L0 = w.copy(), R.copy(), L.copy()
    W, RR, LL = G.sort_eigenpairs(w, R, left_eigenvectors=L, ascending=asc)
    o = np.argsort(w)
    o = o if asc else o[::-1]
    same(W, w[o], "eigenvalues sorted")
    key = W.real
    check((np.diff(key) >= 0).all() if asc else (np.diff(key) <= 0).all(), "order of eigenvalues", W=W)
    same(RR, R[:, o], "right eigenvectors in the order of the eigenvalues")
    same(LL, L[o], "left eigenvectors in the order of the eigenvalues")
    W2, R2 = G.sort_eigenpairs(w, R, ascending=asc)
    same(W2, W, "values without left vectors")
    same(R2, RR, "vectors without left vectors")
    W3, _ = G.sort_eigenpairs(w, R)
    check((np.diff(W3.real) <= 0).all(), "decreasing by default")
    same(w, w0, "input unchanged")
    same(R, R0, "input unchanged")
    same(L, L0, "input unchanged")
    raises(ValueError, lambda: G.sort_eigenpairs(w, np.hstack([R, R[:, :1]])), "one more vector than values")
    raises(ValueError, lambda: G.sort_eigenpairs(w, R, left_eigenvectors=np.vstack([L, L[:1]])), "one more left vector")
    raises(ValueError, lambda: G.sort_eigenpairs(w[:, None], R), "values must be a vector")


@case(40)
def projections(g):
    """A @ P are the selected columns, in the requested order"""
    n = g.int(1, 8)
    kind = g.choice("str", "int", "tuple-free")
    names = [f"x{k}" for k in g.rng.permutation(n)] if kind == "str" else list(g.rng.permutation(n) * 3) if kind == "int" else [f"f{k}" if k % 2 else int(k) for k in g.rng.permutation(n)]
    q = g.int(1, n)
    sel = [names[k] for k in g.rng.permutation(n)[:q]]
    A = g.normal(g.int(1, 4), n)
    g.note(names=names, sel=sel, A=A)
    for fa, fs in ((pd.Index(names), pd.Index(sel)), (names, sel)):
        P = G.projection_matrix_from_feature_names(fa, fs)
        check(P.shape == (n, q), "shape of the projection", shape=P.shape)
        close(A @ P.toarray(), A[:, [names.index(s) for s in sel]], "projected columns")
    raises(ValueError, lambda: G.projection_matrix_from_feature_names(pd.Index(names), pd.Index(sel + ["unknown"])), "unknown feature")
    raises(ValueError, lambda: G.projection_matrix_from_feature_names(pd.Index(names), pd.Index(["unknown"])), "unknown feature only")


@case(40)
def symmetry(g):
    """symmetrisation, symmetry test and stochasticity test, dense and sparse"""
    n = g.int(1, 6)
    B = g.normal(n, n)
    g.note(B=B)
    S = (B + B.T) / 2
    check(G.is_symmetric_matrix(S), "symmetric matrix recognised")
    noise = 10.0 ** -g.int(3, 12)
    M = S.copy()
    if n > 1:
        i, j = sorted(g.rng.choice(n, 2, replace=False))
        if g.flag():
            i, j = j, i
        M[i, j] += g.choice(-1, 1) * noise
        check(not G.is_symmetric_matrix(M), "asymmetry recognised")
        check(not G.is_symmetric_matrix(sp.csr_matrix(M)), "asymmetry recognised (sparse)")
        check(G.is_symmetric_matrix(M, tol=2 * noise), "asymmetry within the tolerance accepted")
        check(not G.is_symmetric_matrix(M, tol=noise / 2), "asymmetry beyond the tolerance recognised")
        check(G.is_symmetric_matrix(sp.csr_matrix(M), tol=2 * noise), "asymmetry within the tolerance accepted (sparse)")
    R = G.remove_numeric_noise_symmetric_matrix(M.copy())
    close(R, (M + M.T) / 2, "symmetric part", rtol=1e-14)
    same(R, R.T, "exactly symmetric")
    Z = (S * ((a := g.uniform(0, 1, (n, n))) + a.T < 1.3))
    Zs = sp.csr_matrix(Z)
    k = g.int(0, n - 1)
    Zs = Zs.tolil()
    Zs = Zs.tocsr()
    # stored zeros on the diagonal (as in distance matrices)
    coo = sp.coo_matrix((np.concatenate([Z[Z != 0] if n else [], [0.0]]), tuple(np.concatenate([x, [k]]) for x in np.nonzero(Z))), shape=(n, n)) if Z[k, k] == 0 else Zs.tocoo()
    Zs = coo.tocsr()
    Zs.sort_indices()
    d0, nnz = Zs.data.copy(), Zs.nnz
    R = G.remove_numeric_noise_symmetric_matrix(Zs)
    close(R.toarray(), (Z + Z.T) / 2, "symmetric part (sparse)")
    check(np.isfinite(R.data).all(), "finite")
    check(R.nnz == nnz, "stored zeros are preserved", nnz=R.nnz, want=nnz)
    same(Zs.data, d0, "the sparse operand is unchanged")
    raises(ValueError, lambda: G.is_symmetric_matrix(g.normal(n, n + 1)), "square matrix required")
    P = g.uniform(0.1, 1, (n, n + 1))
    P /= P.sum(axis=1, keepdims=True)
    for mk in (np.asarray, sp.csr_matrix):
        check(G.is_stochastic_matrix(mk(P), axis=1, tol=1e-12), "row stochastic recognised")
        check(G.is_stochastic_matrix(mk(P.T), axis=0, tol=1e-12), "column stochastic recognised")
        Q = P.copy()
        Q[g.int(0, n - 1), g.int(0, n)] += g.choice(-1, 1) * 1e-3
        check(not G.is_stochastic_matrix(mk(Q), axis=1, tol=1e-4), "deviation recognised")
        check(not G.is_stochastic_matrix(mk(Q.T), axis=0, tol=1e-4), "deviation recognised")
        check(G.is_stochastic_matrix(mk(Q), axis=1, tol=1e-2), "deviation within the tolerance accepted")


@case(40)
def subsample(g):
    """distinct rows at the returned indices, reproducible with a seed"""
    n, m = g.int(2, 12), g.int(1, 4)
    k = g.int(1, n - 1)
    X = g.normal(n, m)
    s = g.int(0, 100)
    g.note(X=X, k=k, seed=s)
    X0 = X.copy()
    S, idx = G.random_subsample(X, k, random_state=s)
    check(len(set(idx.tolist())) == k == len(S), "number of distinct samples", idx=idx)
    same(S, X[idx], "samples are the rows at the indices")
    S2, idx2 = G.random_subsample(X, k, random_state=s)
    same(idx, idx2, "reproducible")
    same(X, X0, "data unchanged")
    raises(ValueError, lambda: G.random_subsample(X, n), "all samples")
    raises(ValueError, lambda: G.random_subsample(X, 0), "no sample")


@case(30)
def predicates(g):
    """integer / scalar / matrix / vector predicates and reshaping"""
    x = g.choice(0.0, 0.5, 1.0, -1.0, -0.25, 2.5, 1e300, float(g.int(-99, 99)), g.uniform(-5, 5))
    g.note(x=x)
    for c in (float, np.float64):
        check(G.is_integer(c(x)) == (float(x) == np.floor(x)), "is_integer of a float", x=x)
        check(G.is_float(c(x)) and G.is_scalar(c(x)), "float scalar")
    k = g.int(-5, 5)
    for c in (int, np.int64, np.int32):
        check(G.is_integer(c(k)) and G.is_scalar(c(k)) and not G.is_float(c(k)), "integer scalar")
    check(not G.is_integer("a") and not G.is_scalar("a") and not G.is_scalar(np.ones(2)) and not G.is_scalar(None), "no scalar")
    n, m = g.int(1, 4), g.int(1, 4)
    A = g.normal(n, m)
    check(G.is_matrix(A) is True, "matrix")
    check(G.is_matrix(A, square=True, handle=None) == (n == m), "square matrix")
    check(G.is_matrix(sp.csr_matrix(A), allow_sparse=True) and not G.is_matrix(sp.csr_matrix(A), handle=None), "sparse only on request")
    raises(TypeError, lambda: G.is_matrix(sp.csr_matrix(A)), "sparse only on request")
    raises(ValueError, lambda: G.is_matrix(A[0]), "vector is no matrix")
    raises(TypeError, lambda: G.is_matrix([[1.0]]), "list is no matrix")
    check(G.is_vector(A[0]) and not G.is_vector(A, handle=None) and not G.is_vector(A[0][:0], handle=None), "vector")
    raises(ValueError, lambda: G.is_vector(A), "matrix is no vector")
    same(G.if1dim_colvec(A[0]), A[0].reshape(-1, 1), "column vector")
    same(G.if1dim_rowvec(A[0]), A[0].reshape(1, -1), "row vector")
    same(G.if1dim_colvec(A), A, "matrix passes")


@case(20)
def frames(g):
    """mesh and frame helpers"""
    nx, ny = g.int(2, 5), g.int(2, 5)
    low, high = (g.uniform(-2, 0), g.uniform(-2, 0)), (g.uniform(1, 2), g.uniform(1, 2))
    g.note(nx=nx, ny=ny, low=low, high=high)
    X = G.generate_2d_regular_mesh(low, high, nx, ny)
    want = [(x, y) for y in np.linspace(low[1], high[1], ny) for x in np.linspace(low[0], high[0], nx)]
    close(X, want, "mesh points")
    T = G.generate_2d_regular_mesh(low, high, nx, ny, feature_names=["a", "b"])
    close(T.to_numpy(), want, "mesh as initial conditions")
    same(T.index.get_level_values(0), np.arange(nx * ny), "one series per point")
    check(list(T.columns) == ["a", "b"], "feature names")
    n, m = g.int(1, 5), g.int(1, 3)
    d = pd.DataFrame(g.normal(n, m), index=g.rng.permutation(n) * 2, columns=[f"c{k}" for k in range(m)])
    V = g.normal(n, m)
    r = G.df_type_and_indices_from(d, V)
    check(r.index.equals(d.index) and list(r.columns) == list(d.columns), "indices taken from the frame")
    same(r.to_numpy(), V, "values")
    r = G.df_type_and_indices_from(d, g.normal(n, 2), except_columns=["u", "v"])
    check(list(r.columns) == ["u", "v"] and r.index.equals(d.index), "other columns")
    r = G.df_type_and_indices_from(d, V, except_index=np.arange(n))
    check(list(r.index) == list(range(n)), "other index")
    check(G.is_df_same_index(d, d.copy()), "same index")
    check(G.is_df_same_index(d, d + 1), "same index, other values")
    e = d.copy()
    e.index = e.index + 1
    check(not G.is_df_same_index(d, e, handle=None), "other index")
    check(G.is_df_same_index(d, e, check_index=False), "only columns")
    e = d.copy()
    e.columns = ["z"] + list(e.columns[1:])
    check(not G.is_df_same_index(d, e, handle=None), "other columns")
    check(G.is_df_same_index(d, e, check_column=False), "only index")
    raises(AssertionError, lambda: G.is_df_same_index(d, e, handle="raise"), "other columns raise")


CASES = [diagonal_products, eigenpairs, projections, symmetry, subsample, predicates, frames]
SCALE = 8

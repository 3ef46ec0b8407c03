"""C14 transformers: formula, names and inverse agree"""
import types

import numpy as np
import pandas as pd

from vc import tables as tb


def T():
    from datafold.dynfold import transform
    return transform


def B():
    from datafold.dynfold import base
    return base


def TSC():
    from datafold.pcfold import TSCDataFrame
    return TSCDataFrame


def quiet(v, o):
    """checks of data and features: contracts of C17"""
    m = T()
    v.stub(m, "check_is_fitted", lambda *a, **k: None)
    v.stub(o, "_validate_datafold_data", lambda X, **k: X)
    v.stub(o, "_validate_feature_input", lambda X, direction: None)
    return o


def new(cls, **attrs):
    o = object.__new__(getattr(T(), cls))
    o.__dict__.update(attrs)
    return o


def array(v, n=None):
    return v.array("X", (v.int("N", 1), v.int("n", 1) if n is None else n))


def collection(v, labels, name="X", N=None):
    """a collection with these feature names; any number of rows, series, times"""
    N = v.int("N", 1) if N is None else N
    val = v.array(name, (N, len(labels)))
    ids, t = v.array("id", (N,), dt="int"), v.array("time", (N,))
    X = tb.Tab(val, tb.SMulti(tb.SIndex(ids), tb.SIndex(t)), list(labels), TSC())
    X.__dict__.update(val=val, N=N, ids_=ids, times_=t)
    return X


def same_rows(v, X, Y):
    v.prove_eq("series", Y.index.l[0].a, X.ids_)
    v.prove_eq("times", Y.index.l[1].a, X.times_)


NAMES = ["a", "b", "c"]


def identity_array(v):
    """TSCIdentity: the data, with a column of ones at the end if requested; the inverse returns the data"""
    c = bool(v.split(v.bool("const")))
    o = quiet(v, new("TSCIdentity", include_const=c, rename_features=bool(v.split(v.bool("rename"))), is_fit_=True))
    X = array(v)
    N, n = X.shape
    Y = o.transform(X)
    v.prove_eq("features", Y.shape[1], n + int(c))
    i, j = v.int("i", 0, N - 1), v.int("j", 0, n - 1)
    v.prove("value", Y[i, j] == X[i, j])
    if c:
        v.prove("constant", Y[i, n] == 1)
    v.prove_eq("inverse", o.inverse_transform(Y), X)
    v.frame("unchanged", X)


def identity_frame(v):
    """TSCIdentity on a collection: rows, values, names (as get_feature_names_out says), inverse; the data handed in stays"""
    c, r = bool(v.split(v.bool("const"))), bool(v.split(v.bool("rename")))
    o = quiet(v, new("TSCIdentity", include_const=c, rename_features=r, is_fit_=True, feature_names_in_=np.array(NAMES, dtype=object)))
    X = collection(v, NAMES)
    val, cols = X.v, list(X.columns.labels)
    Y = o.transform(X)
    v.fact("names", list(Y.columns.labels) == list(o.get_feature_names_out()))
    v.fact("renamed", list(Y.columns.labels) == [f"{a}_id" if r else a for a in NAMES] + (["const"] if c else []))
    i = v.int("i", 0, X.N - 1)
    for j in range(3):
        v.prove(f"value {j}", Y.v[i, j] == X.val[i, j])
    if c:
        v.prove("constant", Y.v[i, 3] == 1)
    same_rows(v, X, Y)
    v.fact("not the data handed in", Y is not X and Y.v is not val)
    w = Y.v.snapshot()
    Z = o.inverse_transform(Y)
    v.prove_eq("inverse", Z.v, X.val)
    v.fact("names of the inverse", list(Z.columns) == NAMES)
    same_rows(v, X, Z)
    v.prove_eq("transformed data unchanged", Y.v, w)
    v.fact("data unchanged", X.v is val and list(X.columns.labels) == cols)
    v.frame("values unchanged", X.val)


def same_type(v):
    """_same_type_X: values for arrays, a frame with the rows of X for frames, a collection with the series and times of X for collections"""
    o = object.__new__(B().TSCTransformerMixin)
    X = collection(v, NAMES)
    val = v.array("Y", (X.N, 2))
    out = o._same_type_X(X, val, ["u", "w"])
    v.fact("collection", out._vc_type is TSC() and out.columns.labels == ["u", "w"])
    v.prove_eq("values", out.v, val)
    same_rows(v, X, out)
    F = tb.Tab(X.val, tb.SIndex(v.array("row", (X.N,), dt="int")), NAMES)
    out = o._same_type_X(F, val, ["u", "w"])
    v.fact("frame", out._vc_type is pd.DataFrame and out.columns.labels == ["u", "w"] and out.index is F.index)
    v.prove_eq("values of the frame", out.v, val)
    v.prove_eq("array", o._same_type_X(X.val, val, None), val)
    v.frame("unchanged", X.val, val)


def radial_basis(v):
    """TSCRadialBasis: coefficient k of a point is the kernel of the point and center k, each point on its own; the inverse is the documented linear map"""
    from datafold.pcfold.kernels import GaussianKernel
    e = v.real("eps", pos=True)
    k, n = v.int("k", 2), v.int("n", 1)
    C = v.array("C", (k, n))
    o = quiet(v, new("TSCRadialBasis", kernel=GaussianKernel(epsilon=e), center_type="fit_params", exact_distance=True, n_samples=1, centers_=C))
    X = array(v, n)
    o.get_feature_names_out = lambda *a: None
    Y = o.transform(X)
    v.prove_eq("formula", Y, v.arr_fn((X.shape[0], k), lambda i, j: v.exp(-v.sum(n, lambda q: (X[i, q] - C[j, q]) * (X[i, q] - C[j, q])) / (2 * e))))
    M = v.array("M", (k, n))
    asked = []
    v.model(np.linalg.lstsq, lambda A, b, rcond=None: asked.append((A, b)) or (M, None, None, None))
    R = v.array("R", (v.int("r", 1), k))
    Z = o.inverse_transform(R)
    v.prove_eq("inverse", Z, v.arr_fn((R.shape[0], n), lambda i, j: v.sum(k, lambda q: R[i, q] * M[q, j])))
    A, b = asked[0]
    v.prove_eq("right-hand side", b, C)
    a, c = v.int("a", 0, k - 1), v.int("b", 0, k - 1)
    v.prove("system of the inverse", v.or_(a == c, A[a, c] == v.exp(-v.sum(n, lambda q: (C[a, q] - C[c, q]) * (C[a, q] - C[c, q])) / (2 * e))))
    v.prove("its diagonal", A[a, a] == 1)
    Z2 = o.inverse_transform(R)
    v.prove_eq("repeated", Z2, Z)
    v.fact("solved once", len(asked) == 1)
    v.frame("unchanged", X, R, C)


def radial_basis_fit(v):
    """TSCRadialBasis.fit: the centers are the requested ones and the inverse of an earlier fit is dropped"""
    from datafold.pcfold.kernels import GaussianKernel
    kind = "all_data" if v.split(v.bool("all")) else "fit_params"
    o = quiet(v, new("TSCRadialBasis", kernel=GaussianKernel(epsilon=1.0), center_type=kind, exact_distance=True, n_samples=1, centers_=0, inv_coeff_matrix_=0))
    o._setup_feature_attrs_fit = lambda X, **k: None
    X = array(v)
    C = v.array("C", (v.int("k", 1), v.int("p", 1)))
    if kind == "all_data":
        o.fit(X)
        v.prove_eq("centers", o.centers_, X)
        v.fact("old inverse dropped", "inv_coeff_matrix_" not in o.__dict__)
        v.raises("centers given as well", ValueError, v.num(0) == 0, lambda: o.fit(X, centers=C))
    else:
        v.raises("dimension of the centers", ValueError, v.not_(C.shape[1] == X.shape[1]), lambda: o.fit(X, centers=C))
        v.prove_eq("centers", o.centers_, C)
        v.fact("old inverse dropped", "inv_coeff_matrix_" not in o.__dict__)
    v.frame("unchanged", X, C)


def radial_basis_random(v):
    """TSCRadialBasis.fit(random): the centers are distinct samples; more than available are refused"""
    from datafold.pcfold.kernels import GaussianKernel
    s = v.int("n_samples", 1)
    o = quiet(v, new("TSCRadialBasis", kernel=GaussianKernel(epsilon=1.0), center_type="random", exact_distance=True, n_samples=s))
    o._setup_feature_attrs_fit = lambda X, **k: None
    X = array(v)
    pick = v.array("pick", (s,), dt="int", nonneg=True)
    v.assume_forall(s, lambda i: pick[i] < X.shape[0])
    asked = []

    class Rng:
        _vc_sym = True

        def choice(self, a, size=None, replace=True):
            asked.append((size, replace))
            return pick

    v.stub(np.random, "default_rng", lambda seed=None: Rng())
    v.raises("more than available", ValueError, s > X.shape[0], lambda: o.fit(X))
    v.prove_eq("centers", o.centers_, v.arr_fn((s, X.shape[1]), lambda i, j: X[pick[i], j]))
    v.fact("without repetition", asked[0][1] is False and asked[0][0] is s)
    v.frame("unchanged", X)


def polynomial(v):
    """TSCPolynomialFeatures: the columns of scikit-learn, without those of the states if they are not requested; powers_ describes exactly these"""
    from sklearn.preprocessing import PolynomialFeatures
    first = bool(v.split(v.bool("first order")))
    o = quiet(v, new("TSCPolynomialFeatures", include_first_order=first, degree=2, interaction_only=False, include_bias=False, order="C"))
    X = array(v)
    N, n = X.shape
    P = v.int("P", 1)
    full, pw = v.array("full", (N, P)), v.array("powers", (P, n), dt="int", nonneg=True)
    v.stub(PolynomialFeatures, "transform", lambda self, Y: full)
    v.stub(PolynomialFeatures, "powers_", property(lambda self: pw))
    v.stub(type(o), "get_feature_names_out", lambda self, *a, **k: None)
    Y = o.transform(X)
    R = o.powers_
    if first:
        v.prove_eq("all features", Y, full)
        v.prove_eq("powers", R, pw)
        return
    v.prove_eq("powers describe the columns", Y.shape[1], R.shape[0])
    sel = v.lib(np.nonzero, v.lib(np.sum, pw, axis=1) != 1)[0]
    q, i, j = v.int("q", 0), v.int("i", 0, N - 1), v.int("j", 0, n - 1)
    v.assume(q < sel.shape[0])
    v.prove_eq("number of columns", Y.shape[1], sel.shape[0])
    v.prove("column", Y[i, q] == full[i, sel[q]])
    v.prove("its powers", R[q, j] == pw[sel[q], j])
    p = v.int("p", 0, P - 1)
    v.assume(v.not_(v.lib(np.sum, pw, axis=1)[p] == 1))
    a = sel.pos(p)
    v.instantiate(p)
    v.lemma("place of the column", v.and_(a >= 0, a < sel.shape[0]))
    v.prove("no other column is dropped", sel[a] == p)
    v.frame("unchanged", X, full, pw)


def _series(v, name, least):
    """one series: symbolic number of samples and values, two features"""
    m = v.int(f"m_{name}", least)
    val = v.array(f"x_{name}", (m, 2))
    ids = v.int(f"id_{name}", 0)
    t = v.array(f"t_{name}", (m,))
    s = tb.Tab(val, tb.SMulti(tb.SIndex(v.arr_fn((m,), lambda i: ids, dt="int")), tb.SIndex(t)), ["a", "b"])
    s.__dict__.update(m=m, val=val, t=t, id=ids)
    return s


def _takens(delays, lag, frequency, weighted):
    def contract(v):
        kap = v.real("kappa", pos=True) if weighted else 0
        o = quiet(v, new("TSCTakensEmbedding", delays=delays, lag=lag, frequency=frequency, kappa=kap))
        D = [lag + 1 + q * frequency for q in range(delays)]
        o.delay_indices_ = o._setup_delay_indices_array()
        v.fact("delays", [int(x) for x in o.delay_indices_] == D)
        o.delta_time_fit_, o.min_timesteps_ = 1.0, max(D) + 1
        o.n_features_in_, o.feature_names_in_ = 2, np.array(["a", "b"], dtype=object)
        S = [_series(v, "p", max(D) + 1), _series(v, "q", max(D) + 1)]
        X = collection(v, ["a", "b"])
        X.__dict__["ids"] = [s.id for s in S]
        X.__dict__["copy"] = lambda deep=True: X
        X.__dict__["groupby"] = lambda *a, **k: [(s.id, s) for s in S]
        parts = []

        def concat(l, axis=0):
            parts.extend(l)
            return l[0]

        v.model(pd.concat, concat)
        v.stub(B(), "TSCDataFrame", B().TSCDataFrame)
        Y = o.transform(X)
        v.fact("one block per series", len(parts) == 2)
        for nm, s, y in zip("pq", S, parts):
            v.prove_eq(f"{nm}: rows", y.shape[0], s.m - max(D))
            v.fact(f"{nm}: names", list(y.columns.labels) == list(o.get_feature_names_out()) == ["a", "b"] + [f"{c}:d{d}" for d in D for c in "ab"])
            r = v.int("r", 0)
            v.assume(r < y.shape[0])
            for j in range(2):
                v.prove(f"{nm}: state {j}", y.v[r, j] == s.val[r + max(D), j])
                for b, d in enumerate(D):
                    w = v.exp(-kap * (b + 1)) if weighted else v.num(1)
                    v.prove(f"{nm}: delay {d} of state {j}", y.v[r, 2 * (b + 1) + j] == s.val[r + max(D) - d, j] * w)
            v.prove(f"{nm}: time", y.index.l[1].a[r] == s.t[r + max(D)])
            v.prove(f"{nm}: series", y.index.l[0].a[r] == s.id)
            v.frame(f"{nm}: unchanged", s.val)
        Z = o.inverse_transform(parts[0])
        v.fact("names of the inverse", list(Z.columns) == ["a", "b"])
        v.prove_eq("inverse", Z.v, v.arr_fn((S[0].m - max(D), 2), lambda i, j: S[0].val[i + max(D), j]))
    contract.__name__ = f"takens_d{delays}_l{lag}_f{frequency}{'_kappa' if weighted else ''}"
    contract.__doc__ = f"TSCTakensEmbedding(delays={delays}, lag={lag}, frequency={frequency}): every row holds the state and its delayed states of the same series; the inverse returns the kept rows"
    return contract


def select(v):
    """TSCFeatureSelect: the columns with the selected names, in the selected order"""
    o = quiet(v, new("TSCFeatureSelect", features=np.array(["c", "a"])))
    X = collection(v, NAMES)
    Y = o.transform(X)
    v.fact("names", list(Y.columns.labels) == ["c", "a"] == list(o.get_feature_names_out()))
    i = v.int("i", 0, X.N - 1)
    v.prove("first", Y.v[i, 0] == X.val[i, 2])
    v.prove("second", Y.v[i, 1] == X.val[i, 0])
    same_rows(v, X, Y)
    v.frame("unchanged", X.val)


def _difference(scheme, order, accuracy, weights, offsets, shifted):
    """scheme, order and accuracy with their coefficients (weights at offsets)"""
    def contract(v):
        from datafold.pcfold.timeseries.accessor import TSCAccessor
        lo, hi = -min(offsets), max(offsets)
        S = [_series(v, "p", lo + hi + 1), _series(v, "q", lo + hi + 1)]
        h = v.real("dt", pos=True)
        X = collection(v, ["a", "b"])
        X.__dict__.update(ids=[s.id for s in S], delta_time=h, itertimeseries=lambda *a, **k: [(s.id, tb.Tab(s.val, tb.SIndex(s.t), ["a", "b"])) for s in S])
        parts = []

        def frames(cls, l, ts_ids=None):
            parts.append((list(l), ts_ids))
            return tb.Tab(l[0].v, tb.SMulti(tb.SIndex(v.arr_fn((l[0].shape[0],), lambda i: S[0].id, dt="int")), l[0].index), list(l[0].columns), TSC())

        v.stub(TSC(), "from_frame_list", classmethod(frames))
        v.stub(TSCAccessor, "check_const_time_delta", lambda self: h)
        o = quiet(v, new("TSCFiniteDifference", scheme=scheme, diff_order=order, accuracy=accuracy, spacing_=h, feature_names_in_=["a", "b"]))
        Y = o.transform(X)
        v.fact("names", list(Y.columns) == [f"a_dot{order}", f"b_dot{order}"] == list(o.get_feature_names_out()))
        l, ids = parts[0]
        v.fact("one block per series", len(l) == 2 and list(ids) == [s.id for s in S])
        for nm, s, y in zip("pq", S, l):
            v.prove_eq(f"{nm}: rows", y.shape[0], s.m - lo - hi)
            r = v.int("r", 0)
            v.assume(r < y.shape[0])
            hk = h
            for _ in range(order - 1):
                hk = hk * h
            for j in range(2):
                w = v.num(0)
                for c, q in zip(weights, offsets):
                    w = w + v.num(c) * s.val[r + lo + q, j]
                v.prove(f"{nm}: formula {j}", y.v[r, j] * hk == w)
            v.prove(f"{nm}: time", y.index.a[r] == s.t[r + (lo + hi if shifted else lo)])
            v.frame(f"{nm}: unchanged", s.val)
    contract.__name__ = f"difference_{scheme}_{order}_{accuracy}"
    contract.__doc__ = f"TSCFiniteDifference({scheme}, order {order}, accuracy {accuracy}): the difference quotient of the same series at every kept row, and its time"
    return contract


CONTRACTS = [_difference("center", 1, 2, [-0.5, 0.5], [-1, 1], True), _difference("backward", 1, 2, [0.5, -2.0, 1.5], [-2, -1, 0], False),
             _difference("center", 2, 2, [1.0, -2.0, 1.0], [-1, 0, 1], True), _difference("forward", 1, 2, [-1.5, 2.0, -0.5], [0, 1, 2], True)]
CONTRACTS += [identity_array, identity_frame, same_type, radial_basis, radial_basis_fit, radial_basis_random, polynomial, select,
             _takens(1, 0, 1, False), _takens(2, 0, 1, True), _takens(3, 2, 2, True), _takens(2, 1, 3, False)]


def lambdas(v):
    """TSCApplyLambdas: every function applied to every feature, in the order of the names"""
    f, g = (lambda x: x * x), (lambda x: 2 * x + 1)
    o = quiet(v, new("TSCApplyLambdas", lambdas=[f, g], feature_names_in_=np.array(NAMES, dtype=object)))
    X = collection(v, NAMES)
    Y = o.transform(X)
    names = [f"{a}_lambda{k}" for k in range(2) for a in NAMES]
    v.fact("names", list(Y.columns) == names == list(o.get_feature_names_out()))
    i = v.int("i", 0, X.N - 1)
    for j in range(3):
        v.prove(f"first function of feature {j}", Y.v[i, j] == X.val[i, j] * X.val[i, j])
        v.prove(f"second function of feature {j}", Y.v[i, 3 + j] == 2 * X.val[i, j] + 1)
    same_rows(v, X, Y)
    v.frame("unchanged", X.val)
    v.fact("names of the data", list(X.columns) == NAMES)


class Scaler:
    """scikit-learn transformer with any values"""

    _vc_sym = True

    def __init__(self, out, back):
        self.out, self.back, self.seen = out, back, []

    def transform(self, X):
        self.seen.append(X)
        return self.out

    def inverse_transform(self, X):
        self.seen.append(X)
        return self.back


def preprocess(v):
    """TSCFeaturePreprocess: the values of the fitted scikit-learn transformer in the rows of the data"""
    X = collection(v, NAMES)
    val, bk = v.array("val", (X.N, 2)), v.array("back", (X.N, 3))
    s = Scaler(val, bk)
    o = quiet(v, new("TSCFeaturePreprocess", sklearn_transformer=s, sklearn_transformer_fit_=s, feature_names_in_=np.array(NAMES, dtype=object)))
    v.stub(type(o), "get_feature_names_out", lambda self, *a, **k: ["u", "w"])
    Y = o.transform(X)
    v.fact("names", list(Y.columns) == ["u", "w"])
    v.prove_eq("values", Y.v, val)
    same_rows(v, X, Y)
    Z = o.inverse_transform(Y)
    v.fact("names of the inverse", list(Z.columns) == NAMES)
    v.prove_eq("values of the inverse", Z.v, bk)
    same_rows(v, X, Z)
    v.fact("asked for this data", s.seen == [X, Y])
    v.frame("unchanged", X.val)


def _pca(cls):
    def contract(v):
        from sklearn.decomposition import PCA
        from sklearn.decomposition._base import _BasePCA
        X = collection(v, NAMES)
        val, bk = v.array("val", (X.N, 2)), v.array("back", (X.N, 3))
        seen = []
        C = getattr(T(), cls)
        o = quiet(v, new(cls, feature_names_in_=np.array(NAMES, dtype=object)))
        v.stub(_BasePCA, "transform", lambda self, Q: seen.append(Q) or val)
        v.stub(_BasePCA, "inverse_transform", lambda self, Q: seen.append(Q) or bk)
        v.stub(C, "get_feature_names_out", lambda self, *a, **k: ["u", "w"])
        Y = o.transform(X)
        v.fact("names", list(Y.columns) == ["u", "w"])
        v.prove_eq("values", Y.v, val)
        same_rows(v, X, Y)
        Z = o.inverse_transform(Y)
        v.fact("names of the inverse", list(Z.columns) == NAMES)
        v.prove_eq("values of the inverse", Z.v, bk)
        same_rows(v, X, Z)
        v.fact("asked for the values of this data", seen[0] is X or seen[0] is X.v)
        v.frame("unchanged", X.val)
    contract.__name__ = cls
    contract.__doc__ = f"{cls}: the components of scikit-learn in the rows of the data"
    return contract


CONTRACTS += [lambdas, preprocess, _pca("TSCPrincipalComponent")]

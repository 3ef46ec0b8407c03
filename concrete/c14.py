"""C14 - transformers: formula, names and inverse agree (bounded)"""
import itertools

import numpy as np
import pandas as pd
from concrete.c03 import by_id, constant
from concrete.core import check, case, close, raises, same
from concrete.tsgen import frame, general, untouched
from datafold.dynfold.transform import (FourierRBF, TSCApplyLambdas, TSCFeaturePreprocess, TSCFeatureSelect, TSCFiniteDifference,
                                        TSCIdentity, TSCIncrementalPCA, TSCMovingAverage, TSCPolynomialFeatures, TSCPrincipalComponent,
                                        TSCRadialBasis, TSCTakensEmbedding)
from datafold.pcfold import GaussianKernel, InverseMultiquadricKernel, TSCDataFrame
from sklearn.preprocessing import MaxAbsScaler, RobustScaler


def forms(g, X, names=None):
    """the same data as collection, data frame or array"""
    kind = g.choice("tsc", "tsc", "df", "np")
    g.note(kind=kind)
    if kind == "tsc":
        return kind, X
    if kind == "df":
        return kind, pd.DataFrame(X.to_numpy(), index=pd.Index(np.arange(100, 100 + len(X))), columns=list(X.columns))
    return kind, X.to_numpy()


def val(X):
    return X.to_numpy() if hasattr(X, "to_numpy") else np.asarray(X)


def rows(kind, X, Y, est, names, msg):
    """rows, types and names of Y = est.transform(X)"""
    if kind == "np":
        check(type(Y) is np.ndarray, f"{msg}: array in, array out", type=type(Y).__name__)
    else:
        check(type(Y) is type(X), f"{msg}: type of the data", type=type(Y).__name__)
        check(Y.index.equals(X.index), f"{msg}: rows keep series and times")
        check(list(map(str, Y.columns)) == list(map(str, names)), f"{msg}: feature names", got=list(Y.columns), want=list(names))
        check(list(Y.columns) == list(est.get_feature_names_out()), f"{msg}: get_feature_names_out describes the columns", got=list(Y.columns),
              want=list(est.get_feature_names_out()))
        if kind == "tsc":
            check(Y.columns.name == TSCDataFrame.tsc_feature_col_name and list(Y.index.names) == list(X.index.names), f"{msg}: level names")
    check(est.n_features_out_ == Y.shape[1], f"{msg}: n_features_out_")


def back(kind, X, Z, msg, want=None, rtol=1e-7, atol=1e-8):
    close(val(Z), val(X) if want is None else want, f"{msg}: the inverse returns the data", rtol=rtol, atol=atol)
    if kind != "np":
        check(type(Z) is type(X) and Z.index.equals(X.index) and list(Z.columns) == list(X.columns), f"{msg}: the inverse returns series, times and features",
              got=list(getattr(Z, "columns", [])), want=list(X.columns))


def other_data(g, X):
    """query with the features of X"""
    Q, *_ = general(g, n=X.shape[1], lo=1, hi=5)
    Q.columns = pd.Index(list(X.columns), name=X.columns.name)
    return Q


def subset(g, kind, est, X, Y, msg):
    """transforming some of the rows gives the same rows"""
    m = val(X).shape[0]
    k = np.sort(g.rng.choice(m, g.int(1, m), replace=False))
    part = X[k] if kind == "np" else X.iloc[k]
    close(val(est.transform(part)), val(Y)[k], f"{msg}: a row does not depend on the others", rtol=1e-9, atol=1e-10)


def refit(g, make, X, msg):
    """an estimator fitted before on other data behaves like a new one"""
    n2 = g.int(1, 4)
    O, *_ = constant(g, lo=8, hi=10, n=n2)
    est = make()
    try:
        est.fit(O)
        est.transform(O)
        if hasattr(est, "inverse_transform"):
            est.inverse_transform(est.transform(O))
    except ValueError:
        est = make().fit(X)
    return est.fit(X)


def twice(g, est, X, Y, msg):
    if g.flag(0.5):
        Y2, ok = (lambda r: r)(untouched(X, lambda: est.transform(X))) if isinstance(X, TSCDataFrame) else (est.transform(X), True)
        check(ok, f"{msg}: transform leaves the data unchanged")
        same(val(Y2), val(Y), f"{msg}: repeating gives the same")


def call(kind, X, fn, msg):
    if kind == "tsc":
        r, ok = untouched(X, fn)
        check(ok, f"{msg} leaves the data unchanged")
        return r
    c = X.copy()
    r = fn()
    check(np.array_equal(val(c), val(X)) and (kind == "np" or (c.columns.equals(X.columns) and c.index.equals(X.index))), f"{msg} leaves the data unchanged")
    return r


@case(50)
def identity(g):
    X0, *_ = general(g, lo=2)
    kind, X = forms(g, X0)
    const, ren = g.flag(), g.flag()
    g.note(const=const, rename=ren)
    make = lambda: TSCIdentity(include_const=const, rename_features=ren)
    est = refit(g, make, X, "identity") if kind == "tsc" and g.flag() else make()
    call(kind, X, lambda: est.fit(X), "fit")
    Y = call(kind, X, lambda: est.transform(X), "transform")
    want = val(X) if not const else np.column_stack([val(X), np.ones(len(val(X)))])
    same(val(Y), want, "identity (and a column of ones)")
    if kind == "np":
        check(Y.shape[1] == est.n_features_out_, "number of features")
    else:
        names = [f"{c}_id" if ren else c for c in X.columns] + (["const"] if const else [])
        rows(kind, X, Y, est, names, "identity")
    back(kind, X, call(kind, Y, lambda: est.inverse_transform(Y), "inverse"), "identity")
    subset(g, kind, est, X, Y, "identity")


@case(50)
def preprocess(g):
    X0, *_ = general(g, lo=4)
    kind, X = forms(g, X0)
    name = g.choice("center", "min-max", "standard", "maxabs", "robust")
    g.note(name=name)
    make = lambda: (TSCFeaturePreprocess.from_name(name) if name in ("center", "min-max", "standard")
                    else TSCFeaturePreprocess(MaxAbsScaler() if name == "maxabs" else RobustScaler()))
    est = make()
    if kind == "tsc" and g.flag():
        est = refit(g, make, X, name)
    call(kind, X, lambda: est.fit(X), "fit")
    x = val(X)
    mu, sd, lo, hi = x.mean(0), x.std(0), x.min(0), x.max(0)
    f = {"center": lambda q: q - mu, "standard": lambda q: (q - mu) / sd, "min-max": lambda q: (q - lo) / (hi - lo),
         "maxabs": lambda q: q / np.abs(x).max(0),
         "robust": lambda q: (q - np.median(x, axis=0)) / (np.percentile(x, 75, axis=0) - np.percentile(x, 25, axis=0))}[name]
    Y = call(kind, X, lambda: est.transform(X), "transform")
    close(val(Y), f(x), f"{name} of the training data", rtol=1e-9, atol=1e-9)
    rows(kind, X, Y, est, X.columns if kind != "np" else range(x.shape[1]), name)
    back(kind, X, call(kind, Y, lambda: est.inverse_transform(Y), "inverse"), name)
    subset(g, kind, est, X, Y, name)
    F = make().fit_transform(X)
    close(val(F), val(Y), "fit_transform is fit and transform")
    if kind == "tsc":
        Q = other_data(g, X)
        Z = call(kind, Q, lambda: est.transform(Q), "transform")
        close(val(Z), f(val(Q)), f"{name} of new data scales with the training data", rtol=1e-9, atol=1e-9)
        check(Z.index.equals(Q.index), "rows keep series and times")


@case(30)
def select(g):
    X, *_ = general(g, n=g.int(2, 4), lo=1)
    k = g.rng.permutation(X.shape[1])[:g.int(1, X.shape[1])]
    by_name = g.flag()
    sel = np.array([X.columns[i] for i in k]) if by_name else np.asarray(k, dtype=g.choice(np.int64, np.int32))
    g.note(sel=sel)
    est = TSCFeatureSelect(sel)
    call("tsc", X, lambda: est.fit(X), "fit")
    Y = call("tsc", X, lambda: est.transform(X), "transform")
    same(Y.to_numpy(), X.to_numpy()[:, k], "selected features")
    rows("tsc", X, Y, est, [X.columns[i] for i in k], "selection")
    raises(ValueError, lambda: TSCFeatureSelect(np.array(["nope"])).fit(X), "unknown feature")
    raises(ValueError, lambda: TSCFeatureSelect([0]).fit(X), "not an array")


@case(50)
def principal_components(g):
    X0, *_ = general(g, n=g.int(2, 4), lo=4)
    kind, X = forms(g, X0)
    inc = g.flag(0.4)
    x = val(X)
    full = g.flag()
    c = x.shape[1] if full else g.int(1, x.shape[1])
    whiten = g.flag(0.3)
    make = lambda: TSCIncrementalPCA(c, whiten=whiten, batch_size=10 ** 6) if inc else TSCPrincipalComponent(c, whiten=whiten, svd_solver="full")
    est = make()
    if kind == "tsc" and g.flag(0.4):
        O, *_ = constant(g, lo=8, hi=10, n=g.int(c, 4))
        est.fit(O)
    g.note(inc=inc, c=c, whiten=whiten)
    call(kind, X, lambda: est.fit(X), "fit")
    Y = call(kind, X, lambda: est.transform(X), "transform")
    rows(kind, X, Y, est, [f"pca{i}" for i in range(c)], "principal components")
    z = x - x.mean(0)
    _, s, vt = np.linalg.svd(z, full_matrices=False)
    want = z @ vt[:c].T
    if whiten:
        want = want / (s[:c] / np.sqrt(len(x) - 1))
    if len(x) > x.shape[1] and min(abs(np.diff(s)), default=1) > 1e-3 and s[-1] > 1e-3:
        close(np.abs(val(Y)), np.abs(want), "projection onto the principal directions", rtol=1e-6, atol=1e-7)
        proj = x.mean(0) + z @ vt[:c].T @ vt[:c]
        Z = call(kind, Y, lambda: est.inverse_transform(Y), "inverse")
        back(kind, X, Z, "principal components", want=proj)
        check(not full or np.allclose(val(Z), x, atol=1e-7), "all components: the inverse returns the data")
    subset(g, kind, est, X, Y, "principal components")
    if not inc:
        F = make().fit_transform(X)
        close(val(F), val(Y), "fit_transform is fit and transform", rtol=1e-6, atol=1e-8)


@case(60)
def takens(g):
    d, lag, fr = g.int(1, 3), g.choice(0, 0, 1, 2), g.int(1, 2)
    fr = 1 if d == 1 else fr
    kap = g.choice(0, 0, 0.5, 1)
    idx = [lag + 1 + k * fr for k in range(d)]
    mx = max(idx)
    X, blocks, ids, axes, names, dt = constant(g, lo=mx + 1, hi=mx + 5)
    ints = g.flag(0.25)
    if ints:
        X = TSCDataFrame(X.mul(10).round().astype(int))
        blocks = [X.to_numpy()[X.index.get_level_values(0) == i] for i in ids]
    g.note(delays=d, lag=lag, frequency=fr, kappa=kap, ints=ints)
    est = TSCTakensEmbedding(delays=d, lag=lag, frequency=fr, kappa=kap)
    if g.flag(0.3):
        O, *_ = constant(g, lo=mx + 1, hi=mx + 3)
        est.fit(O)
    call("tsc", X, lambda: est.fit(X), "fit")
    Y = call("tsc", X, lambda: est.transform(X), "transform")
    want = list(names) + [f"{c}:d{k}" for k in idx for c in names]
    check(list(Y.columns) == want and list(est.get_feature_names_out()) == want, "delay names", got=list(Y.columns), want=want)
    check(est.n_features_out_ == Y.shape[1], "number of features")
    res = by_id(Y, "takens")
    check(set(res) == {int(i) for i in ids}, "every series is embedded")
    for i, b, t in zip(ids, blocks, axes):
        same(res[int(i)][0], np.asarray(t)[mx:], "times of the embedded rows")
        w = np.hstack([b[mx:]] + [b[mx - k:len(b) - k] * (np.exp(-kap * (j + 1)) if kap else 1) for j, k in enumerate(idx)])
        close(res[int(i)][1], w, "current sample and delayed samples of the same series", rtol=1e-12)
    Z = call("tsc", Y, lambda: est.inverse_transform(Y), "inverse")
    zr = by_id(Z, "inverse")
    for i, b in zip(ids, blocks):
        same(zr[int(i)][1], b[mx:], "the inverse returns the current samples")
    check(list(Z.columns) == list(names), "names of the inverse")
    short, *_ = constant(g, m=1, n=X.shape[1], lo=1, hi=mx)
    short.columns = X.columns
    try:
        est.transform(short)
    except Exception:
        pass
    else:
        check(False, "too short series must be rejected")


@case(40)
def numeric_names(g):
    """features named by numbers"""
    X, blocks, ids, axes, names, dt = constant(g, lo=3, hi=6)
    X.columns = pd.Index(np.arange(X.shape[1]), name=X.columns.name)
    est = g.choice(lambda: TSCTakensEmbedding(delays=1), lambda: TSCApplyLambdas([np.sin]), lambda: TSCIdentity(rename_features=True),
                   lambda: TSCPrincipalComponent(1), lambda: TSCMovingAverage(window=2), lambda: TSCFeaturePreprocess.from_name("standard"))()
    g.note(est=type(est).__name__)
    call("tsc", X, lambda: est.fit(X), "fit")
    Y = call("tsc", X, lambda: est.transform(X), "transform")
    check(list(map(str, Y.columns)) == list(map(str, est.get_feature_names_out())), "names describe the columns", got=list(Y.columns), want=list(est.get_feature_names_out()))


@case(40)
def polynomials(g):
    X0, *_ = general(g, n=g.int(1, 3), lo=1)
    kind, X = forms(g, X0)
    deg, io, bias, first = g.int(1 if g.flag(0.3) else 2, 3), g.flag(0.3), g.flag(), g.flag()
    x = val(X)
    n = x.shape[1]
    pw = [p for k in range(0 if bias else 1, deg + 1) for p in (itertools.combinations if io else itertools.combinations_with_replacement)(range(n), k)]
    pw = [p for p in pw if first or len(p) != 1]
    if not pw:
        return
    g.note(degree=deg, interaction_only=io, bias=bias, first=first, n=n)
    make = lambda: TSCPolynomialFeatures(deg, interaction_only=io, include_bias=bias, include_first_order=first)
    est = make()
    if kind == "tsc" and g.flag(0.4):
        O, *_ = constant(g, n=g.int(2, 3), lo=2)
        try:
            est.fit(O)
        except ValueError:
            est = make()
    call(kind, X, lambda: est.fit(X), "fit")
    Y = call(kind, X, lambda: est.transform(X), "transform")
    close(val(Y), np.array([[np.prod([r[i] for i in p]) if p else 1.0 for p in pw] for r in x]), "products of the features", rtol=1e-10)
    nm = list(X.columns) if kind != "np" else [f"x{i}" for i in range(n)]

    def name(p):
        return " ".join(nm[i] + (f"^{p.count(i)}" if p.count(i) > 1 else "") for i in sorted(set(p))) if p else "1"
    rows(kind, X, Y, est, [name(p) for p in pw], "polynomials")
    want = np.array([[p.count(i) for i in range(n)] for p in pw])
    same(est.powers_, want, "powers describe the output columns")
    subset(g, kind, est, X, Y, "polynomials")


@case(30)
def lambdas(g):
    X, *_ = general(g, lo=1)
    pool = [np.sin, np.cos, lambda v: v ** 3, lambda v: 2 * v + 1, np.abs]
    fs = [pool[i] for i in g.rng.choice(5, g.int(1, 3), replace=False)]
    est = TSCApplyLambdas(fs)
    if g.flag(0.4):
        est.fit(constant(g, n=3)[0])
    call("tsc", X, lambda: est.fit(X), "fit")
    Y = call("tsc", X, lambda: est.transform(X), "transform")
    close(Y.to_numpy(), np.hstack([f(X.to_numpy()) for f in fs]), "every function of every feature")
    rows("tsc", X, Y, est, [f"{c}_lambda{i}" for i in range(len(fs)) for c in X.columns], "lambdas")
    subset(g, "tsc", est, X, Y, "lambdas")


@case(50)
def radial(g):
    X0, blocks, *_ = general(g, lo=2, m=g.int(2, 4), n=g.int(1, 3))
    kind, X = forms(g, X0)
    ct = g.choice("all_data", "random", "fit_params", "initial_condition") if kind == "tsc" else g.choice("all_data", "random", "fit_params")
    x = val(X)
    eps = g.uniform(0.5, 3)
    k = g.int(2, len(x))
    gauss = g.flag(0.7)
    kern = lambda: GaussianKernel(epsilon=eps) if gauss else InverseMultiquadricKernel(epsilon=eps)
    make = lambda: TSCRadialBasis(kern(), center_type=ct, n_samples=k)
    g.note(center_type=ct, eps=eps, k=k)
    kw = {"centers": g.normal(k, x.shape[1])} if ct == "fit_params" else {}
    est = make()
    if kind == "tsc" and g.flag(0.5):
        O, *_ = constant(g, lo=8, hi=10, n=g.int(1, 3))
        okw = {"centers": g.normal(k, O.shape[1])} if ct == "fit_params" else {}
        try:
            est.fit(O, **okw)
            est.inverse_transform(est.transform(O))
        except ValueError:
            est = make()
    call(kind, X, lambda: est.fit(X, **kw), "fit")
    c = np.asarray(est.centers_)
    if ct == "all_data":
        same(c, x, "centers are the data")
    elif ct == "fit_params":
        same(c, kw["centers"], "centers are the given ones")
    elif ct == "initial_condition":
        same(c, np.array([b[0] for b in blocks]), "centers are the first samples of the series")
    else:
        check(len(c) == k and all((x == r).all(axis=1).any() for r in c) and len(np.unique(c, axis=0)) == len(np.unique(c, axis=0)), "centers are samples")

    d2 = ((x[:, None, :] - c[None]) ** 2).sum(-1)
    want = np.exp(-d2 / (2 * eps)) if gauss else np.asarray(kern()(c, x))
    Y = call(kind, X, lambda: est.transform(X), "transform")
    close(val(Y), want, "kernel between sample and centers", rtol=1e-8)
    rows(kind, X, Y, est, [f"rbf{i}" for i in range(len(c))], "radial basis")
    subset(g, kind, est, X, Y, "radial basis")
    F = make().fit_transform(X, **kw)
    close(val(F), val(Y), "fit_transform is fit and transform", rtol=1e-8, atol=1e-9)
    K = np.asarray(kern()(c))
    if np.linalg.cond(K) < 1e7:
        coef = np.linalg.solve(K, c)
        Z = call(kind, Y, lambda: est.inverse_transform(Y), "inverse")
        back(kind, X, Z, "radial basis", want=want @ coef, rtol=1e-5, atol=1e-7)
        if ct == "all_data":
            close(val(Z), x, "the inverse returns the data", rtol=1e-5, atol=1e-6)


@case(20)
def fourier(g):
    X, *_ = general(g, lo=1)
    k, s = g.int(1, 6), g.uniform(0.3, 3)
    est = FourierRBF(n_features=k, sigma=s)
    call("tsc", X, lambda: est.fit(X), "fit")
    Y = call("tsc", X, lambda: est.transform(X), "transform")
    w = est.fourier_components_
    check(w.shape == (X.shape[1], k), "components", shape=w.shape)
    p = X.to_numpy() @ w
    close(Y.to_numpy(), np.hstack([np.sin(p), np.cos(p)]), "sines and cosines of the random projections")
    rows("tsc", X, Y, est, [f"sin{i}" for i in range(k)] + [f"cos{i}" for i in range(k)], "fourier")
    one = FourierRBF(n_features=k, sigma=1.0).fit(X).fourier_components_
    close(w * s, one, "frequencies scale with 1/sigma")


@case(40)
def moving(g):
    w = g.int(1, 4)
    X, blocks, ids, axes, names, dt = constant(g, lo=max(w, 2), hi=w + 5)
    est = TSCMovingAverage(window=w)
    g.note(window=w)
    call("tsc", X, lambda: est.fit(X), "fit")
    Y = call("tsc", X, lambda: est.transform(X), "transform")
    check(list(Y.columns) == [f"{c}_ma{w}" for c in names] == list(est.get_feature_names_out()), "names")
    res = by_id(Y, "ma")
    for i, b, t in zip(ids, blocks, axes):
        same(res[int(i)][0], np.asarray(t)[w - 1:], "times")
        close(res[int(i)][1], np.array([b[k - w + 1:k + 1].mean(0) for k in range(w - 1, len(b))]), "mean of the last samples of the series", rtol=1e-7)


@case(40)
def differences(g):
    X, blocks, ids, axes, names, dt = constant(g, lo=6, hi=9)
    scheme, order = g.choice("backward", "center", "forward"), g.int(1, 2)
    given = g.flag(0.3)
    g.note(scheme=scheme, order=order, dt=dt)
    sp = float(X.delta_time) if given else "dt"
    est = TSCFiniteDifference(scheme=scheme, diff_order=order, spacing=sp)
    call("tsc", X, lambda: est.fit(X), "fit")
    Y = call("tsc", X, lambda: est.transform(X), "transform")
    check(list(Y.columns) == [f"{c}_dot{order}" for c in names] == list(est.get_feature_names_out()), "names", got=list(Y.columns), want=list(est.get_feature_names_out()))
    from findiff import coefficients
    cf = coefficients(order, 2)[scheme]
    off, wt = np.asarray(cf["offsets"]), np.asarray(cf["coefficients"], dtype=float)
    lo, hi = -min(off.min(), 0), max(off.max(), 0)
    res = by_id(Y, "fd")
    for i, b, t in zip(ids, blocks, axes):
        want = np.array([sum(c * b[k + o] for c, o in zip(wt, off)) / float(dt) ** order for k in range(lo, len(b) - hi)])
        close(res[int(i)][1], want, "difference quotient within the series", rtol=1e-6, atol=1e-6)
        same(res[int(i)][0], np.asarray(t)[lo + hi:], "times (shifted to the last sample used)")


@case(20)
def rows_of_linear_data(g):
    """second order differences of a linear function are exact"""
    n, dt = g.int(1, 3), g.choice(0.5, 1.0, 0.1)
    g.note(n=n, dt=dt, seed=g.seed)
    a, b = g.normal(n), g.normal(n)
    t = dt * np.arange(g.int(6, 10))
    X = frame([a + np.outer(t, b)], [g.int(0, 9)], [t], [f"x{i}" for i in range(n)])
    Y = TSCFiniteDifference(scheme=g.choice("backward", "center", "forward")).fit_transform(X)
    close(Y.to_numpy(), np.tile(b, (len(Y), 1)), "slope", rtol=1e-7, atol=1e-8)


CASES = [identity, preprocess, select, principal_components, takens, numeric_names, polynomials, lambdas, radial, fourier, moving, differences,
         rows_of_linear_data]

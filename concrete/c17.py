"""C17 - estimators reject foreign data and leave their inputs unchanged (bounded)"""
import numpy as np
import pandas as pd

from concrete.c03 import constant
from concrete.core import Broken, check, case, close, raises, same
from concrete.tsgen import frame, names_of, untouched
from datafold.appfold.edmd import EDMD
from datafold.dynfold import DiffusionMaps, Roseland
from datafold.dynfold.dmd import DMDControl, DMDStandard, OnlineDMD, StreamingDMD, gDMDFull
from datafold.dynfold.jsf import JointlySmoothFunctions
from datafold.dynfold.outofsample import GeometricHarmonicsInterpolator, LaplacianPyramidsInterpolator
from datafold.dynfold.transform import (TSCApplyLambdas, TSCFeaturePreprocess, TSCFeatureSelect, TSCFiniteDifference, TSCIdentity,
                                        TSCIncrementalPCA, TSCMovingAverage, TSCPolynomialFeatures, TSCPrincipalComponent,
                                        TSCRadialBasis, TSCTakensEmbedding)
from datafold.pcfold import GaussianKernel, InitialCondition, TSCDataFrame
from datafold.pcfold.timeseries.collection import TSCException

REJECT = (ValueError, TypeError, TSCException, NotImplementedError)


def series(g, n=None, m=None, lo=6, hi=9, dt=None, equal=None, names=None):
    n, m = n or g.int(2, 3), m or g.int(2, 4)
    dt = dt or g.choice(1.0, 0.1, 0.25)
    ids = np.sort(g.rng.choice(40, m, replace=False))
    L = g.int(lo, hi)
    axes = [dt * ((0 if g.flag() else g.int(0, 4)) + np.arange(L if equal else g.int(lo, hi))) for _ in ids]
    A = 0.5 * g.normal(n, n)
    blocks = []
    for t in axes:
        b = [g.normal(n)]
        for _ in t[1:]:
            b.append(A @ b[-1] + g.normal(n))
        blocks.append(np.array(b))
    names = names or names_of(g, n)
    return frame(blocks, ids, axes, names), ids, axes, names, dt


# name -> (constructor, works on arrays, inverse)
TRANSFORMERS = {
    "TSCIdentity": (lambda: TSCIdentity(), True, True),
    "TSCIdentity(const)": (lambda: TSCIdentity(include_const=True, rename_features=True), True, True),
    "TSCFeaturePreprocess": (lambda: TSCFeaturePreprocess.from_name("min-max"), True, True),
    "TSCPrincipalComponent": (lambda: TSCPrincipalComponent(n_components=2), True, True),
    "TSCIncrementalPCA": (lambda: TSCIncrementalPCA(n_components=2), True, True),
    "TSCTakensEmbedding": (lambda: TSCTakensEmbedding(delays=2), False, True),
    "TSCRadialBasis": (lambda: TSCRadialBasis(kernel=GaussianKernel(epsilon=1.5)), True, True),
    "TSCPolynomialFeatures": (lambda: TSCPolynomialFeatures(degree=2), True, False),
    "TSCApplyLambdas": (lambda: TSCApplyLambdas([np.sin]), False, False),
    "TSCFiniteDifference": (lambda: TSCFiniteDifference(accuracy=2), False, False),
    "TSCMovingAverage": (lambda: TSCMovingAverage(window=2), False, False),
    "DiffusionMaps": (lambda: DiffusionMaps(kernel=GaussianKernel(epsilon=2.0), n_eigenpairs=3), True, False),
    "Roseland": (lambda: Roseland(kernel=GaussianKernel(epsilon=2.0), n_svdtriplet=2, landmarks=0.9, random_state=1), True, False),
}


def foreign(g, X):
    """(what, data) with other features than X"""
    cols = list(X.columns)
    out = [("a feature is missing", X.iloc[:, :-1]), ("features in another order", X.iloc[:, ::-1])]
    extra = X.copy()
    extra["zz" if isinstance(cols[0], str) else 77] = 1.0
    out.append(("an additional feature", extra))
    ren = X.copy()
    ren.columns = pd.Index(cols[:-1] + ["other" if isinstance(cols[0], str) else 88], name=X.columns.name)
    out.append(("a renamed feature", ren))
    return out


def pick(g, X, kind):
    if kind == "tsc":
        return X
    if kind == "df":
        return pd.DataFrame(X.to_numpy(), columns=list(X.columns))
    return X.to_numpy()


@case(60)
def transformers(g):
    """data with other features is rejected, the fitted features are accepted"""
    name = g.choice(*TRANSFORMERS)
    make, arrays, inverse = TRANSFORMERS[name]
    n = g.int(2, 3)
    # numbers as feature names (where new names are not derived from them)
    number = name in ("TSCIdentity", "TSCFeaturePreprocess", "TSCPrincipalComponent", "TSCRadialBasis", "DiffusionMaps", "Roseland") and g.flag(0.3)
    X, ids, axes, names, dt = series(g, n=n, names=[int(k) for k in g.rng.permutation(9)[:n]] if number else None)
    kind = "tsc" if number or not arrays else g.choice("tsc", "tsc", "df", "np")
    g.note(estimator=name, kind=kind, X=X)
    D = pick(g, X, kind)
    est = make()
    if g.flag(0.3) and kind == "tsc":  # features of a previous fit have no influence
        O, *_ = series(g, n=g.int(2, 4), names=None)
        try:
            est.fit(O)
        except REJECT:
            est = make()
    c = D.copy()
    est.fit(D)
    Y = est.transform(D)
    Y2 = est.transform(D)
    same(np.asarray(Y), np.asarray(Y2), f"{name}: repeating transform gives the same")
    same(np.asarray(D), np.asarray(c), f"{name}: fit and transform leave the data unchanged")
    if kind != "np":
        check(D.index.equals(c.index) and D.columns.equals(c.columns), f"{name}: index and columns of the data")
        for what, F in foreign(g, D):
            raises(REJECT, lambda: est.transform(F), f"{name}.transform accepts data in which there is {what}")
            if name in ("TSCIdentity", "TSCTakensEmbedding", "TSCPolynomialFeatures", "TSCFiniteDifference"):
                raises(REJECT, lambda: est.partial_fit(F), f"{name}.partial_fit accepts data in which there is {what}")
    for F in (np.asarray(D)[:, :-1], np.column_stack([np.asarray(D), np.ones(len(D))])):
        if kind == "tsc":
            F = frame([F], [1], [dt * np.arange(len(F))], [f"q{k}" for k in range(F.shape[1])] if not number else list(range(20, 20 + F.shape[1])))
        raises(REJECT, lambda: est.transform(F), f"{name}.transform accepts another number of features")
    bad = D.copy()
    bad = bad.astype(float)
    if kind == "np":
        bad[g.int(0, len(bad) - 1), 0] = g.choice(np.nan, np.inf)
    else:
        bad.iloc[g.int(0, len(bad) - 1), 0] = g.choice(np.nan, np.inf)
    raises(REJECT, lambda: make().fit(bad), f"{name}.fit accepts data that is not finite")
    if inverse:
        cY = Y.copy()
        Z = est.inverse_transform(Y)
        same(np.asarray(Y), np.asarray(cY), f"{name}: inverse leaves the data unchanged")
        same(np.asarray(est.inverse_transform(Y)), np.asarray(Z), f"{name}: repeating the inverse gives the same")
        y = np.asarray(Y)
        if kind != "np":
            for what, F in foreign(g, Y)[:4]:
                if Y.shape[1] == 1 and what in ("features in another order", "a feature is missing"):
                    continue
                raises(REJECT, lambda: est.inverse_transform(F), f"{name}.inverse_transform accepts data in which there is {what}")
        else:
            for F in (y[:, :-1], np.column_stack([y, np.ones(len(y))])):
                if F.shape[1]:
                    raises(REJECT, lambda: est.inverse_transform(F), f"{name}.inverse_transform accepts another number of features")


def dynamic(g, X):
    """a fitted model without control and the number of samples of its initial condition"""
    kind = g.choice("DMDStandard", "DMDStandard", "gDMDFull", "OnlineDMD", "StreamingDMD", "EDMD", "EDMD_takens")
    g.note(model=kind)
    if kind == "DMDStandard":
        return kind, lambda: DMDStandard(sys_mode=g.choice("matrix", "spectral")), 1
    if kind == "gDMDFull":
        return kind, lambda: gDMDFull(), 1
    if kind == "OnlineDMD":
        return kind, lambda: OnlineDMD(), 1
    if kind == "StreamingDMD":
        return kind, lambda: StreamingDMD(), 1
    if kind == "EDMD":
        return kind, lambda: EDMD([("s", TSCPolynomialFeatures(degree=2, include_bias=False))]), 1
    return kind, lambda: EDMD([("s", TSCTakensEmbedding(delays=2))]), 3


@case(30)
def models(g):
    """data with other features, unsuitable initial conditions and times are rejected"""
    X, ids, axes, names, dt = series(g, lo=8, hi=11)
    kind, make, nic = dynamic(g, X)
    est = make()
    g.note(X=X)
    online = kind in ("OnlineDMD", "StreamingDMD")
    fit = (lambda e, D: e.partial_fit(D)) if online else (lambda e, D: e.fit(D))
    _, ok = untouched(X, lambda: fit(est, X))
    check(ok, f"{kind}: fit leaves the data unchanged")
    t = dt * (g.int(0, 3) + np.arange(nic))
    m = g.int(1, 3)
    pid = np.sort(g.rng.choice(40, m, replace=False))
    ic = frame([g.normal(nic, len(names)) for _ in pid], pid, [t] * m, names)
    tv = t[-1] + dt * np.arange(g.int(1, 4) + 1)
    P, ok = untouched(ic, lambda: est.predict(ic, time_values=tv))
    check(ok, f"{kind}: predict leaves the initial condition unchanged")
    tvc = tv.copy()
    same(est.predict(ic, time_values=tv).to_numpy(), P.to_numpy(), f"{kind}: repeating predict gives the same")
    same(tv, tvc, "time values are left unchanged")
    for what, F in foreign(g, ic):
        raises(REJECT, lambda: est.predict(F, time_values=tv), f"{kind}.predict accepts an initial condition in which there is {what}")
    for what, F in foreign(g, X):
        raises(REJECT, lambda: est.reconstruct(F), f"{kind}.reconstruct accepts data in which there is {what}")
    R, ok = untouched(X, lambda: est.reconstruct(X))
    check(ok, f"{kind}: reconstruct leaves the data unchanged")
    same(est.reconstruct(X).to_numpy(), R.to_numpy(), f"{kind}: repeating reconstruct gives the same")
    if nic == 1:
        wrong = g.normal(1, len(names) + g.choice(-1, 1))
        raises(REJECT, lambda: est.predict(wrong, time_values=tv), f"{kind}.predict accepts an array with another number of features")
    # samples of the initial condition
    for k in {nic - 1, nic + 1} - {0}:
        tk = t[-1] - dt * np.arange(k)[::-1] if t[-1] >= dt * (k - 1) else dt * np.arange(k)
        F = frame([g.normal(k, len(names)) for _ in pid], pid, [tk] * m, names)
        raises(REJECT, lambda: est.predict(F, time_values=tk[-1] + dt * np.arange(3)), f"{kind}.predict accepts {k} instead of {nic} samples")
    if nic > 1:
        tk = t[-1] + 2 * dt * (np.arange(nic))
        F = frame([g.normal(nic, len(names)) for _ in pid], pid, [tk] * m, names)
        raises(REJECT, lambda: est.predict(F, time_values=tk[-1] + dt * np.arange(3)), f"{kind}.predict accepts samples with another sampling interval")
    if m > 1:
        F = frame([g.normal(nic, len(names)) for _ in pid], pid, [t + k * dt for k in range(m)], names)
        raises(REJECT, lambda: est.predict(F), f"{kind}.predict accepts initial conditions at different times")
    bad = ic.copy()
    bad.iloc[g.int(0, len(bad) - 1), 0] = np.nan
    raises(REJECT, lambda: est.predict(bad, time_values=tv), f"{kind}.predict accepts an initial condition that is not finite")
    # time values
    for what, w in (("before the initial condition", np.array([tv[0] - dt / 2, tv[1]]) + (dt if tv[0] < dt else 0) * 0), ("not sorted", tv[::-1]), ("duplicated", np.append(tv, tv[-1])),
                    ("not finite", np.append(tv, np.inf)), ("negative", np.append(-1.0, tv)), ("two dimensional", tv[:, None]), ("text", np.array(["a", "b"]))):
        raises(REJECT, lambda: est.predict(ic, time_values=w), f"{kind}.predict accepts time values that are {what}")
    if kind.startswith("EDMD"):
        for q in (["nofeature"], [names[0], "nofeature"]):
            raises(REJECT, lambda: est.predict(ic, time_values=tv, qois=q), "predict accepts unknown features of interest")
            raises(REJECT, lambda: est.reconstruct(X, qois=q), "reconstruct accepts unknown features of interest")


@case(40)
def sampling(g):
    """unsuitable training data is rejected"""
    X, ids, axes, names, dt = series(g, lo=8, hi=11)
    kind, make, nic = dynamic(g, X)
    what = g.choice("uneven", "different", "array", "frame", "nan", "inf", "short")
    blocks = [X.loc[i].to_numpy() for i in ids]
    g.note(what=what, X=X)
    if what == "uneven":
        ax = [t.copy() for t in axes]
        ax[g.int(0, len(ax) - 1)][-1] += 0.4 * dt
        D = frame(blocks, ids, ax, names)
    elif what == "different":
        D = frame(blocks, ids, [t * (1 if k else 2) for k, t in enumerate(axes)], names)
    elif what == "array":
        D = X.to_numpy()
    elif what == "frame":
        D = pd.DataFrame(X.to_numpy(), columns=names)
    elif what == "short":
        D = frame([b[:1] for b in blocks], ids, [t[:1] for t in axes], names)
    else:
        D = X.copy()
        D.iloc[g.int(0, len(D) - 1), g.int(0, len(names) - 1)] = np.nan if what == "nan" else np.inf
    est = make()
    if what in ("nan", "inf", "array", "frame", "short") or kind not in ("OnlineDMD", "StreamingDMD"):
        raises(REJECT, lambda: est.partial_fit(D) if kind in ("OnlineDMD", "StreamingDMD") else est.fit(D), f"{kind} accepts training data: {what}")
    for nm in ("TSCTakensEmbedding", "TSCFiniteDifference", "TSCMovingAverage"):
        if what in ("nan", "inf", "array", "frame", "short") or what == "uneven" and nm != "TSCMovingAverage":
            raises(REJECT, lambda: TRANSFORMERS[nm][0]().fit(D), f"{nm} accepts training data: {what}")
    if what in ("uneven", "short"):
        for nm in ("TSCTakensEmbedding", "TSCFiniteDifference"):
            est = TRANSFORMERS[nm][0]().fit(X)
            raises(REJECT, lambda: est.transform(D), f"{nm}.transform accepts data: {what}")


@case(20)
def control(g):
    """control input that does not match states or model is rejected"""
    X, ids, axes, names, dt = series(g, lo=9, hi=12, m=g.int(2, 3))
    p = 2
    cn = names_of(g, p, "u")
    U = frame([g.normal(len(t) - 1, p) for t in axes], ids, [t[:-1] for t in axes], cn)
    edmd = g.flag()
    make = lambda: EDMD([("s", TSCIdentity())], dmd_model=DMDControl()) if edmd else DMDControl()
    g.note(edmd=edmd, X=X, U=U)
    est = make()
    (_, o1), o2 = untouched(U, lambda: untouched(X, lambda: est.fit(X, U=U)))
    check(o1 and o2, "fit leaves states and control input unchanged")
    one = U.iloc[:-1]
    for what, W in (("a time is missing", one), ("shifted times", frame([U.loc[i].to_numpy() for i in ids], ids, [t[:-1] + dt for t in axes], cn)),
                    ("a series is missing", U.loc[ids[:-1]]), ("another series", frame([U.loc[i].to_numpy() for i in ids], ids + 50, [t[:-1] for t in axes], cn)),
                    ("not finite", U.where(U != U.iloc[0, 0]))):
        raises(REJECT, lambda: make().fit(X, U=W), f"fit accepts control input: {what}")
    h, m = g.int(2, 4), g.int(1, 3)
    pid = np.sort(g.rng.choice(40, m, replace=False))
    t0 = dt * g.int(0, 3)
    ic = frame([g.normal(1, len(names)) for _ in pid], pid, [np.array([t0])] * m, names)
    ut = t0 + dt * np.arange(h)
    W = frame([g.normal(h, p) for _ in pid], pid, [ut] * m, cn)
    tv = np.append(ut, ut[-1] + dt)
    (P, o1), o2 = untouched(W, lambda: untouched(ic, lambda: est.predict(ic, U=W)))
    check(o1 and o2, "predict leaves states and control input unchanged")
    same(est.predict(ic, U=W, time_values=tv).to_numpy(), P.to_numpy(), "repeating predict gives the same")
    bad = [("another order", W.iloc[:, ::-1]), ("a control is missing", W.iloc[:, :1]), ("other names", W.rename(columns={cn[0]: "zz"})),
           ("other series", frame([W.loc[i].to_numpy() for i in pid], pid + 50, [ut] * m, cn)), ("a later start", frame([W.loc[i].to_numpy() for i in pid], pid, [ut + dt] * m, cn)),
           ("another sampling interval", frame([W.loc[i].to_numpy() for i in pid], pid, [t0 + 2 * dt * np.arange(h)] * m, cn))]
    if m > 1:
        bad.append(("a series is missing", W.loc[pid[:-1]]))
        bad.append(("different times", frame([W.loc[i].to_numpy() for i in pid], pid, [ut + dt * k for k in range(m)], cn)))
    for what, B in bad:
        raises(REJECT, lambda: est.predict(ic, U=B), f"predict accepts control input: {what}")
    raises(REJECT + (AttributeError,), lambda: est.predict(ic, time_values=tv), "a controlled model predicts without control input")
    raises(REJECT, lambda: est.predict(ic, U=W, time_values=tv[:-1]), "predict accepts time values that do not match the control input")
    raises(REJECT, lambda: est.predict(ic, U=W, time_values=np.append(tv, tv[-1] + dt)), "predict accepts time values that do not match the control input")
    i1 = ic.loc[pid[:1]]
    raises(REJECT, lambda: est.predict(i1, U=g.normal(h, p + 1), time_values=tv), "predict accepts an array with another number of controls")
    raises(REJECT, lambda: est.predict(i1, U=g.normal(h + 1, p), time_values=tv), "predict accepts a control array of another length")
    free = (EDMD([("s", TSCIdentity())]) if edmd else DMDStandard()).fit(X)
    raises(REJECT + (AttributeError,), lambda: free.predict(ic, U=W), "a model without control accepts control input")


@case(60)
def point_clouds(g):
    """interpolators and jointly smooth functions"""
    m, n = g.int(8, 14), g.int(1, 3)
    x, y = g.normal(m, n), g.normal(m, g.int(1, 2))
    kind = g.choice("gh", "lp", "jsf")
    g.note(kind=kind, x=x, y=y)
    cx, cy = x.copy(), y.copy()
    if kind == "jsf":
        data = np.column_stack([x, y])
        cd = data.copy()
        sp = [("a", GaussianKernel(epsilon=2.0), slice(0, n)), ("b", GaussianKernel(epsilon=2.0), slice(n, data.shape[1]))]
        est = JointlySmoothFunctions(sp, n_kernel_eigenvectors=4, n_jointly_smooth_functions=2).fit(data)
        a = est.transform(data)
        same(data, cd, "fit and transform leave the data unchanged")
        same(est.transform(data), a, "repeating transform gives the same")
        for F in (data[:, :-1], np.column_stack([data, data[:, :1]])):
            raises(REJECT, lambda: est.transform(F), "transform accepts another number of features")
        raises(REJECT, lambda: est.fit(np.where(data == data[0, 0], np.nan, data)), "fit accepts data that is not finite")
        return
    make = (lambda: GeometricHarmonicsInterpolator(kernel=GaussianKernel(epsilon=1.5), n_eigenpairs=4)) if kind == "gh" else (lambda: LaplacianPyramidsInterpolator(initial_epsilon=10.0, auto_adaptive=True))
    est = make().fit(x, y)
    q = g.normal(g.int(1, 5), n)
    cq = q.copy()
    a = est.predict(q)
    same(est.predict(q), a, "repeating predict gives the same")
    est.score(x, y)
    same(x, cx, "points are left unchanged")
    same(y, cy, "targets are left unchanged")
    same(q, cq, "query points are left unchanged")
    for F in (np.column_stack([q, q[:, :1]]), q[:, :-1]):
        if F.shape[1]:
            raises(REJECT, lambda: est.predict(F), f"{kind}.predict accepts another number of features")
    raises(REJECT, lambda: make().fit(x, y[:-1]), f"{kind}.fit accepts another number of targets")
    raises(REJECT, lambda: make().fit(np.where(x == x[0, 0], np.nan, x), y), f"{kind}.fit accepts data that is not finite")
    raises(REJECT, lambda: make().fit(x, np.where(y == y[0, 0], np.inf, y)), f"{kind}.fit accepts targets that are not finite")


PARAMETERS = [
    ("TSCTakensEmbedding delays", lambda X: TSCTakensEmbedding(delays=0).fit(X)),
    ("TSCTakensEmbedding delays", lambda X: TSCTakensEmbedding(delays=-1).fit(X)),
    ("TSCTakensEmbedding lag", lambda X: TSCTakensEmbedding(delays=1, lag=-1).fit(X)),
    ("TSCTakensEmbedding frequency", lambda X: TSCTakensEmbedding(delays=1, frequency=0).fit(X)),
    ("TSCTakensEmbedding frequency", lambda X: TSCTakensEmbedding(delays=1, frequency=2).fit(X)),
    ("TSCTakensEmbedding kappa", lambda X: TSCTakensEmbedding(delays=1, kappa=-1.0).fit(X)),
    ("TSCTakensEmbedding too many delays", lambda X: TSCTakensEmbedding(delays=50).fit(X)),
    ("TSCFiniteDifference accuracy", lambda X: TSCFiniteDifference(accuracy=0).fit(X)),
    ("TSCFiniteDifference diff_order", lambda X: TSCFiniteDifference(diff_order=0).fit(X)),
    ("TSCFiniteDifference scheme", lambda X: TSCFiniteDifference(scheme="other").fit_transform(X)),
    ("TSCMovingAverage window", lambda X: TSCMovingAverage(window=0).fit(X)),
    ("TSCRadialBasis center_type", lambda X: TSCRadialBasis(kernel=GaussianKernel(), center_type="other").fit(X)),
    ("TSCRadialBasis n_samples", lambda X: TSCRadialBasis(kernel=GaussianKernel(), center_type="random", n_samples=1000).fit(X)),
    ("TSCRadialBasis centers", lambda X: TSCRadialBasis(kernel=GaussianKernel(), center_type="fit_params").fit(X)),
    ("TSCRadialBasis centers", lambda X: TSCRadialBasis(kernel=GaussianKernel(), center_type="fit_params").fit(X, centers=np.ones((3, X.shape[1] + 1)))),
    ("TSCFeaturePreprocess name", lambda X: TSCFeaturePreprocess.from_name("other").fit(X)),
    ("TSCPrincipalComponent n_components", lambda X: TSCPrincipalComponent(n_components=50).fit(X)),
    ("TSCFeatureSelect", lambda X: TSCFeatureSelect(["none"]).fit_transform(X)),
    ("DMDStandard rank", lambda X: DMDStandard(rank=0).fit(X)),
    ("DMDStandard rank", lambda X: DMDStandard(rank=-1).fit(X)),
    ("DMDStandard sys_mode", lambda X: DMDStandard(sys_mode="other").fit(X)),
    ("DMDStandard sample_weights", lambda X: DMDStandard().fit(X, sample_weights=np.ones(3))),
    ("DiffusionMaps n_eigenpairs", lambda X: DiffusionMaps(kernel=GaussianKernel(), n_eigenpairs=1000).fit(X)),
    ("DiffusionMaps alpha", lambda X: DiffusionMaps(kernel=GaussianKernel(), n_eigenpairs=2, alpha=2.0).fit(X)),
    ("EDMD dictionary", lambda X: EDMD([("s", GeometricHarmonicsInterpolator())]).fit(X)),
    ("EDMD dict_preserves_id_state", lambda X: EDMD([("s", TSCIdentity())], dict_preserves_id_state="x").fit(X)),
    ("GeometricHarmonicsInterpolator n_eigenpairs", lambda X: GeometricHarmonicsInterpolator(kernel=GaussianKernel(), n_eigenpairs=0).fit(X.to_numpy(), X.to_numpy())),
    ("LaplacianPyramidsInterpolator mu", lambda X: LaplacianPyramidsInterpolator(mu=0.5, auto_adaptive=True).fit(X.to_numpy(), X.to_numpy())),
    ("LaplacianPyramidsInterpolator initial_epsilon", lambda X: LaplacianPyramidsInterpolator(initial_epsilon=-1.0, auto_adaptive=True).fit(X.to_numpy(), X.to_numpy())),
]


@case(3)
def parameters(g):
    """invalid parameters are rejected"""
    X, ids, axes, names, dt = series(g)
    g.note(X=X)
    for what, fn in PARAMETERS:
        _, ok = untouched(X, lambda: raises(REJECT + (AssertionError,), lambda: fn(X), f"invalid parameter: {what}"))
        check(ok, f"{what}: the data is left unchanged")


@case(40)
def conditions(g):
    """initial conditions and control input are validated"""
    n, m, k = g.int(1, 3), g.int(1, 4), g.int(1, 4)
    dt = g.choice(1.0, 0.1, 0.25)
    ids = np.sort(g.rng.choice(40, m, replace=False))
    t = dt * (g.int(0, 5) + np.arange(k))
    names = names_of(g, n)
    X = frame([g.normal(k, n) for _ in ids], ids, [t] * m, names)
    g.note(X=X)
    ok_dt = {} if k == 1 else dict(dt=dt)
    _, ok = untouched(X, lambda: check(InitialCondition.validate(X, n_samples_ic=k, **ok_dt), "valid initial condition"))
    check(ok, "validation leaves the initial condition unchanged")
    raises(REJECT, lambda: InitialCondition.validate(X, n_samples_ic=k + 1), "too few samples")
    if k > 1:
        raises(REJECT, lambda: InitialCondition.validate(X, n_samples_ic=k - 1), "too many samples")
        raises(REJECT, lambda: InitialCondition.validate(X, n_samples_ic=k, dt=dt * 1.5), "another sampling interval")
    if k > 2:
        u = t.copy()
        u[-1] += dt / 3
        raises(REJECT, lambda: InitialCondition.validate(frame([g.normal(k, n) for _ in ids], ids, [u] * m, names), n_samples_ic=k), "no sampling interval")
    if m > 1:
        raises(REJECT, lambda: InitialCondition.validate(frame([g.normal(k, n) for _ in ids], ids, [t + dt * j for j in range(m)], names), n_samples_ic=k), "different times")
        raises(REJECT, lambda: InitialCondition.validate(frame([g.normal(k + j, n) for j in range(m)], ids, [dt * np.arange(k + j) for j in range(m)], names)), "different lengths")
    raises(REJECT, lambda: InitialCondition.validate(X.to_numpy()), "an array is no initial condition")
    bad = X.copy()
    bad.iloc[g.int(0, len(bad) - 1), g.int(0, n - 1)] = g.choice(np.nan, np.inf)
    raises(REJECT, lambda: InitialCondition.validate(bad), "not finite")
    h = g.int(1, 4)
    ut = t[-1] + dt * np.arange(h)
    U = frame([g.normal(h, 1) for _ in ids], ids, [ut] * m, ["u"])
    InitialCondition.validate_control(X, U)
    for what, W in (("start", frame([g.normal(h, 1) for _ in ids], ids, [ut + dt] * m, ["u"])), ("series", frame([g.normal(h, 1) for _ in ids], ids + 1, [ut] * m, ["u"]))):
        raises(REJECT, lambda: InitialCondition.validate_control(X, W), f"control input with another {what}")
    if m > 1:
        raises(REJECT, lambda: InitialCondition.validate_control(X, U.loc[ids[:-1]]), "control input without a series")
        raises(REJECT, lambda: InitialCondition.validate_control(X, frame([g.normal(h, 1) for _ in ids], ids, [ut] + [ut + dt] * (m - 1), ["u"])), "control input at different times")


CASES = [transformers, models, sampling, control, point_clouds, parameters, conditions]

"""C15 - extended DMD pipelines: dictionary, operator and linear map back (bounded).

The reference is computed beside the pipeline: the dictionary by fitting fresh transformers one after the other
(C14 covers those), operator and inverse map by least squares over all snapshot pairs / samples, prediction by
matrix powers."""
import numpy as np
import pandas as pd

from concrete.c03 import by_id
from concrete.core import check, case, close, raises, same
from concrete.tsgen import diagonalizable, frame, ids_of, names_of, untouched
from datafold.appfold.edmd import EDMD, EDMDCV, EDMDWindowPrediction
from datafold.dynfold.dmd import DMDControl, DMDStandard, OnlineDMD, StreamingDMD, gDMDFull
from datafold.dynfold.transform import (TSCApplyLambdas, TSCFeaturePreprocess, TSCIdentity, TSCPolynomialFeatures, TSCPrincipalComponent,
                                        TSCRadialBasis, TSCTakensEmbedding)
from datafold.pcfold import GaussianKernel, TSCDataFrame
from datafold.pcfold.timeseries.metric import TSCKfoldSeries, TSCKFoldTime

ID, TIME = TSCDataFrame.tsc_id_idx_name, TSCDataFrame.tsc_time_idx_name


def data(g, n=None, m=None, lo=9, hi=14, sort=None, dt=None, start=None, equal=None):
    """collection with constant sampling and enough well conditioned random samples"""
    n = n or g.int(1, 2)
    m = m or g.int(2, 4)
    dt = dt or g.choice(1, 1.0, 0.1, 0.25, 0.5)
    ids = g.rng.choice(40, m, replace=False)
    if g.flag(0.6) if sort is None else sort:
        ids = np.sort(ids)
    equal = g.flag(0.3) if equal is None else equal
    L = g.int(lo, hi)
    axes, blocks = [], []
    A = g.normal(n, n) * 0.4
    for _ in range(m):
        k = L if equal else g.int(lo, hi)
        s = (0 if g.flag(0.4) else g.int(0, 6)) if start is None else start
        axes.append(dt * (s + np.arange(k)))
        x = [g.normal(n)]
        for _ in range(k - 1):
            x.append(A @ x[-1] + g.normal(n) * 0.7)
        blocks.append(np.array(x))
    names = names_of(g, n)
    g.note(ids=ids, axes=[np.asarray(t).tolist() for t in axes], dt=dt, names=names)
    return frame(blocks, ids, axes, names), blocks, ids, axes, names, dt


def dictionary(g, n, delays=True):
    """(steps, makes) of a random dictionary"""
    out = []
    kinds = ["identity", "identity_ren", "poly", "poly_no1", "rbf", "pca", "scale", "lambda"] + (["takens"] * 3 if delays else [])
    for k in range(g.choice(1, 1, 2)):
        kind = g.choice(*kinds)
        if k and kind in ("poly", "poly_no1", "rbf", "takens", "lambda") and out[0][0] in ("poly", "poly_no1", "rbf", "takens", "lambda"):
            kind = "scale"
        out.append((kind, {
            "identity": lambda: TSCIdentity(include_const=False),
            "identity_ren": lambda: TSCIdentity(rename_features=True),
            "poly": lambda: TSCPolynomialFeatures(degree=2, include_bias=False, include_first_order=True),
            "poly_no1": lambda: TSCPolynomialFeatures(degree=2, include_bias=False, include_first_order=False),
            "rbf": lambda: TSCRadialBasis(kernel=GaussianKernel(epsilon=2.0), center_type="initial_condition"),
            "pca": lambda: TSCPrincipalComponent(),
            "scale": lambda: TSCFeaturePreprocess.from_name("standard"),
            "lambda": lambda: TSCApplyLambdas(lambdas=[lambda x: np.sin(x), lambda x: x + 0.1 * x ** 3]),
            "takens": lambda d=g.int(1, 2): TSCTakensEmbedding(delays=d)}[kind]))
    g.note(dictionary=[k for k, _ in out])
    return [(f"s{i}", mk()) for i, (_, mk) in enumerate(out)], [mk for _, mk in out]


class Reference:
    def __init__(self, makes, X, id_state, U=None):
        self.chain, D = [], X.copy()
        for mk in makes:
            t = mk()
            D = t.fit_transform(D)
            self.chain.append(t)
        both = [c for c in X.columns if c in D.columns]
        if both and not np.allclose(D[both].to_numpy(), X.loc[D.index, both].to_numpy()):
            raise ValueError  # documented: the states are recognised in the dictionary by their name, which must keep the values
        self.has = set(X.columns) <= set(D.columns)
        self.attach = id_state and not self.has
        self.names = list(X.columns)
        self.id_state = id_state
        if self.attach:
            D = self._attach(X, D)
        self.D = D
        self.nic = int(X.index.get_level_values(0).value_counts().iloc[0] - D.index.get_level_values(0).value_counts()[X.index.get_level_values(0).value_counts().index[0]]) + 1
        dm, dp, us = [], [], []
        for i in pd.unique(D.index.get_level_values(0)):
            d = D.loc[i]
            dm.append(d.to_numpy()[:-1])
            dp.append(d.to_numpy()[1:])
            if U is not None:
                us.append(U.loc[i].loc[d.index[:-1]].to_numpy())
        Xm, Xp = np.concatenate(dm), np.concatenate(dp)
        Z = Xm if U is None else np.column_stack([Xm, np.concatenate(us)])
        self.cond = np.linalg.cond(Z) if len(Z) >= Z.shape[1] else np.inf
        S = np.linalg.lstsq(Z, Xp, rcond=None)[0].T
        N = D.shape[1]
        self.K, self.C = S[:, :N], S[:, N:]
        if id_state or self.has:
            self.B = np.zeros((N, X.shape[1]))
            for j, c in enumerate(X.columns):
                self.B[list(D.columns).index(c), j] = 1
        else:
            rows = D.index if U is None else D.index.intersection(U.index)
            self.B = np.linalg.lstsq(D.loc[rows].to_numpy(), X.loc[rows].to_numpy(), rcond=None)[0]

    def _attach(self, X, D):
        return pd.concat([X.loc[D.index], D], axis=1)

    def psi(self, X):
        D = X.copy()
        for t in self.chain:
            D = t.transform(D)
        return self._attach(X, D) if self.attach else D

    def orbit(self, psi0, steps, u=None):
        out, p = [], psi0
        for k in range(max(steps) + 1):
            out.append(p)
            p = self.K @ p if u is None or k >= len(u) else self.K @ p + self.C @ u[k]
        return np.array([out[k] @ self.B for k in steps])


def fitted(g, delays=True, model=None, **kw):
    """well conditioned pipeline and its reference"""
    for _ in range(200):
        X, blocks, ids, axes, names, dt = data(g, **kw)
        steps, makes = dictionary(g, len(names), delays)
        idst = g.flag(0.6)
        try:
            ref = Reference(makes, X, idst)
        except Exception:
            continue
        if ref.cond < 300 and diagonalizable(ref.K) and len(set(ref.D.columns)) == ref.D.shape[1]:
            break
    else:
        raise RuntimeError("no well conditioned dictionary")
    mode = g.choice("spectral", "spectral", "matrix")
    diag = g.flag()
    sort = mode == "spectral" and g.flag(0.3)
    g.note(include_id_state=idst, mode=mode, sort=sort, diag=diag)
    kwm = dict(sys_mode=mode) | (dict(diagonalize=diag) if mode == "spectral" else {})
    edmd = EDMD(dict_steps=steps, dmd_model=DMDStandard(**kwm), include_id_state=idst, sort_koopman_triplets=sort)
    _, ok = untouched(X, lambda: edmd.fit(X))
    check(ok, "fit leaves the data unchanged")
    return edmd, ref, X, blocks, ids, axes, names, dt, mode


def conditions(g, names, nic, dt, m=None, ids=None):
    m = m or g.int(1, 4)
    ids = (g.rng.choice(40, m, replace=False) if ids is None else ids)
    if g.flag(0.7):
        ids = np.sort(ids)
    t = dt * (g.int(0, 4) + np.arange(nic))
    return frame([g.normal(nic, len(names)) for _ in ids], ids, [t for _ in ids], names), ids, t


def expect(out, ids, tv, names, want, msg, rtol=1e-5, atol=1e-6):
    check(isinstance(out, TSCDataFrame), f"{msg}: a collection")
    check(list(out.columns) == list(names) and out.columns.name == TSCDataFrame.tsc_feature_col_name, f"{msg}: features", got=list(out.columns), want=list(names))
    check(list(out.index.names) == [ID, TIME], f"{msg}: index names")
    got = pd.unique(out.index.get_level_values(0))
    check(sorted(got) == sorted(ids), f"{msg}: series", got=got, want=ids)
    want = [want[list(ids).index(i)] for i in got]  # delay embeddings sort the series
    same(out.index.get_level_values(0).to_numpy(), np.repeat(got, len(tv)), f"{msg}: series of the rows")
    close(out.index.get_level_values(1).to_numpy().astype(float), np.tile(np.asarray(tv, float), len(ids)), f"{msg}: times", rtol=1e-12, atol=1e-12)
    close(out.to_numpy(), np.concatenate(want), f"{msg}: states", rtol=rtol, atol=atol)


@case(10)
def attributes(g):
    """what fit reports: dictionary size, required samples, maps"""
    edmd, ref, X, blocks, ids, axes, names, dt, mode = fitted(g)
    check(edmd.n_samples_ic_ == ref.nic, "number of samples of an initial condition", got=edmd.n_samples_ic_, want=ref.nic)
    close(edmd.dt_, dt, "sampling interval", rtol=1e-9)
    check(list(edmd.feature_names_in_) == names and list(edmd.feature_names_pred_) == names, "features in and predicted")
    check(list(edmd.feature_names_out_) == list(ref.D.columns) and edmd.n_features_out_ == ref.D.shape[1], "features of the dictionary",
          got=list(edmd.feature_names_out_), want=list(ref.D.columns))
    D, ok = untouched(X, lambda: edmd.transform(X))
    check(ok, "transform leaves the data unchanged")
    check(D.index.equals(ref.D.index) and list(D.columns) == list(ref.D.columns), "rows and features of the dictionary")
    close(D.to_numpy(), ref.D.to_numpy(), "dictionary values")
    inv = edmd._inverse_map
    close(np.asarray(inv.todense()) if hasattr(inv, "todense") else inv, ref.B, "map from the dictionary back", rtol=1e-6, atol=1e-7)
    Z, ok = untouched(D, lambda: edmd.inverse_transform(D))
    check(ok and Z.index.equals(D.index) and list(Z.columns) == names, "inverse of the dictionary: rows and features")
    close(Z.to_numpy(), ref.D.to_numpy() @ ref.B, "inverse of the dictionary")
    if edmd.include_id_state or ref.has:
        close(Z.to_numpy(), X.loc[D.index].to_numpy(), "the inverse returns the data")


@case(16)
def predict(g):
    edmd, ref, X, blocks, ids, axes, names, dt, mode = fitted(g)
    ic, pid, t = conditions(g, names, ref.nic, dt)
    t0 = t[-1]
    steps = np.unique(np.concatenate([[0], g.rng.choice(9, g.int(1, 5), replace=False)]))
    tv = t0 + dt * steps
    order = g.choice(None, None, names, names[::-1], names[:1])
    g.note(ic=ic, steps=steps, qois=order)
    psi = ref.psi(ic)
    want = [ref.orbit(psi.loc[i].to_numpy()[-1], steps) for i in pid]
    q = list(range(len(names))) if order is None else [names.index(c) for c in order]
    call = lambda: edmd.predict(ic, time_values=tv, **({} if order is None else dict(qois=order)))
    out, ok = untouched(ic, call)
    check(ok, "predict leaves the initial condition unchanged")
    expect(out, pid, tv, [names[k] for k in q], [w[:, q] for w in want], "prediction")
    same(edmd.predict(ic, time_values=tv, **({} if order is None else dict(qois=order))).to_numpy(), out.to_numpy(), "repeating gives the same")
    # single initial condition: not influenced by the others
    i = pid[g.int(0, len(pid) - 1)]
    one = ic.loc[[i]]
    expect(edmd.predict(one, time_values=tv), [i], tv, names, [want[list(pid).index(i)]], "prediction of one initial condition")
    if ref.nic == 1 and g.flag():
        arr = ic.loc[[i]].to_numpy()
        out = edmd.predict(arr if g.flag() else arr[0], time_values=tv)
        expect(out, [0], tv, names, [want[list(pid).index(i)]], "prediction from an array")


@case(10)
def koopman(g):
    """modes, eigenvalues and eigenfunctions multiply to the prediction"""
    edmd, ref, X, blocks, ids, axes, names, dt, mode = fitted(g)
    if mode == "matrix":
        check(edmd.koopman_modes is None, "no modes without spectral components")
        raises(AttributeError, lambda: edmd.koopman_eigenvalues, "eigenvalues without spectral components")
        raises(AttributeError, lambda: edmd.koopman_eigenfunction(X), "eigenfunctions without spectral components")
        return
    M, lam = edmd.koopman_modes, edmd.koopman_eigenvalues
    check(list(M.index) == names, "rows of the modes are the features")
    ic, pid, t = conditions(g, names, ref.nic, dt, m=g.int(1, 3))
    g.note(ic=ic)
    phi = edmd.koopman_eigenfunction(ic)
    psi = ref.psi(ic)
    check(phi.index.equals(psi.index), "eigenfunctions have the rows of the dictionary")
    for k in range(5):
        got = (phi.to_numpy() * lam.to_numpy() ** k) @ M.to_numpy().T
        want = np.stack([ref.orbit(p, [k])[0] for p in psi.to_numpy()])
        close(got, want, f"modes, eigenvalues and eigenfunctions after {k} steps", rtol=1e-5, atol=1e-6)
    # eigenfunctions evolve linearly with the eigenvalues
    P2 = edmd.koopman_eigenfunction(X)
    check(P2.shape == (len(ref.D), ref.D.shape[1]), "one eigenfunction per dictionary element")
    close((P2.to_numpy() * lam.to_numpy()) @ edmd.dmd_model.eigenvectors_right_.T, ref.D.to_numpy() @ ref.K.T, "eigenfunctions advance with the eigenvalues", rtol=1e-5, atol=1e-6)


@case(18)
def reconstruct(g):
    edmd, ref, X, blocks, ids, axes, names, dt, mode = fitted(g)
    if g.flag():
        Y = X
        yids, yaxes, yblocks = ids, axes, blocks
    else:
        Y, yblocks, yids, yaxes, _, _ = data(g, n=len(names), lo=ref.nic + 1, hi=8, m=g.int(1, 4), dt=dt)
        Y.columns = pd.Index(names, name=Y.columns.name)
    order = g.choice(None, None, names[::-1], names[:1])
    g.note(Y=Y, qois=order)
    out, ok = untouched(Y, lambda: edmd.reconstruct(Y, **({} if order is None else dict(qois=order))))
    check(ok, "reconstruct leaves the data unchanged")
    q = list(range(len(names))) if order is None else [names.index(c) for c in order]
    check(list(out.columns) == [names[k] for k in q], "features of the reconstruction", got=list(out.columns))
    check(isinstance(out, TSCDataFrame), "a collection")
    psi = ref.psi(Y)
    want = {}
    for i, t in zip(yids, yaxes):
        o = ref.orbit(psi.loc[i].to_numpy()[0], range(len(t) - ref.nic + 1))
        for s, row in zip(t[ref.nic - 1:], o):
            want[(int(i), round(float(s) / dt))] = row[q]
    got = [(int(i), round(float(s) / dt)) for i, s in out.index]
    check(set(got) == set(want) and len(got) == len(want), "the reconstruction has the rows of the data after the initial condition", got=got, want=list(want))
    check(all(r in Y.index for r in out.index), "the times are the ones of the data")
    close(out.to_numpy(), np.stack([want[r] for r in got]), "reconstructed states", rtol=1e-5, atol=1e-6)
    # later samples have no influence
    Z = Y.copy()
    late = Z.index.isin(out.index) & ~Z.index.isin(psi.index[[list(psi.index.get_level_values(0)).index(i) for i in yids]])
    Z.iloc[late] = g.normal(int(late.sum()), len(names))
    out2 = edmd.reconstruct(Z, **({} if order is None else dict(qois=order)))
    same(out2.to_numpy(), out.to_numpy(), "later samples do not influence the reconstruction")
    if Y is X and order is None:
        m2 = EDMD(dict_steps=[(f"s{k}", t.__class__(**t.get_params(deep=False))) for k, (_, t) in enumerate(edmd.steps[:-1])], dmd_model=DMDStandard(sys_mode=mode),
                  include_id_state=edmd.include_id_state)
        close(m2.fit_predict(X).to_numpy(), out.to_numpy(), "fit_predict is fit and reconstruct", rtol=1e-6, atol=1e-7)
        S = X.loc[out.index].to_numpy()
        sc = edmd.score(X)
        check(np.isscalar(sc) or np.ndim(sc) == 0, "score is a number")

def controlled(g, **kw):
    """well conditioned controlled pipeline"""
    for _ in range(200):
        X, blocks, ids, axes, names, dt = data(g, **kw)
        p = g.int(1, 2)
        ub = [g.normal(len(t) - 1, p) for t in axes]
        cn = [f"u{k}" for k in g.rng.permutation(p)]
        U = frame(ub, ids, [t[:-1] for t in axes], cn)
        A, B = 0.5 * g.normal(len(names), len(names)), g.normal(len(names), p)
        for b, u in zip(blocks, ub):
            for k in range(len(u)):
                b[k + 1] = A @ b[k] + B @ u[k] + 0.5 * b[k + 1]
        X = frame(blocks, ids, axes, names)
        steps, makes = dictionary(g, len(names))
        idst = g.flag(0.6)
        try:
            ref = Reference(makes, X, idst, U)
        except Exception:
            continue
        if ref.cond < 300 and len(set(ref.D.columns)) == ref.D.shape[1] and max(abs(np.linalg.eigvals(ref.K))) < 3:
            break
    else:
        raise RuntimeError("no well conditioned dictionary")
    g.note(include_id_state=idst, U=U)
    edmd = EDMD(dict_steps=steps, dmd_model=DMDControl(), include_id_state=idst)
    (_, ok1), ok2 = untouched(U, lambda: untouched(X, lambda: edmd.fit(X, U=U)))
    check(ok1 and ok2, "fit leaves states and control input unchanged")
    return edmd, ref, X, U, ids, axes, names, cn, dt


@case(12)
def control(g):
    edmd, ref, X, U, ids, axes, names, cn, dt = controlled(g)
    check(list(edmd.control_names_in_) == cn and edmd.is_controlled_, "names of the control input")
    ic, pid, t = conditions(g, names, ref.nic, dt, ids=np.sort(g.rng.choice(40, g.int(1, 3), replace=False)))
    h = g.int(1, 5)
    ut = t[-1] + dt * np.arange(h)
    pid = list(pd.unique(ic.index.get_level_values(0)))
    ub = {i: g.normal(h, len(cn)) for i in pid}
    Uq = frame([ub[i] for i in pid], pid, [ut for _ in pid], cn)
    order = g.choice(None, None, names[::-1], names[:1])
    g.note(ic=ic, Uq=Uq, qois=order)
    q = list(range(len(names))) if order is None else [names.index(c) for c in order]
    psi = ref.psi(ic)
    want = [ref.orbit(psi.loc[i].to_numpy()[-1], range(h + 1), ub[i])[:, q] for i in pid]
    kw = {} if order is None else dict(qois=order)
    if g.flag():
        kw["time_values"] = np.append(ut, ut[-1] + dt)
    (out, ok1), ok2 = untouched(Uq, lambda: untouched(ic, lambda: edmd.predict(ic, U=Uq, **kw)))
    check(ok1 and ok2, "predict leaves states and control input unchanged")
    expect(out, pid, np.append(ut, ut[-1] + dt), [names[k] for k in q], want, "controlled prediction", rtol=1e-4, atol=1e-5)
    i = pid[0]
    one = edmd.predict(ic.loc[[i]], U=ub[i], **(kw | dict(time_values=np.append(ut, ut[-1] + dt))))
    expect(one, [i], np.append(ut, ut[-1] + dt), [names[k] for k in q], want[:1], "control input as an array", rtol=1e-4, atol=1e-5)
    # reconstruction
    (R, ok1), ok2 = untouched(U, lambda: untouched(X, lambda: edmd.reconstruct(X, U=U)))
    check(ok1 and ok2, "reconstruct leaves states and control input unchanged")
    psi = ref.psi(X)
    rows = {}
    for i, t in zip(ids, axes):
        u = U.loc[i].to_numpy()[ref.nic - 1:]
        for s, row in zip(t[ref.nic - 1:], ref.orbit(psi.loc[i].to_numpy()[0], range(len(t) - ref.nic + 1), u)):
            rows[(int(i), round(float(s) / dt))] = row
    got = [(int(i), round(float(s) / dt)) for i, s in R.index]
    check(set(got) == set(rows) and len(got) == len(rows), "rows of the controlled reconstruction", got=got, want=list(rows))
    check(list(R.columns) == names, "features of the controlled reconstruction")
    close(R.to_numpy(), np.stack([rows[r] for r in got]), "controlled reconstruction", rtol=1e-4, atol=1e-5)


@case(5)
def score(g):
    """the score is the one of the reconstruction on the rows of the data"""
    edmd, ref, X, blocks, ids, axes, names, dt, mode = fitted(g)
    psi = ref.psi(X)
    own = frame([ref.orbit(psi.loc[i].to_numpy()[0], range(len(t) - ref.nic + 1)) for i, t in zip(ids, axes)], ids, [t[ref.nic - 1:] for t in axes], names)
    sc, ok = untouched(X, lambda: edmd.score(X))
    check(ok, "score leaves the data unchanged")
    close(sc, edmd._score_eval(X.loc[own.index], own), "score of the reference reconstruction", rtol=1e-4, atol=1e-5)


@case(14)
def transform_inverse(g):
    """mapping back with the inverse of the dictionary instead of the linear map"""
    mk = {"identity_ren": lambda: TSCIdentity(rename_features=True), "pca": lambda: TSCPrincipalComponent(), "identity": lambda: TSCIdentity(),
          "takens": lambda: TSCTakensEmbedding(delays=1), "scale": lambda: TSCFeaturePreprocess.from_name("standard")}
    for _ in range(200):
        X, blocks, ids, axes, names, dt = data(g)
        kinds = [g.choice(*mk)]
        if g.flag(0.4):
            kinds = ["scale"] + kinds
        makes = [mk[k] for k in kinds]
        try:
            chain, D = [], X
            for m in makes:
                chain.append(m())
                D = chain[-1].fit_transform(D)
        except ValueError:
            continue
        Xm, Xp = np.concatenate([D.loc[i].to_numpy()[:-1] for i in ids]), np.concatenate([D.loc[i].to_numpy()[1:] for i in ids])
        if np.linalg.cond(Xm) < 100:
            break
    K = np.linalg.lstsq(Xm, Xp, rcond=None)[0].T
    edmd = EDMD([(f"s{k}", m()) for k, m in enumerate(makes)], dmd_model=DMDStandard(sys_mode="matrix"), include_id_state=False, use_transform_inverse=True).fit(X)
    nic = edmd.n_samples_ic_
    ic, pid, t = conditions(g, names, nic, dt, m=1)
    g.note(dictionary=kinds, ic=ic)
    P = ic
    for c in chain:
        P = c.transform(P)
    steps = np.arange(g.int(1, 5) + 1)
    p, orbit = P.to_numpy()[-1], []
    for _ in steps:
        orbit.append(p)
        p = K @ p
    W = frame([np.array(orbit)], pid, [t[-1] + dt * steps], list(P.columns))
    for c in reversed(chain):
        W = c.inverse_transform(W)
    order = g.choice(None, names[::-1])
    out = edmd.predict(ic, time_values=t[-1] + dt * steps, **({} if order is None else dict(qois=order)))
    expect(out, pid, t[-1] + dt * steps, order or names, [W[order or names].to_numpy()], "prediction with the inverse of the dictionary")
    Z = edmd.inverse_transform(edmd.transform(X))
    close(Z[names].to_numpy(), X.loc[Z.index].to_numpy(), "inverse of the dictionary", rtol=1e-6, atol=1e-7)


@case(10)
def stepwise(g):
    """stepwise prediction: every step maps the predicted states to the dictionary again"""
    edmd, ref, X, blocks, ids, axes, names, dt, mode = fitted(g)
    edmd.stepwise_transform = True
    ic, pid, t = conditions(g, names, ref.nic, dt, m=g.int(1, 3))
    h = g.int(1, 5)
    g.note(ic=ic, h=h)
    tv = t[-1] + dt * np.arange(h + 1)
    want = []
    for i in pid:
        vals, times = list(ic.loc[i].to_numpy()), list(t)
        for k in range(h):
            win = frame([np.array(vals[-ref.nic:])], [i], [np.array(times[-ref.nic:])], names)
            vals.append(ref.K @ ref.psi(win).to_numpy()[-1] @ ref.B)
            times.append(t[-1] + dt * (k + 1))
        want.append(np.array(vals[ref.nic - 1:]))
    if not np.isfinite(want).all() or np.abs(want).max() > 1e4:
        return
    out, ok = untouched(ic, lambda: edmd.predict(ic, time_values=tv))
    check(ok, "stepwise prediction leaves the initial condition unchanged")
    expect(out, pid, tv, names, want, "stepwise prediction", rtol=1e-4, atol=1e-5)


@case(8)
def windows(g):
    """reconstruction of windows"""
    edmd, ref, X, blocks, ids, axes, names, dt, mode = fitted(g)
    size = ref.nic + g.int(1, 4)
    offset = g.int(1, size)
    g.note(size=size, offset=offset)
    edmd = EDMDWindowPrediction(window_size=size, offset=offset).adapt_model(edmd)
    R, ok = untouched(X, lambda: edmd.reconstruct(X, return_windows=True))
    check(ok, "window reconstruction leaves the data unchanged")
    R, W = R
    want = []
    for b, t, i in zip(blocks, axes, ids):
        for s in range(0, len(t) - size + 1, offset):
            p0 = ref.psi(frame([b[s:s + ref.nic]], [i], [t[s:s + ref.nic]], names)).to_numpy()[-1]
            want.append((t[s + ref.nic - 1:s + size], ref.orbit(p0, range(size - ref.nic + 1))))
    got = [(R.loc[[i]].index.get_level_values(1).to_numpy(), R.loc[[i]].to_numpy()) for i in pd.unique(R.index.get_level_values(0))]
    check(len(got) == len(want), "number of windows", got=len(got), want=len(want))
    left = list(want)
    for tt, vv in got:
        hit = [k for k, (t, o) in enumerate(left) if len(t) == len(tt) and np.allclose(t.astype(float), tt.astype(float)) and np.allclose(o, vv, rtol=1e-5, atol=1e-6)]
        check(hit, "reconstruction of a window", times=tt, values=vv)
        left.pop(hit[0])
    check(W.shape[0] == len(want) * size, "returned windows")
    close(edmd.score(X), edmd._score_eval(W.loc[R.index], R), "score of the windows")


@case(8)
def partial_fit(g):
    """a pipeline that is updated batch by batch"""
    X, blocks, ids, axes, names, dt = data(g, lo=12, hi=20)
    n = len(names)
    A = g.normal(n, n)
    A = A / max(abs(np.linalg.eigvals(A))) * 0.95
    for b in blocks:
        for k in range(len(b) - 1):
            b[k + 1] = A @ b[k]
    X = frame(blocks, ids, axes, names)
    kind = g.choice("identity", "takens", "rename")
    idst = True if kind == "takens" else g.flag()
    g.note(dictionary=kind, include_id_state=idst, X=X)
    if kind == "rename" and not idst:
        edmd = EDMD([("id", TSCIdentity(rename_features=True))], dmd_model=OnlineDMD(), include_id_state=False)
        raises(NotImplementedError, lambda: edmd.partial_fit(X), "a dictionary without the states cannot be updated")
        return
    d = {"identity": lambda: TSCIdentity(), "takens": lambda: TSCTakensEmbedding(delays=1), "rename": lambda: TSCIdentity(rename_features=True)}[kind]()
    edmd = EDMD([("id", d)], dmd_model=OnlineDMD(), include_id_state=idst)
    for i in ids:
        part = X.loc[[i]]
        _, ok = untouched(part, lambda: edmd.partial_fit(part))
        check(ok, "partial_fit leaves the data unchanged")
    nic = edmd.n_samples_ic_
    check(nic == (2 if kind == "takens" else 1), "number of samples of an initial condition")
    ic = X.initial_states(nic).loc[[ids[0]]]
    t = ic.index.get_level_values(1)[-1]
    out = edmd.predict(ic, time_values=t + dt * np.arange(5))
    want = [ic.to_numpy()[-1]]
    for _ in range(4):
        want.append(A @ want[-1])
    expect(out, [ids[0]], t + dt * np.arange(5), names, [np.array(want)], "updated pipeline", rtol=1e-2, atol=1e-3)


@case(4)
def cross_validation(g):
    """the scores of EDMDCV are the ones of a pipeline fitted on the training part, the best parameters win"""
    X, blocks, ids, axes, names, dt = data(g, m=g.int(4, 6), sort=True, equal=True)
    grid = dict(s__delays=[1, 2])
    make = lambda d: EDMD([("s", TSCTakensEmbedding(delays=d))], dmd_model=DMDStandard(sys_mode="matrix"))
    cv = TSCKfoldSeries(n_splits=2, shuffle=True, random_state=g.int(0, 9)) if g.flag() else TSCKfoldSeries(n_splits=3)
    e = EDMDCV(make(1), param_grid=grid, cv=cv)
    _, ok = untouched(X, lambda: e.fit(X))
    check(ok, "EDMDCV leaves the data unchanged")
    splits = list(cv.split(X))
    scores, train_scores = np.zeros((2, len(splits))), np.zeros((2, len(splits)))
    for a, d in enumerate(grid["s__delays"]):
        for k, (tr, te) in enumerate(splits):
            m = make(d).fit(X.iloc[tr])
            scores[a, k], train_scores[a, k] = m.score(X.iloc[te]), m.score(X.iloc[tr])
    for k in range(len(splits)):
        close(e.cv_results_[f"split{k}_test_score"], scores[:, k], "score of a fold", rtol=1e-6, atol=1e-8)
        close(e.cv_results_[f"split{k}_train_score"], train_scores[:, k], "score of a training fold", rtol=1e-6, atol=1e-8)
    close(e.cv_results_["mean_test_score"], scores.mean(axis=1), "mean score", rtol=1e-6, atol=1e-8)
    check(e.best_params_["s__delays"] == grid["s__delays"][int(np.argmax(scores.mean(axis=1)))], "best parameters")
    m = make(e.best_params_["s__delays"]).fit(X)
    close(e.best_estimator_.reconstruct(X).to_numpy(), m.reconstruct(X).to_numpy(), "refitted model", rtol=1e-6, atol=1e-7)


@case(4)
def array_input(g):
    """an array is one time series that starts at zero with the sampling of the training data"""
    X, blocks, ids, axes, names, dt = data(g, m=2, dt=g.choice(0.1, 0.3, 0.01, 1, 0.5), start=0)
    k = g.choice(0, 1)
    e = EDMD([("s", TSCTakensEmbedding(delays=k) if k else TSCPolynomialFeatures(degree=2, include_first_order=False))], dmd_model=DMDStandard(sys_mode="matrix"), include_id_state=g.flag()).fit(X)
    for L in range(k + 1, 64):
        g.note(rows=L, dt=dt)
        check(len(e.transform(np.ones((L, len(names))))) == L - k, "rows of an array", rows=L)
    for L in {g.int(k + 1, 60) for _ in range(2)}:
        A = g.normal(L, len(names))
        g.note(rows=L, dt=dt)
        T = e.transform(A)
        W = e.transform(frame([A], [0], [np.arange(L) * dt], names))
        check(T.shape == W.shape and list(T.columns) == list(W.columns), "rows and features of an array", got=T.shape, want=W.shape)
        close(T.to_numpy(), W.to_numpy(), "values of an array", rtol=1e-9, atol=1e-9)
        close(T.index.get_level_values(TIME).to_numpy(), W.index.get_level_values(TIME).to_numpy(), "time values of an array", rtol=1e-9, atol=1e-9)


CASES = [array_input, attributes, predict, koopman, reconstruct, control, score, transform_inverse, stepwise, windows, partial_fit, cross_validation]

"""C12: executable contracts of the batch DMD models (oracles: numpy.linalg.lstsq over all pairs, hand recursion)"""
import numpy as np
import scipy.linalg

from datafold.dynfold.dmd import DMDControl, DMDStandard, PretrainedDMD, compute_spectral_components, gDMDFull
from datafold.pcfold import TSCDataFrame
from .core import case, check, close, raises, same
from .tsgen import collection, diagonalizable, frame, ids_of, names_of, orbit, pairs, stable, untouched


def lstsq(Xm, Xp, w=None):
    if w is not None:
        s = np.sqrt(np.asarray(w))[:, None]
        Xm, Xp = Xm * s, Xp * s
    return np.linalg.lstsq(Xm, Xp, rcond=None)[0].T


def enough(g, n, lo=3):
    while True:
        X, blocks, ids, axes, names = collection(g, n=n, lo=lo, hi=9)
        Xm, _ = pairs(blocks)
        if len(Xm) >= n + 2 and np.linalg.cond(Xm) < 50:
            return X, blocks, ids, axes, names


@case(25)
def least_squares(g):
    """the (weighted) least squares matrix over the pairs of all series"""
    n = g.int(1, 4)
    X, blocks, ids, axes, names = enough(g, n)
    Xm, Xp = pairs(blocks)
    w = g.uniform(0.1, 3, len(Xm)) if g.flag() else None
    g.note(X=X, w=w)
    kw = {} if w is None else dict(sample_weights=w)
    K = lstsq(Xm, Xp, w)
    mdl, ok = untouched(X, lambda: DMDStandard(sys_mode="matrix").fit(X, **kw))
    check(ok, "fit changed its input")
    close(mdl.sys_matrix_, K, "least squares matrix", rtol=1e-6, atol=1e-7)
    check(list(mdl.feature_names_in_) == names and mdl.n_features_in_ == n, "feature attributes")
    close(mdl.dt_, axes[0][1] - axes[0][0], "sampling interval", rtol=1e-9)
    if diagonalizable(K):
        for diag in (False, True):
            s = DMDStandard(sys_mode="spectral", diagonalize=diag).fit(X, store_system_matrix=True, **kw)
            V, lam = s.eigenvectors_right_, s.eigenvalues_
            close(s.system_matrix_, K, "stored matrix", rtol=1e-6, atol=1e-7)
            close(K @ V, V * lam, "eigenpairs of the least squares matrix", rtol=1e-5, atol=1e-6)
            close(np.linalg.norm(V, axis=0), np.ones(n), "unit vectors", rtol=1e-6)
            close(s.dmd_modes, V, "modes")
            if diag:
                close((V * lam) @ s.eigenvectors_left_, K, "left vectors complete the decomposition", rtol=1e-5, atol=1e-6)


def expect(K, x0, tv, t0, dt):
    return np.stack([np.linalg.matrix_power(K, int(round((t - t0) / dt))) @ x0 for t in tv])


def verify(out, want, ids, tv, names, msg, rtol=1e-5, atol=1e-6):
    m, t, n = want.shape
    check(isinstance(out, TSCDataFrame), msg + ": type")
    close(out.to_numpy().reshape(m, t, n), want, msg + ": states", rtol=rtol, atol=atol)
    same(out.index.get_level_values(0).to_numpy(), np.repeat(ids, t), msg + ": identifiers")
    close(out.index.get_level_values(1).to_numpy().astype(float), np.tile(np.asarray(tv, float), m), msg + ": times", rtol=1e-12, atol=1e-13)
    check(list(out.columns) == list(names), msg + ": features", got=list(out.columns))


@case(25)
def prediction(g):
    """matrix, spectral and diagonalised models predict the same powers, from the initial condition's time"""
    n, m = g.int(1, 3), g.int(1, 4)
    while True:
        X, blocks, ids, axes, names = enough(g, n)
        K = lstsq(*pairs(blocks))
        if diagonalizable(K):
            break
    dt = float(axes[0][1] - axes[0][0])
    pid = ids_of(g, m)
    t0 = dt * g.int(0, 6)
    steps = np.unique(np.concatenate([[0], g.rng.choice(8, size=g.int(1, 5), replace=False)]))
    tv = t0 + dt * steps
    x0 = g.normal(m, n)
    g.note(K=K, x0=x0, t0=t0, tv=tv, pid=pid, names=names, dt=dt)
    want = np.stack([expect(K, x, tv, t0, dt) for x in x0])
    ic = frame([x[None] for x in x0], pid, [np.array([t0])] * m, names)
    lim = np.max(abs(want)) + 1
    for mdl in (DMDStandard(sys_mode="matrix"), DMDStandard(sys_mode="spectral"), DMDStandard(sys_mode="spectral", diagonalize=True)):
        mdl.fit(X)
        out, ok = untouched(ic, lambda: mdl.predict(ic, time_values=tv))
        check(ok, "predict changed the initial condition")
        verify(out, want, pid, tv, names, f"{mdl}", atol=1e-6 * lim)
        if steps.size > 1:  # the initial time is prepended
            verify(mdl.predict(ic, time_values=tv[1:]), want, pid, tv, names, "time of the initial condition is prepended", atol=1e-6 * lim)
        verify(mdl.predict(ic), np.stack([expect(K, x, [t0, t0 + dt], t0, dt) for x in x0]), pid, [t0, t0 + dt], names, "default is one step", atol=1e-6 * lim)
        arr = mdl.predict(x0, time_values=dt * steps)
        verify(arr, want, np.arange(m), dt * steps, names, "array initial condition", atol=1e-6 * lim)
        if mdl.sys_mode == "spectral":
            P = g.normal(2, n)
            o = mdl.predict(ic, time_values=tv, post_map=P, feature_columns=["a", "b"])
            verify(o, want @ P.T, pid, tv, ["a", "b"], "linear map of the states", atol=1e-5 * lim)
            o = mdl.predict(ic, time_values=tv, modes=P @ mdl.dmd_modes, feature_columns=["a", "b"])
            verify(o, want @ P.T, pid, tv, ["a", "b"], "modes of the user", atol=1e-5 * lim)


@case(15)
def reconstruction(g):
    """data generated by a linear system is reproduced, series by series (also unequal)"""
    n = g.int(1, 3)
    while True:
        A = stable(g, n, 0.8, 1.05)
        if not diagonalizable(A, 30, 0.15):
            continue
        X, blocks, ids, axes, names = collection(g, n=n, lo=n + 3, hi=n + 7, values=lambda L, k: orbit(A, g.normal(k), L))
        if np.linalg.cond(pairs(blocks)[0]) < 1e3:
            break
    g.note(A=A, X=X)
    for mdl in (DMDStandard(sys_mode="matrix"), DMDStandard(), DMDStandard(diagonalize=True), DMDStandard(approx_generator=True)):
        if mdl.approx_generator and np.any((abs(np.imag(np.linalg.eigvals(A))) < 1e-9) & (np.real(np.linalg.eigvals(A)) < 0)):
            continue
        mdl.fit(X)
        out, ok = untouched(X, lambda: mdl.reconstruct(X))
        check(ok, "reconstruct changed its input")
        out = out.sort_index()
        check(out.index.equals(X.index) and list(out.columns) == names, "index and features of the reconstruction", got=out)
        close(out.to_numpy(), X.to_numpy(), f"reconstruction {mdl}", rtol=1e-4, atol=1e-5)
        check(isinstance(out, TSCDataFrame), "type")


@case(10)
def generator_approximation(g):
    """approx_generator: the exponential of dt times the generator is the least squares matrix"""
    n = g.int(1, 3)
    dt = g.choice(0.1, 0.5, 1.0)
    while True:
        A = scipy.linalg.expm(g.normal(n, n) * 0.4)
        if diagonalizable(A, 50, 0.05):
            break
    X, blocks, ids, axes, names = collection(g, m=3, n=n, lo=n + 3, hi=n + 6, dt=dt, values=lambda L, k: orbit(A, g.normal(k), L))
    g.note(A=A, dt=dt)
    K = lstsq(*pairs(blocks))
    mt = DMDStandard(sys_mode="matrix", approx_generator=True).fit(X)
    close(scipy.linalg.expm(mt.sys_matrix_ * dt), K, "matrix exponential", rtol=1e-6, atol=1e-8)
    sp = DMDStandard(approx_generator=True).fit(X, store_system_matrix=True)
    close(K @ sp.eigenvectors_right_, sp.eigenvectors_right_ * np.exp(sp.eigenvalues_ * dt), "eigenvalues", rtol=1e-5, atol=1e-6)
    close(scipy.linalg.expm(sp.generator_matrix_ * dt), K, "stored generator", rtol=1e-6, atol=1e-8)
    x0 = g.normal(1, n)
    tv = np.array([0, 0.4 * dt, 1.7 * dt, 3 * dt])
    want = np.stack([np.real(scipy.linalg.expm(scipy.linalg.logm(K) * t / dt)) @ x0[0] for t in tv])[None]
    for mdl in (mt, sp):
        verify(mdl.predict(x0, time_values=tv), want, [0], tv, names, "evolution in continuous time")


@case(12)
def reduced_rank(g):
    """rank r: the operator is the projection of the least squares matrix on the r leading singular directions"""
    n = g.int(2, 5)
    r = g.int(1, n - 1)
    X, blocks, ids, axes, names = enough(g, n)
    Xm, Xp = pairs(blocks)
    g.note(X=X, r=r)
    U, S, Vh = np.linalg.svd(Xm.T, full_matrices=False)
    U, S, V = U[:, :r], S[:r], Vh[:r].T
    Kr = U.T @ Xp.T @ V / S
    if not diagonalizable(Kr):
        return
    e, p = DMDStandard(rank=r).fit(X), DMDStandard(rank=r, reconstruct_mode="project").fit(X)
    for mdl in (e, p):
        check(mdl.eigenvalues_.shape == (r,) and mdl.eigenvectors_right_.shape == (n, r), "number of modes")
        ev = np.linalg.eigvals(Kr)
        for l in mdl.eigenvalues_:
            check(min(abs(ev - l)) < 1e-6, "eigenvalue of the projected matrix", l=l, ev=ev)
    W = U.T @ p.eigenvectors_right_
    close(U @ W, p.eigenvectors_right_, "projected modes lie in the leading subspace", rtol=1e-6, atol=1e-8)
    close(Kr @ W, W * p.eigenvalues_, "projected modes", rtol=1e-5, atol=1e-6)
    F = (Xp.T @ V / S) @ U.T
    close(F @ e.eigenvectors_right_, e.eigenvectors_right_ * e.eigenvalues_, "exact modes are eigenvectors of the full rank-r operator", rtol=1e-5, atol=1e-6)


@case(10)
def low_rank_data(g):
    """data of rank r is reproduced by the rank r model"""
    n = g.int(2, 5)
    r = g.int(1, n - 1)
    Q = np.linalg.qr(g.normal(n, r))[0]
    while True:
        A = stable(g, r, 0.8, 1.0)
        if not diagonalizable(A, 20, 0.2):
            continue
        X, blocks, ids, axes, names = collection(g, m=g.int(2, 4), n=n, lo=r + 4, hi=r + 7, values=lambda L, k: orbit(A, g.normal(r), L) @ Q.T)
        if np.linalg.matrix_rank(pairs(blocks)[0], tol=5e-2) == r:
            break
    g.note(A=A, Q=Q, X=X)
    for mode in ("exact", "project"):
        out = DMDStandard(rank=r, reconstruct_mode=mode).fit(X).reconstruct(X).sort_index()
        close(out.to_numpy(), X.to_numpy(), f"reconstruction ({mode})", rtol=1e-4, atol=1e-5)


@case(15)
def control(g):
    """DMDControl: jointly least squares system and control matrix; spectral mode predicts the same"""
    n, q, m = g.int(1, 3), g.int(1, 2), g.int(1, 3)
    while True:
        X, blocks, ids, axes, names = collection(g, m=m, n=n, lo=4, hi=9)
        us = [g.normal(len(b) - 1, q) for b in blocks]
        Xm, Xp = pairs(blocks)
        Z = np.hstack([Xm, np.concatenate(us)])
        if len(Z) < n + q + 1 or np.linalg.cond(Z) > 30:
            continue
        M = lstsq(Z, Xp)
        A, B = M[:, :n], M[:, n:]
        if diagonalizable(A):
            break
    un = names_of(g, q, "u")
    U = frame(us, ids, [a[:-1] for a in axes], un)
    g.note(X=X, U=U)
    dt = float(axes[0][1] - axes[0][0])
    k = g.int(1, 5)
    mp = g.int(1, 3)
    t0 = float(axes[0][0])
    pid = ids_of(g, mp)
    x0 = g.normal(mp, n)
    uu = g.normal(mp, k, q)
    tv = t0 + dt * np.arange(k + 1)
    ic = frame([x[None] for x in x0], pid, [np.array([t0])] * mp, names)
    Up = frame(list(uu), pid, [tv[:-1]] * mp, un)
    want = np.zeros((mp, k + 1, n))
    for i in range(mp):
        want[i, 0] = x0[i]
        for j in range(k):
            want[i, j + 1] = A @ want[i, j] + B @ uu[i, j]
    lim = np.max(abs(want)) + 1
    for mode in ("matrix", "spectral"):
        mdl, ok = untouched(X, lambda: DMDControl(sys_mode=mode).fit(X, U=U))
        check(ok, "fit changed the states")
        close(mdl.control_matrix_, B, "control matrix", rtol=1e-5, atol=1e-6)
        if mode == "matrix":
            close(mdl.sys_matrix_, A, "system matrix", rtol=1e-5, atol=1e-6)
        out, ok = untouched(Up, lambda: mdl.predict(ic, U=Up))
        check(ok, "predict changed the control input")
        verify(out, want, pid, tv, names, mode, atol=1e-6 * lim)
        verify(mdl.predict(ic, U=Up, time_values=tv), want, pid, tv, names, mode + " with times", atol=1e-6 * lim)
        o = mdl.predict(x0[:1], U=uu[0])
        verify(o, want[:1], [0], dt * np.arange(k + 1), names, mode + " with arrays", atol=1e-6 * lim)
        o = mdl.predict(ic.iloc[:1], U=uu[0])
        verify(o, want[:1], pid[:1], tv, names, mode + " with control in an array", atol=1e-6 * lim)
        rec = mdl.reconstruct(X, U=U).sort_index()
        w = []
        for b, u in zip(blocks, us):
            s = [b[0]]
            for j in range(len(u)):
                s.append(A @ s[-1] + B @ u[j])
            w.append(np.array(s))
        w = np.concatenate(w)
        same(rec.index.get_level_values(0), X.index.get_level_values(0), "identifiers of the reconstruction")
        close(rec.index.get_level_values(1), X.index.get_level_values(1), "times of the reconstruction", rtol=1e-12)
        close(rec.to_numpy(), w, mode + " reconstruction", rtol=1e-4, atol=1e-5 * (1 + np.max(abs(w))))


@case(12)
def generator(g):
    """gDMDFull: least squares of the centred finite differences (order 2, one-sided at the borders) on the states"""
    n = g.int(1, 3)
    while True:
        X, blocks, ids, axes, names = collection(g, n=n, lo=5, hi=9)
        if np.linalg.cond(np.concatenate(blocks)) < 20:
            break
    dt = float(axes[0][1] - axes[0][0])
    g.note(X=X)
    ds = []
    for b in blocks:
        d = np.zeros_like(b)
        d[1:-1] = (b[2:] - b[:-2]) / (2 * dt)
        d[0] = (-1.5 * b[0] + 2 * b[1] - 0.5 * b[2]) / dt
        d[-1] = (1.5 * b[-1] - 2 * b[-2] + 0.5 * b[-3]) / dt
        ds.append(d)
    out = []
    for scheme, cut in (("center", slice(1, -1)), ):
        xs = np.concatenate([b[cut] for b in blocks])
        dd = np.concatenate([d[cut] for d in ds])
        if np.linalg.cond(xs) > 50:
            return
        out.append(lstsq(xs, dd))
    mdl, ok = untouched(X, lambda: gDMDFull(sys_mode="matrix").fit(X))
    check(ok, "fit changed its input")
    close(mdl.sys_matrix_, out[0], "generator", rtol=1e-5, atol=1e-6)
    if diagonalizable(out[0]):
        for diag in (False, True):
            s = gDMDFull(is_diagonalize=diag).fit(X, store_generator_matrix=True)
            close(s.generator_matrix_, out[0], "stored generator", rtol=1e-5, atol=1e-6)
            V, lam = s.eigenvectors_right_, s.eigenvalues_
            close(out[0] @ V, V * lam, "eigenpairs", rtol=1e-4, atol=1e-5)
            if diag:
                close((V * lam) @ s.eigenvectors_left_, out[0], "left vectors", rtol=1e-4, atol=1e-5)
            x0 = g.normal(2, n)
            tv = np.array([0, 0.3, 0.5, 1.1]) * min(1, 1 / np.max(abs(lam)))
            want = np.stack([np.stack([scipy.linalg.expm(out[0] * t) @ x for t in tv]) for x in x0])
            for q in (s, mdl):
                verify(q.predict(x0, time_values=tv), want, [0, 1], tv, names, "generator prediction", rtol=1e-4, atol=1e-5)


@case(10)
def pretrained(g):
    """PretrainedDMD evolves the given matrix in both modes; compute_spectral_components decomposes it"""
    n, m = g.int(1, 4), g.int(1, 3)
    while True:
        A = stable(g, n)
        if diagonalizable(A):
            break
    names = names_of(g, n)
    g.note(A=A)
    A0 = A.copy()
    V, lam, L = compute_spectral_components(A, True)
    close(A @ V, V * lam, "eigenpairs", rtol=1e-6, atol=1e-8)
    close((V * lam) @ L, A, "decomposition", rtol=1e-6, atol=1e-8)
    close(np.linalg.norm(V, axis=0), np.ones(n), "unit length")
    check(compute_spectral_components(A, False)[2] is None, "no left vectors")
    same(A, A0, "matrix unchanged")
    X, *_ = collection(g, m=1, n=n, names=names, dt=1.0, lo=3)
    x0 = g.normal(m, n)
    for typ in ("flowmap", "differential"):
        tv = np.arange(5.0)
        want = np.stack([np.stack([(np.linalg.matrix_power(A, int(t)) if typ == "flowmap" else scipy.linalg.expm(A * t)) @ x for t in tv]) for x in x0])
        for mode, diag in (("matrix", False), ("spectral", False), ("spectral", True)):
            mdl = PretrainedDMD.from_available_system_matrix(typ, mode, A, diag).fit(X)
            verify(mdl.predict(x0, time_values=tv), want, np.arange(m), tv, names, f"{typ} {mode}")


@case(6)
def refusals(g):
    """ambiguous or unknown settings are refused"""
    n = g.int(2, 3)
    X, blocks, ids, axes, names = enough(g, n)
    g.note(X=X)
    raises(ValueError, lambda: DMDStandard(rank=n).fit(X), "rank must be smaller than the number of features")
    raises(ValueError, lambda: DMDStandard(rank=1, reconstruct_mode="other").fit(X), "reconstruct mode")
    raises(NotImplementedError, lambda: DMDStandard(rank=1).fit(X, sample_weights=np.ones(len(pairs(blocks)[0]))), "weights with rank")
    raises(KeyError, lambda: DMDStandard().fit(X, other=1), "unknown fit parameter")
    s = DMDStandard().fit(X)
    x0 = g.normal(1, n)
    raises(KeyError, lambda: s.predict(x0, time_values=np.arange(2.0), other=1), "unknown predict parameter")
    raises(ValueError, lambda: s.predict(x0, time_values=np.arange(2.0), post_map=np.eye(n)), "feature columns are required")
    raises(ValueError, lambda: s.predict(x0, time_values=np.arange(2.0), post_map=np.eye(n), modes=np.eye(n), feature_columns=names), "both maps")
    mm = DMDStandard(sys_mode="matrix").fit(X)
    raises(ValueError, lambda: mm.predict(x0, time_values=np.arange(2.0), post_map=np.eye(n), feature_columns=names), "matrix mode has no modes")


CASES = [least_squares, prediction, reconstruction, generator_approximation, reduced_rank, low_rank_data, control, generator, pretrained, refusals]

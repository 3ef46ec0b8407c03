"""C13: executable contracts of OnlineDMD and StreamingDMD (oracle: weighted least squares over all pairs seen so far)"""
import numpy as np

from datafold.dynfold.dmd import OnlineDMD, StreamingDMD
from .core import Broken, Known, case, check, close, raises, same
from .c12 import lstsq, verify
from .tsgen import collection, diagonalizable, frame, ids_of, names_of, orbit, pairs, stable, untouched


def stream(g, n, total=None, scale=1.0, values=None, lo=2, hi=6):
    """a list of batches with one to three series each (new identifiers, also unequal lengths)"""
    dt = g.choice(1.0, 0.1)
    names = names_of(g, n)
    out, ident = [], 0
    for _ in range(total or g.int(1, 4)):
        blocks, ids, axes = [], [], []
        for _ in range(g.int(1, 3)):
            L = g.int(lo, hi)
            blocks.append((g.normal(L, n) if values is None else values(L)) * scale)
            ids.append(ident)
            axes.append(dt * (np.arange(L) + g.int(0, 3)))
            ident += 1
        out.append((frame(blocks, ids, axes, names), blocks))
    return out, names, dt


def seen(bs):
    P = [pairs(b) for _, b in bs]
    return np.concatenate([p[0] for p in P]), np.concatenate([p[1] for p in P])


def regroup(g, bs):
    """the same series, differently grouped into batches"""
    import pandas as pd
    fr = [f for f, _ in bs]
    allf = pd.concat(fr, axis=0)
    ids = list(allf.ids)
    cuts = sorted(g.rng.choice(np.arange(1, len(ids)), size=g.int(0, len(ids) - 1), replace=False)) if len(ids) > 1 else []
    return [allf.loc[list(c)] for c in np.split(np.array(ids), cuts)]


def operator(m):
    V, lam = m.eigenvectors_right_, m.eigenvalues_
    return np.real((V * lam) @ np.linalg.pinv(V))


@case(20)
def online(g):
    """OnlineDMD: after every update the operator is the weighted least squares one of all pairs so far, in any grouping"""
    n = g.int(1, 4)
    rho = g.choice(1.0, 1, 0.9, 0.7)
    scale = g.choice(1.0, 1.0, 50.0, 0.02)
    bs, names, dt = stream(g, n, total=g.int(2, 4), scale=scale)
    g.note(rho=rho, n=n, scale=scale, batches=[f for f, _ in bs])
    batch_first = g.flag()
    mdl = OnlineDMD(weighting=rho, with_warm_up=False)
    for k, (f, _) in enumerate(bs):
        Xm, Xp = seen(bs[:k + 1])
        first = batch_first and k == 0
        if first and (len(Xm) < n or np.linalg.cond(Xm) > 20):
            batch_first = first = False
        _, ok = untouched(f, lambda: mdl.partial_fit(f, **(dict(batch_fit=True) if first else {})))
        check(ok, "partial_fit changed its input")
        check(mdl.timestep_ == len(Xm), "number of pairs seen")
        w = float(rho) ** np.arange(len(Xm))[::-1]
        if len(Xm) >= n + 2 and np.linalg.cond(Xm * np.sqrt(w)[:, None]) < 20:
            K = lstsq(Xm, Xp, w)
            close(mdl.A, K, "least squares operator of all pairs so far", rtol=1e-4, atol=1e-4)
            if batch_first and np.linalg.cond(seen(bs[:1])[0]) < 10:
                close(mdl.A, K, "after a batch fit", rtol=1e-6, atol=1e-7)
            if not diagonalizable(K, 100):
                continue
            close(operator(mdl), K, "spectral components of the updated operator", rtol=1e-3, atol=1e-3)
            x0 = g.normal(2, n)
            tv = dt * np.arange(3)
            verify(mdl.predict(x0, time_values=tv), np.stack([orbit(K, x, 3) for x in x0]), [0, 1], tv, names, "prediction", rtol=1e-3, atol=1e-2)
    other = OnlineDMD(weighting=rho, with_warm_up=False)
    for f in regroup(g, bs):
        other.partial_fit(f)
    Xm, Xp = seen(bs)
    w = float(rho) ** np.arange(len(Xm))[::-1]
    if len(Xm) >= n + 2 and np.linalg.cond(Xm * np.sqrt(w)[:, None]) < 20:
        close(other.A, mdl.A, "independent of the grouping", rtol=1e-4, atol=1e-4)


@case(15)
def online_batch(g):
    """OnlineDMD.fit is the weighted batch solution; further updates continue from it"""
    n = g.int(1, 4)
    rho = g.choice(1.0, 0.9, 0.6)
    bs, names, dt = stream(g, n, total=3, lo=3, hi=7)
    Xm, Xp = seen(bs[:1])
    w = float(rho) ** np.arange(len(Xm))[::-1]
    if len(Xm) < n + 1 or np.linalg.cond(Xm * np.sqrt(w)[:, None]) > 10:
        return
    g.note(rho=rho, batches=[f for f, _ in bs])
    diag = g.flag()
    mdl = OnlineDMD(weighting=rho, with_warm_up=g.flag(), is_diagonalize=diag)
    f0 = bs[0][0]
    _, ok = untouched(f0, lambda: mdl.fit(f0))
    check(ok, "fit changed its input")
    close(mdl.A, lstsq(Xm, Xp, w), "batch solution", rtol=1e-7, atol=1e-9)
    for k in (1, 2):
        mdl.partial_fit(bs[k][0])
        Xm, Xp = seen(bs[:k + 1])
        w = float(rho) ** np.arange(len(Xm))[::-1]
        K = lstsq(Xm, Xp, w)
        close(mdl.A, K, "updated solution", rtol=1e-6, atol=1e-7)
        check(mdl.ready_ == (not mdl.with_warm_up or len(Xm) >= 2 * n), "warm up ends after 2 n pairs")
        if diag and mdl.ready_ and diagonalizable(K, 100):
            close((mdl.eigenvectors_right_ * mdl.eigenvalues_) @ mdl.eigenvectors_left_, K, "left vectors", rtol=1e-4, atol=1e-5)


@case(8)
def online_warm_up(g):
    """before 2 n pairs were seen a model with warm up offers no operator"""
    n = g.int(2, 4)
    bs, names, dt = stream(g, n, total=1, lo=2, hi=3)
    f, b = bs[0]
    k = len(pairs(b)[0])
    g.note(X=f)
    mdl = OnlineDMD().partial_fit(f)
    check(mdl.ready_ == (k >= 2 * n), "ready")
    if not mdl.ready_:
        check(not hasattr(mdl, "eigenvalues_"), "no spectral components yet")
    for bad in (0, -0.1, 1.5):
        raises(ValueError, lambda: OnlineDMD(weighting=bad).partial_fit(f), "weighting in (0, 1]")


@case(15)
def streaming(g):
    """StreamingDMD without rank limit: the least squares operator of all pairs, in any grouping"""
    n = g.int(1, 4)
    bs, names, dt = stream(g, n, total=g.int(1, 3), lo=4, hi=8, scale=g.choice(1.0, 30.0))
    g.note(batches=[f for f, _ in bs])
    order = [f for f, _ in bs] if g.flag() else regroup(g, bs)
    mdl = StreamingDMD()
    for f in order:
        _, ok = untouched(f, lambda: mdl.partial_fit(f))
        check(ok, "partial_fit changed its input")
    Xm, Xp = seen(bs)
    keep = np.arange(len(Xm)) != 1
    if len(Xm) < n + 3 or np.linalg.cond(Xm[keep]) > 30:
        return
    got = operator(mdl)
    if not diagonalizable(lstsq(Xm[keep], Xp[keep]), 300):
        return
    close(got, lstsq(Xm[keep], Xp[keep]), "least squares operator of the pairs", rtol=1e-5, atol=1e-6)
    K = lstsq(Xm[keep], Xp[keep])
    x0 = g.normal(2, n)
    tv = dt * np.arange(3)
    want = np.stack([orbit(K, x, 3) for x in x0])
    verify(mdl.predict(x0, time_values=tv), want, [0, 1], tv, names, "prediction", rtol=1e-4, atol=1e-4)
    verify(mdl.predict(x0), want[:, :2], [0, 1], tv[:2], names, "prediction of one step", rtol=1e-4, atol=1e-4)
    if not np.allclose(got, lstsq(Xm, Xp), rtol=1e-5, atol=1e-6):
        raise Known("c13-second-pair", "StreamingDMD skips the second snapshot pair of the very first series (the two samples used to set the model up are not continued)")


@case(10)
def streaming_linear(g):
    """StreamingDMD on linear data of low dimension reproduces it, also directly after the first pair"""
    n, r = g.int(2, 5), g.int(1, 2)
    r = min(r, n)
    while True:
        A = stable(g, r, 0.8, 1.0)
        if diagonalizable(A, 10, 0.3):
            break
    Q = np.linalg.qr(g.normal(n, r))[0]
    bs, names, dt = stream(g, n, total=2, lo=r + 3, hi=r + 5, values=lambda L: orbit(A, g.normal(r) + 0.5, L) @ Q.T)
    g.note(A=A, batches=[f for f, _ in bs])
    if np.linalg.cond(np.concatenate([b[:-1] for b in bs[0][1]]) @ Q) > 50:
        return
    mdl = StreamingDMD(incr_basis_tol=1e-8)
    for k, (f, b) in enumerate(bs):
        mdl.partial_fit(f)
        check(np.linalg.matrix_rank(mdl._Qx) == mdl._Qx.shape[1] <= n, "independent basis")
        close(mdl.reconstruct(f).sort_index().to_numpy(), f.to_numpy(), "reconstruction", rtol=1e-3, atol=1e-4)
    if r == 1:
        f = bs[0][0].iloc[:2]
        m1 = StreamingDMD().partial_fit(f)
        close(m1.predict(f.iloc[:1]).to_numpy(), f.to_numpy(), "prediction after the first pair", rtol=1e-6, atol=1e-8)


@case(15)
def streaming_rank(g):
    """the rank limit keeps the leading directions: small perturbations outside of them do not matter"""
    n = g.int(3, 6)
    r = g.int(1, 2)
    while True:
        A = stable(g, r, 0.9, 1.0)
        if diagonalizable(A, 5, 0.6):
            break
    Q = np.linalg.qr(g.normal(n, r))[0]
    eps = 1e-7
    bs, names, dt = stream(g, n, total=3, lo=r + 4, hi=r + 6, values=lambda L: orbit(A, g.normal(r) + 1.0, L) @ Q.T + eps * g.normal(L, n))
    g.note(A=A, r=r, batches=[f for f, _ in bs])
    if np.linalg.cond(np.concatenate([b[:-1] for b in bs[0][1][:1]])[:r] @ Q) > 50:
        return
    mdl = StreamingDMD(max_rank=r)
    for f, _ in bs:
        mdl.partial_fit(f)
        check(mdl._Qx.shape[1] <= r and mdl._Qy.shape[1] <= r and len(mdl.eigenvalues_) <= r, "rank limit")
    close(mdl._Qx.T @ mdl._Qx, np.eye(mdl._Qx.shape[1]), "orthonormal basis", rtol=1e-5, atol=1e-5)
    Pi = mdl._Qx @ np.linalg.pinv(mdl._Qx)
    close(Pi, Q @ Q.T, "leading subspace", rtol=1e-3, atol=1e-3)
    ev = np.linalg.eigvals(A)
    for l in ev:
        check(min(abs(mdl.eigenvalues_ - l)) < 1e-3, "eigenvalues of the leading dynamics", ev=ev, got=mdl.eigenvalues_)


@case(12)
def compression(g):
    """one compression step: projection on the max_rank leading eigenvectors of the collected energies"""
    n = g.int(3, 6)
    rx, ry = g.int(2, n), g.int(2, n)
    r = g.int(1, min(rx, ry))
    m = StreamingDMD(max_rank=r)
    Qx, Qy = np.linalg.qr(g.normal(n, rx))[0], np.linalg.qr(g.normal(n, ry))[0]
    Gx, Gy = g.normal(rx, rx), g.normal(ry, ry)
    Gx, Gy = Gx @ Gx.T, Gy @ Gy.T
    A = g.normal(ry, rx)
    g.note(Qx=Qx, Qy=Qy, Gx=Gx, Gy=Gy, A=A, r=r)
    m._Qx, m._Qy, m._Gx, m._Gy, m.A = Qx.copy(), Qy.copy(), Gx.copy(), Gy.copy(), A.copy()
    m._pod_compression()

    def lead(G, k):
        w, V = np.linalg.eigh(G)
        return (V[:, ::-1][:, :k], w[::-1][:k]) if k < len(w) else (np.eye(len(w)), None)

    (Vx, wx), (Vy, wy) = lead(Gx, r), lead(Gy, r)
    close(m._Qx @ m._Qx.T, Qx @ Vx @ Vx.T @ Qx.T, "leading input directions", rtol=1e-6, atol=1e-8)
    close(m._Qy @ m._Qy.T, Qy @ Vy @ Vy.T @ Qy.T, "leading output directions", rtol=1e-6, atol=1e-8)
    close(m._Qx @ m._Gx @ m._Qx.T, Qx @ Vx @ Vx.T @ Gx @ Vx @ Vx.T @ Qx.T, "energies", rtol=1e-6, atol=1e-8)
    close(m._Qy @ m._Gy @ m._Qy.T, Qy @ Vy @ Vy.T @ Gy @ Vy @ Vy.T @ Qy.T, "output energies", rtol=1e-6, atol=1e-8)
    close(m._Qy @ m.A @ m._Qx.T, Qy @ Vy @ Vy.T @ A @ Vx @ Vx.T @ Qx.T, "projected operator", rtol=1e-6, atol=1e-8)


CASES = [online, online_batch, online_warm_up, streaming, streaming_linear, streaming_rank, compression]

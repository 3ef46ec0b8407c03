"""C16 executable contracts: model predictive control and the linear quadratic regulator"""
import numpy as np
import scipy.linalg

from .core import case, check, close, same, raises


def _names(g, n, p):
    x = [f"{p}{i}" for i in range(n)]
    return [str(z) for z in g.rng.permutation(x)] if g.flag(0.5) else x


def model(g, lift=None, delay=None):
    """EDMD with a random controlled linear operator (fitted, then given random matrices of full generality)"""
    from datafold import EDMD, TSCDataFrame, DMDControl, TSCIdentity
    from datafold.dynfold import TSCPolynomialFeatures, TSCTakensEmbedding
    n, c = g.int(1, 4), g.int(1, 3)
    lift = g.flag(0.4) if lift is None else lift
    delay = (0 if lift else g.choice(0, 0, 1)) if delay is None else delay
    dt = g.choice(0.1, 1.0, 0.25, 2)
    t0 = g.choice(0.0, 0.0, 3.0)
    N = 12 + 2 * n + 2 * c
    tv = t0 + dt * np.arange(N)
    fx, fu = _names(g, n, "x"), _names(g, c, "u")
    X = TSCDataFrame.from_array(g.normal(N, n), time_values=tv, feature_names=fx)
    U = TSCDataFrame.from_array(g.normal(N - 1, c), time_values=tv[:-1], feature_names=fu)
    if lift:
        steps = [("poly", TSCPolynomialFeatures(degree=2))]
    elif delay:
        steps = [("takens", TSCTakensEmbedding(delays=delay)), ("id", TSCIdentity())]
    else:
        steps = [("id", TSCIdentity())]
    e = EDMD(steps, dmd_model=DMDControl(), include_id_state=bool(lift))
    e.fit(X, U=U.iloc[delay:])
    d = e.dmd_model
    N_ = d.sys_matrix_.shape[0]
    d.sys_matrix_ = g.normal(N_, N_) / np.sqrt(N_) * g.choice(0.5, 0.9, 1.0)
    d.control_matrix_ = g.normal(N_, c)
    g.note(n=n, c=c, lift=lift, delay=delay, dt=dt, features=fx, controls=fu)
    return e, X, U, n, c, dt, delay


def kmpc(g, e, n, c, **kw):
    from datafold.appfold.mpc import KMPC
    h = g.int(2, 5)
    fo = list(e.feature_names_out_)
    q = None
    if g.flag(0.6):
        q = [str(z) for z in g.rng.permutation(fo)[: g.int(1, len(fo))]]
    nq = len(q or fo)

    def cost(k, lo=0.0):
        return g.choice(float(g.uniform(0.1, 3)), 1, g.uniform(0.1, 3, k), np.where(g.rng.random(k) < 0.3, lo, g.uniform(0.1, 3, k)))

    a = dict(horizon=h, state_bounds=None, input_bounds=None, qois=q, cost_running=cost(nq), cost_terminal=g.choice(None, cost(nq)), cost_input=cost(c, 0.1))
    a.update({k: f(nq) if callable(f) else f for k, f in kw.items()})
    g.note(horizon=h, qois=q, costs=[a["cost_running"], a["cost_terminal"], a["cost_input"]])
    return KMPC(e, **a), h, q or fo, a


def vec(x, n):
    return np.broadcast_to(np.asarray(x, float), (n,))


def weights(a, nq, c, h):
    run = vec(a["cost_running"], nq)
    term = run if a["cost_terminal"] is None else vec(a["cost_terminal"], nq)
    if np.all(term == 0):
        term = run
    return np.stack([run] * (h - 1) + [term]), np.stack([vec(a["cost_input"], c)] * h)


def rollout(e, x, U, sel):
    A, B = e.dmd_model.sys_matrix_, e.dmd_model.control_matrix_
    out = []
    for u in U:
        x = A @ x + B @ u
        out.append(x[sel])
    return np.array(out)


@case(40)
def matrices(g):
    """Ab x + Bb U are the predicted states, H, M, Y give the documented cost for every input sequence"""
    e, X, U, n, c, dt, delay = model(g)
    A0, B0 = e.dmd_model.sys_matrix_.copy(), e.dmd_model.control_matrix_.copy()
    k, h, q, a = kmpc(g, e, n, c)
    same(e.dmd_model.sys_matrix_, A0, "system matrix unchanged")
    same(e.dmd_model.control_matrix_, B0, "control matrix unchanged")
    fo = list(e.feature_names_out_)
    sel = [fo.index(x) for x in q]
    Ab, Bb = k._create_evolution_matrices()
    W, R = weights(a, len(q), c, h)
    x = g.normal(len(fo))
    ref = g.normal(h, len(q))

    def J(V):
        z = rollout(e, x, V, sel) - ref
        return np.sum(W * z * z) + np.sum(R * V * V)

    lin = (k.M @ x[:, None] - k.Y @ ref.reshape(-1, 1)).ravel()
    for _ in range(3):
        V = g.normal(h, c)
        close((Ab @ x + Bb @ V.ravel()).reshape(h, len(q)), rollout(e, x, V, sel), "Ab x + Bb U are the predicted states")
        H = np.asarray(k.H)
        qp = 0.5 * V.ravel() @ H @ V.ravel() + np.asarray(lin).ravel() @ V.ravel()
        close(qp, J(V) - J(np.zeros((h, c))), "QP objective is the cost up to a constant", rtol=1e-7, atol=1e-8)


@case(60)
def solution(g):
    """the returned inputs keep the bounds and no admissible change of them lowers the cost; labelled with the right times"""
    from datafold import TSCDataFrame
    e, X, U, n, c, dt, delay = model(g)
    ib = g.flag(0.6)
    lo, hi = -g.uniform(0.05, 1, c), g.uniform(0.05, 1.5, c)
    k, h, q, a = kmpc(g, e, n, c, input_bounds=np.column_stack([lo, hi]) if ib else None)
    i0 = g.int(0, 3)
    ic = X.iloc[i0:i0 + delay + 1, :]
    x = e.transform(ic).to_numpy().ravel()
    fo = list(e.feature_names_out_)
    sel = [fo.index(z) for z in q]
    t0 = ic.time_values()[-1]
    ref = g.normal(h, len(q)) * g.choice(0.3, 2.0)
    sb = g.flag(0.5)
    W, R = weights(a, len(q), c, h)
    if sb:  # bounds around the states of an admissible input sequence: feasible by construction
        V0 = g.uniform(0, 1, (h, c)) * (hi - lo) + lo
        Z = rollout(e, x, V0, sel)
        m = g.uniform(0.05, 0.6, len(q))
        k.state_bounds = np.column_stack([Z.min(0) - m, Z.max(0) + m])
        k = type(k)(e, **{**a, "state_bounds": k.state_bounds})
    r = TSCDataFrame.from_array(ref, time_values=t0 + dt * np.arange(1, h + 1), feature_names=q)
    ic0, r0 = ic.copy(), r.copy()
    got = k.control_sequence_horizon(ic, r)
    same(ic, ic0, "initial condition unchanged")
    same(r, r0, "reference unchanged")
    check(list(got.columns) == list(e.control_names_in_), "control names", got=list(got.columns))
    close(got.time_values(), t0 + dt * np.arange(h), "times of the inputs", rtol=1e-12)
    V = got.to_numpy()

    def J(V):
        z = rollout(e, x, V, sel) - ref
        return np.sum(W * z * z) + np.sum(R * V * V)

    def feasible(V, tol):
        ok = True
        if ib:
            ok &= bool(np.all(V >= lo - tol) and np.all(V <= hi + tol))
        if sb:
            z = rollout(e, x, V, sel)
            ok &= bool(np.all(z >= k.state_bounds[:, 0] - tol) and np.all(z <= k.state_bounds[:, 1] + tol))
        return ok

    check(feasible(V, 1e-6), "returned inputs and predicted states keep the bounds", V=V, states=rollout(e, x, V, sel), bounds=k.state_bounds)
    base = J(V)
    cands = [V0] if sb else [np.zeros((h, c))]
    for s in (1e-3, 1e-2, 0.1, 1.0):
        for _ in range(12):
            d = g.normal(h, c) * (g.rng.random((h, c)) < 0.5) * s
            cands.append(V + d)
            if ib:
                cands.append(np.clip(V + d, lo, hi))
            if sb:
                cands.append(V + s * 0.5 * (V0 - V))
    for W_ in cands:
        if feasible(W_, 0.0):
            check(J(W_) >= base - 1e-6 * (1 + abs(base)), "no admissible inputs are cheaper", cost=base, cheaper=J(W_), V=V, other=W_)
    if not ib and not sb:
        eps = 1e-4
        G = np.array([(J(V + eps * E) - J(V - eps * E)) / (2 * eps) for E in np.eye(h * c).reshape(-1, h, c)])
        close(G, 0 * G, "gradient of the cost vanishes", atol=1e-4 * (1 + abs(base)))
    same(k.control_sequence_horizon(ic, r), got, "repeating gives the same inputs")


@case(12)
def closed_loop(g):
    """every applied input is the first one of the horizon problem of the current state"""
    from datafold import TSCDataFrame
    e, X, U, n, c, dt, delay = model(g, lift=False, delay=0)
    lo = -g.uniform(0.5, 1, (c, 1))
    k, h, q, a = kmpc(g, e, n, c, input_bounds=np.hstack([lo, -lo]))
    L = g.int(2, 4) + h
    t0 = X.time_values()[0]
    ref = TSCDataFrame.from_array(g.normal(L, len(q)), time_values=t0 + dt * np.arange(1, L + 1), feature_names=q)

    class Plant:
        def predict(self, X, U, time_values):
            return e.predict(X, U=U, time_values=np.asarray(time_values)), U

    S, V = k.control_system_reference(Plant(), X.iloc[[0], :], ref, X.iloc[[0], :])
    x = X.iloc[[0], :].to_numpy().ravel()
    A, B = e.dmd_model.sys_matrix_, e.dmd_model.control_matrix_
    check(S.shape[0] == L and V.shape[0] == L - 1, "one step per reference sample", S=S.shape, V=V.shape)
    for i in range(L - h):
        st = TSCDataFrame.from_array(x[None, :], time_values=[t0 + i * dt], feature_names=list(X.columns))
        want = k.control_sequence_horizon(st, ref.iloc[i:i + h, :]).to_numpy()[0]
        close(V.to_numpy()[i], want, f"input {i}", rtol=1e-5, atol=1e-6)
        x = A @ x + B @ V.to_numpy()[i]
        close(S.to_numpy()[i + 1], x, f"state {i + 1}", rtol=1e-6, atol=1e-7)


@case(25)
def refuses(g):
    """wrong horizon, bounds, costs, solver, reference length, width and times are refused"""
    from datafold import TSCDataFrame
    from datafold.appfold.mpc import KMPC
    e, X, U, n, c, dt, delay = model(g, delay=0)
    nf = e.dmd_model.n_features_in_
    ok = dict(horizon=3, state_bounds=None, input_bounds=None)
    KMPC(e, **ok)
    for bad, exc in ((dict(horizon=1), ValueError), (dict(horizon=2.0), TypeError), (dict(solver="nothing"), ValueError),
                     (dict(input_bounds=np.zeros((c + 1, 2))), ValueError), (dict(input_bounds=np.zeros((c, 3))), ValueError),
                     (dict(state_bounds=np.zeros((nf + 1, 2))), ValueError), (dict(cost_running=-1.0), ValueError),
                     (dict(cost_running=np.ones(nf + 1)), ValueError), (dict(cost_input=np.ones(c + 1)), ValueError),
                     (dict(cost_input=-np.ones(c)), ValueError), (dict(cost_input="x"), TypeError),
                     (dict(cost_running=np.ones((nf, 1))), ValueError), (dict(qois=["nope"]), ValueError)):
        raises(exc, lambda: KMPC(e, **{**ok, **bad}), f"KMPC {bad}")
    k = KMPC(e, **ok)
    t0 = X.time_values()[0]
    ic = X.iloc[[0], :]
    ref = lambda s=3, w=nf, t=t0 + dt: TSCDataFrame.from_array(np.zeros((s, w)), time_values=t + dt * np.arange(s), feature_names=[f"r{i}" for i in range(w)])
    k.control_sequence_horizon(ic, ref())
    for nm, r in (("short", ref(2)), ("long", ref(4)), ("wide", ref(3, nf + 1)), ("early", ref(t=t0)), ("late", ref(t=t0 + 2 * dt))):
        raises(ValueError, lambda: k.control_sequence_horizon(ic, r), f"reference {nm}")
    raises(ValueError, lambda: k.control_sequence_horizon(X.iloc[:2, :], ref()), "two initial states")
    kb = KMPC(e, **{**ok, "input_bounds": np.column_stack([np.ones(c), -np.ones(c)])})
    raises(Exception, lambda: kb.control_sequence_horizon(ic, ref()), "empty input bounds")


@case(40)
def lqr(g):
    """the gain minimises the infinite horizon cost (Riccati equation, stable closed loop) and u = -F (x - target)"""
    from datafold import TSCDataFrame
    from datafold.appfold.mpc import LQR
    e, X, U, n, c, dt, delay = model(g)
    nf = e.n_features_out_
    A, B = e.dmd_model.sys_matrix_, e.dmd_model.control_matrix_
    cr, ci = g.choice(1.0, 2, g.uniform(0.2, 2, nf)), g.choice(1.0, 0.5, g.uniform(0.2, 2, c))
    l = LQR(e, cost_running=cr, cost_input=ci)
    Q, R = np.diag(vec(cr, nf)), np.diag(vec(ci, c))
    P = np.array(Q)
    for _ in range(3000):
        Pn = Q + A.T @ P @ A - A.T @ P @ B @ np.linalg.solve(R + B.T @ P @ B, B.T @ P @ A)
        if np.abs(Pn - P).max() < 1e-13 * np.abs(P).max():
            break
        P = Pn
    F = np.linalg.solve(R + B.T @ P @ B, B.T @ P @ A)
    close(l.Flqr, F, "gain of the value iteration", rtol=1e-5, atol=1e-7)
    check(np.abs(np.linalg.eigvals(A - B @ l.Flqr)).max() < 1, "closed loop is stable")
    i, j = g.int(0, 3), g.int(4, 7)
    x, t = X.iloc[i:i + delay + 1, :], X.iloc[j:j + delay + 1, :]
    want = -F @ (e.transform(x).to_numpy().ravel() - e.transform(t).to_numpy().ravel())
    x0, t_ = x.copy(), t.copy()
    for r in (l.control_sequence(x, t), l.preset_target_state(t).control_sequence(x)):
        check(isinstance(r, TSCDataFrame) and list(r.columns) == list(e.control_names_in_), "control names", got=list(r.columns))
        close(r.to_numpy(), want[None, :], "u = -F (x - target)", rtol=1e-5, atol=1e-7)
        close(r.time_values(), x.time_values()[-1:], "time of the state")
        same(r.ids, x.ids, "series of the state")
    same(x, x0, "state unchanged")
    same(t, t_, "target unchanged")
    raises(ValueError, lambda: LQR(e, cost_running=cr, cost_input=ci).control_sequence(x), "no target")


CASES = [matrices, solution, closed_loop, refuses, lqr]

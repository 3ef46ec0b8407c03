"""C11: executable contracts of LinearDynamicalSystem (independent oracles: matrix_power, expm, hand recursion)"""
import numpy as np
import scipy.linalg
from scipy.integrate import solve_ivp

from datafold.dynfold.dynsystem import LinearDynamicalSystem
from .core import Broken, case, check, close, raises, same


def mat(g, n, stable=True):
    A = g.normal(n, n)
    if stable:
        A = A / (1e-9 + max(abs(np.linalg.eigvals(A)))) * g.uniform(0.5, 1.1)
    return A


def ic(g, n, m):
    x = g.normal(n, m)
    return x


def times(g, integer=False):
    t = g.int(1, 7)
    if integer:
        return np.sort(g.rng.choice(12, size=t, replace=False)).astype(g.choice(int, float))
    return np.sort(g.uniform(0, 4, t)) + (0 if g.flag() else g.uniform(0, 2))


def verify(out, want, ids, tv, names, msg, **kw):
    """want: (m, t, n)"""
    m, t, n = want.shape
    close(out.to_numpy().reshape(m, t, n), want, msg + ": states", **kw)
    same(out.index.get_level_values(0).to_numpy(), np.repeat(ids, t), msg + ": identifiers")
    same(out.index.get_level_values(1).to_numpy().astype(float), np.tile(np.asarray(tv, float), m), msg + ": times")
    check(list(out.columns) == list(names), msg + ": feature names", got=list(out.columns))


def labels(g, m, n):
    ids = np.sort(g.rng.choice(50, size=m, replace=False)) if g.flag(0.7) else None
    names = [f"f{k}" for k in g.rng.permutation(n)] if g.flag(0.7) else None
    return ids, names


def run(g, s, x, tv, names, ids, **kw):
    x0 = x.copy()
    t0 = np.array(tv)
    r = s.evolve_system(x, time_values=tv, time_series_ids=ids, feature_names_out=names, **kw)
    same(x, x0, "initial condition unchanged")
    same(tv, t0, "time values unchanged")
    return r


@case(25)
def flowmap_uncontrolled(g):
    """matrix and spectral flow maps equal the power of the matrix"""
    n, m = g.int(1, 4), g.int(1, 4)
    A = mat(g, n)
    tv = times(g, integer=True)
    dt = float(g.choice(1.0, 0.5, 2.0, 0.1))
    ids, names = labels(g, m, n)
    x = ic(g, n, m)
    g.note(A=A, x=x, tv=tv, dt=dt, ids=ids, names=names)
    k = np.asarray(tv, dtype=float)
    tvs = k * dt
    want = np.stack([np.stack([np.linalg.matrix_power(A, int(j)) @ x[:, i] for j in k]) for i in range(m)])
    wi = np.arange(m) if ids is None else ids
    wn = range(n) if names is None else names
    s = LinearDynamicalSystem("flowmap", "matrix").setup_matrix_system(A)
    verify(run(g, s, x, tvs, names, ids, time_delta=dt), want, wi, tvs, wn, "flowmap matrix", rtol=1e-5, atol=1e-6)
    w, V = np.linalg.eig(A)
    if np.linalg.cond(V) < 1e4 and np.min(abs(w)) > 1e-6:
        L = np.linalg.inv(V)
        for left in (L, None):
            s = LinearDynamicalSystem("flowmap", "spectral").setup_spectral_system(V, w, left)
            b = s.compute_spectral_system_states(x)
            close(V @ b, x, "spectral states represent the initial condition", rtol=1e-6, atol=1e-8)
            verify(run(g, s, b, tvs, names, ids, time_delta=dt), want, wi, tvs, wn, "flowmap spectral", rtol=1e-6, atol=1e-7)


@case(12)
def spectral_post_map(g):
    """overwrite_sys_matrix replaces the eigenvectors by the mapped ones"""
    n, p, m = g.int(2, 4), g.int(1, 3), g.int(1, 3)
    A = mat(g, n)
    w, V = np.linalg.eig(A)
    b = g.normal(n, m)
    P = g.normal(p, n)
    tv = times(g)
    dt = g.uniform(0.1, 1.0)
    typ = g.choice("flowmap", "differential")
    g.note(A=A, P=P, b=b, tv=tv, dt=dt, type=typ)
    s = LinearDynamicalSystem(typ, "spectral").setup_spectral_system(V, w)
    out = run(g, s, b, tv, list("abc")[:p], None, time_delta=dt, overwrite_sys_matrix=P @ V)
    f = (lambda t: w.astype(complex) ** (t / dt)) if typ == "flowmap" else (lambda t: np.exp(w * t))
    want = np.stack([np.stack([np.real(P @ V @ (f(t) * b[:, i])) for t in tv]) for i in range(m)])
    verify(out, want, np.arange(m), tv, list("abc")[:p], "post-mapped spectral system")


@case(16)
def differential_uncontrolled(g):
    """x(t) = expm(A t) x0 in matrix and spectral form"""
    n, m = g.int(1, 4), g.int(1, 4)
    A = mat(g, n)
    x = ic(g, n, m)
    tv = times(g)
    ids, names = labels(g, m, n)
    g.note(A=A, x=x, tv=tv)
    want = np.stack([np.stack([scipy.linalg.expm(A * t) @ x[:, i] for t in tv]) for i in range(m)])
    wi = np.arange(m) if ids is None else ids
    wn = range(n) if names is None else names
    s = LinearDynamicalSystem("differential", "matrix").setup_matrix_system(A)
    verify(run(g, s, x, tv, names, ids), want, wi, tv, wn, "differential matrix", rtol=1e-7, atol=1e-8)
    w, V = np.linalg.eig(A)
    if np.linalg.cond(V) < 1e4:
        s = LinearDynamicalSystem("differential", "spectral").setup_spectral_system(V, w, np.linalg.inv(V))
        verify(run(g, s, s.compute_spectral_system_states(x), tv, names, ids, time_delta=g.choice(None, 2.0)), want, wi, tv, wn, "differential spectral", rtol=1e-6, atol=1e-7)


@case(25)
def controlled(g):
    """recursion with the control input of the same step; zero-order hold in continuous time"""
    n, m, c, t = g.int(1, 4), g.int(1, 3), g.int(1, 3), g.int(2, 6)
    A, B = mat(g, n), g.normal(n, c)
    x, u = ic(g, n, m), g.normal(m, t - 1, c)
    dt = g.uniform(0.1, 1.0)
    tv = np.arange(t) * dt + g.choice(0.0, 1.5)
    ids, names = labels(g, m, n)
    wi = np.arange(m) if ids is None else ids
    wn = range(n) if names is None else names
    g.note(A=A, B=B, x=x, u=u, tv=tv)
    X = np.zeros((m, t, n))
    X[:, 0] = x.T
    for i in range(m):
        for k in range(t - 1):
            X[i, k + 1] = A @ X[i, k] + B @ u[i, k]
    s = LinearDynamicalSystem("flowmap", "matrix", is_controlled=True).setup_matrix_system(A, control_matrix=B)
    u0 = u.copy()
    verify(run(g, s, x, tv, names, ids, time_delta=dt, control_input=u), X, wi, tv, wn, "controlled flowmap")
    if m == 1:
        verify(run(g, s, x[:, 0], tv, names, ids, time_delta=dt, control_input=u[0]), X, wi, tv, wn, "controlled flowmap, one initial condition")
    w, V = np.linalg.eig(A)
    if np.linalg.cond(V) < 1e4:
        s = LinearDynamicalSystem("flowmap", "spectral", is_controlled=True).setup_spectral_system(V, w, np.linalg.inv(V), control_matrix=B)
        b = s.compute_spectral_system_states(x)
        verify(run(g, s, b, tv, names, ids, time_delta=dt, control_input=u), X, wi, tv, wn, "controlled spectral flowmap", rtol=1e-6, atol=1e-7)
    tv = np.cumsum(g.uniform(0.05, 1.0, t))
    Z = np.zeros((m, t, n))
    Z[:, 0] = x.T
    for i in range(m):
        for k in range(t - 1):
            d = tv[k + 1] - tv[k]
            E = scipy.linalg.expm(np.block([[A, B], [np.zeros((c, n + c))]]) * d)
            Z[i, k + 1] = E[:n, :n] @ Z[i, k] + E[:n, n:] @ u[i, k]
    s = LinearDynamicalSystem("differential", "matrix", is_controlled=True).setup_matrix_system(A, control_matrix=B)
    verify(run(g, s, x, tv, names, ids, control_input=u), Z, wi, tv, wn, "controlled differential system", rtol=1e-7, atol=1e-8)
    same(u, u0, "control input unchanged")


@case(4)
def affine(g):
    """dx/dt = A x + (sum_c u_c(t) B_c) x, compared with an accurate integration of the interpolated input"""
    from scipy.interpolate import interp1d

    n, m, c, t = g.int(1, 3), g.int(1, 2), g.int(1, 2), g.int(5, 7)
    A, B = mat(g, n), 0.5 * g.normal(n, n, c)
    x, u = ic(g, n, m), g.normal(m, t, c)
    tv = np.linspace(0, 0.5, t)
    g.note(A=A, B=B, x=x, u=u, tv=tv)
    s = LinearDynamicalSystem("differential", "matrix", is_controlled=True, is_control_affine=True).setup_matrix_system(A, control_matrix=B)
    s._requires_last_control_state = True
    out = run(g, s, x, tv, None, None, control_input=u)
    want = []
    for i in range(m):
        f = interp1d(tv, u[i], axis=0, kind="cubic")
        want.append(solve_ivp(lambda q, y: A @ y + np.einsum("abc,c,b->a", B, f(q), y), (tv[0], tv[-1]), x[:, i], t_eval=tv, rtol=1e-9, atol=1e-11).y.T)
    verify(out, np.stack(want), np.arange(m), tv, range(n), "control affine system", rtol=2e-2, atol=2e-2 * (1 + np.max(np.abs(want))))


@case(14)
def refusals(g):
    """inconsistent shapes and parameters are rejected"""
    n, m, c, t = g.int(2, 4), g.int(1, 3), g.int(1, 3), g.int(3, 6)
    A, B = mat(g, n), g.normal(n, c)
    x, u = ic(g, n, m), g.normal(m, t - 1, c)
    tv = np.arange(t) * 1.0
    g.note(n=n, m=m, c=c, t=t)
    E = (ValueError, TypeError)
    s = LinearDynamicalSystem("flowmap", "matrix", is_controlled=True).setup_matrix_system(A, control_matrix=B)
    ev = lambda x=x, u=u, dt=1.0, **k: s.evolve_system(x, time_values=tv, control_input=u, time_delta=dt, **k)
    ev()
    raises(E, lambda: ev(x=x[:-1]), "initial condition with a missing state")
    raises(E, lambda: ev(x=np.vstack([x, x[:1]])), "initial condition with an extra state")
    raises(E, lambda: ev(u=u[:, :-1]), "control input one step short")
    raises(E, lambda: ev(u=np.concatenate([u, u[:, :1]], axis=1)), "control input one step too long")
    raises(E, lambda: ev(u=np.concatenate([u, u[:1]], axis=0)), "control input of an additional series")
    raises(E, lambda: ev(u=np.concatenate([u, u[:, :, :1]], axis=2)), "control input with an additional column")
    raises(E, lambda: ev(dt=g.choice(0.0, -1.0)), "non-positive time step")
    raises(E, lambda: ev(dt=None), "missing time step")
    raises(E, lambda: ev(feature_names_out=list("abcdefgh")[: n + 1]), "too many feature names")
    raises(E + (AttributeError,), lambda: ev(time_series_ids=np.zeros(m + 1, int)), "wrong number of identifiers")
    raises(E, lambda: LinearDynamicalSystem("flowmap", "matrix", is_controlled=True).setup_matrix_system(A, control_matrix=g.normal(n + 1, c)), "control matrix rows")
    raises(E, lambda: LinearDynamicalSystem("flowmap", "matrix").setup_matrix_system(A, control_matrix=B), "unexpected control matrix")
    raises(E, lambda: LinearDynamicalSystem("flowmap", "spectral").setup_spectral_system(A, np.ones(n + 1)), "eigenvalue count")
    raises(E, lambda: LinearDynamicalSystem("flow", "matrix"), "system type")
    raises(E, lambda: LinearDynamicalSystem("flowmap", "eig"), "system mode")
    raises(RuntimeError, lambda: s.setup_matrix_system(A, control_matrix=B), "second setup")


CASES = [flowmap_uncontrolled, spectral_post_map, differential_uncontrolled, controlled, affine, refusals]
SCALE = 6

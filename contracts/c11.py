"""C11 linear dynamical system evolution"""
import numpy as np
import scipy.linalg


def strategies():
    from datafold.dynfold.dynsystem import SystemSolveStrategy as S
    return S


def flowmap_spectral(v):
    """state_k = Psi diag(lam^(t_k/dt)) b for every initial condition, time and feature"""
    S = strategies()
    n, r, m, t = v.int("n", 1), v.int("r", 1), v.int("m", 1), v.int("t", 1)
    Psi = v.array("Psi", (n, r))
    lam = v.array("lam", (r,))
    b = v.array("b", (r, m))
    tv = v.array("tv", (t,))
    dt = v.real("dt")
    v.assume(dt > 0)
    ten = v.array("ten", (m, t, n))
    out = S.flowmap_spectral(ten, initial_conditions=b, sys_matrix=Psi, eigenvalues=lam, time_values=tv, time_delta=dt)
    want = v.arr_fn((m, t, n), lambda i, k, j: v.sum(r, lambda q: Psi[j, q] * v.pow(lam[q], tv[k] / dt) * b[q, i]))
    v.prove_eq("state_k = Psi diag(lam^(t_k/dt)) b", out, want)
    v.frame("inputs unchanged", Psi, lam, b, tv)


def differential_spectral(v):
    """state_k = Psi diag(exp(lam t_k)) b"""
    S = strategies()
    n, r, m, t = v.int("n", 1), v.int("r", 1), v.int("m", 1), v.int("t", 1)
    Psi, lam, b, tv = v.array("Psi", (n, r)), v.array("lam", (r,)), v.array("b", (r, m)), v.array("tv", (t,))
    ten = v.array("ten", (m, t, n))
    out = S.differential_spectral(ten, initial_conditions=b, sys_matrix=Psi, eigenvalues=lam, time_values=tv, time_delta=None)
    want = v.arr_fn((m, t, n), lambda i, k, j: v.sum(r, lambda q: Psi[j, q] * v.exp(lam[q] * tv[k]) * b[q, i]))
    v.prove_eq("state_k = Psi diag(exp(lam t_k)) b", out, want)
    v.frame("inputs unchanged", Psi, lam, b, tv)


def differential_matrix(v):
    """state_k = expm(A t_k) x0"""
    S = strategies()
    n, m, t = v.int("n", 1), v.int("m", 1), v.int("t", 1)
    A, x0, tv = v.array("A", (n, n)), v.array("x0", (n, m)), v.array("tv", (t,))
    ten = v.array("ten", (m, t, n))
    out = S.differential_matrix(ten, initial_conditions=x0, sys_matrix=A, time_values=tv, time_delta=None)

    def want(i, k, j):
        E = v.lib(scipy.linalg.expm, A * tv[k])
        return v.sum(n, lambda q: E[j, q] * x0[q, i])

    v.prove_eq("state_k = expm(A t_k) x0", out, v.arr_fn((m, t, n), want))
    v.frame("inputs unchanged", A, x0, tv)


def flowmap_matrix(v):
    """state_k = A^(t_k/dt) x0 (fractional matrix power)"""
    S = strategies()
    n, m, t = v.int("n", 1), v.int("m", 1), v.int("t", 1)
    A, x0, tv = v.array("A", (n, n)), v.array("x0", (n, m)), v.array("tv", (t,))
    dt = v.real("dt")
    v.assume(dt > 0)
    ten = v.array("ten", (m, t, n))
    out = S.flowmap_matrix(ten, initial_conditions=x0, sys_matrix=A, time_values=tv, time_delta=dt)

    def want(i, k, j):
        E = v.lib(scipy.linalg.fractional_matrix_power, A, tv[k] / dt)
        return v.sum(n, lambda q: E[j, q] * x0[q, i])

    v.prove_eq("state_k = A^(t_k/dt) x0", out, v.arr_fn((m, t, n), want))
    v.frame("inputs unchanged", A, x0, tv)


def _controlled(v):
    n, m, t, c = v.int("n", 1), v.int("m", 1), v.int("t", 2), v.int("c", 1)
    A = v.array("A", (n, n))
    B = v.array("B", (n, c))
    u = v.array("u", (m, t - 1, c))
    x0 = v.array("x0", (n, m))
    tv = v.array("tv", (t,))
    ten = v.array("ten", (m, t, n))
    return n, m, t, c, A, B, u, x0, tv, ten


def flowmap_matrix_controlled(v):
    """x_0 = initial condition, x_{k+1} = A x_k + B u_k"""
    S = strategies()
    n, m, t, c, A, B, u, x0, tv, ten = _controlled(v)
    dt = v.real("dt")
    v.assume(dt > 0)
    ten0 = ten.snapshot()
    X = v.rec("X", lambda i, j: x0[j, i], lambda s, i, j: v.sum(n, lambda q: A[j, q] * X(s, i, q)) + v.sum(c, lambda q: B[j, q] * u[i, s, q]))
    v.inv(lambda k, i, s, j: v.ite(s <= k, X(s, i, j), ten0[i, s, j]))
    out = S.flowmap_matrix_controlled(ten, initial_conditions=x0, sys_matrix=A, control_matrix=B, control_input=u, time_values=tv, time_delta=dt)
    i, k, j = v.int("i", 0, m - 1), v.int("k", 0, t - 2), v.int("j", 0, n - 1)
    v.prove("x_0 is the initial condition", out[i, 0, j] == x0[j, i])
    v.prove("x_{k+1} = A x_k + B u_k", out[i, k + 1, j] == v.sum(n, lambda q: A[j, q] * out[i, k, q]) + v.sum(c, lambda q: B[j, q] * u[i, k, q]))
    v.frame("inputs unchanged", A, B, u, x0, tv)


def flowmap_spectral_controlled(v):
    """x_0 = Psi b, x_{k+1} = Psi diag(lam) L x_k + B u_k"""
    S = strategies()
    n, m, t, c, A, B, u, x0, tv, ten = _controlled(v)
    r = v.int("r", 1)
    Psi, lam, L, b = v.array("Psi", (n, r)), v.array("lam", (r,)), v.array("L", (r, n)), v.array("b", (r, m))
    ten0 = ten.snapshot()
    M = lambda j, q: v.sum(r, lambda p: Psi[j, p] * lam[p] * L[p, q])
    X = v.rec("X", lambda i, j: v.sum(r, lambda p: Psi[j, p] * b[p, i]),
              lambda s, i, j: v.sum(n, lambda q: M(j, q) * X(s, i, q)) + v.sum(c, lambda q: B[j, q] * u[i, s, q]))
    v.inv(lambda k, i, s, j: v.ite(s <= k, X(s, i, j), ten0[i, s, j]))
    out = S.flowmap_spectral_controlled(ten, initial_conditions=b, sys_matrix=Psi, eigenvectors_left=L, eigenvalues=lam, control_matrix=B, control_input=u, time_values=tv, time_delta=None)
    i, k, j = v.int("i", 0, m - 1), v.int("k", 0, t - 2), v.int("j", 0, n - 1)
    v.prove("x_0 = Psi b", out[i, 0, j] == v.sum(r, lambda p: Psi[j, p] * b[p, i]))
    v.prove("x_{k+1} = A x_k + B u_k", out[i, k + 1, j] == v.sum(n, lambda q: M(j, q) * out[i, k, q]) + v.sum(c, lambda q: B[j, q] * u[i, k, q]))
    v.frame("inputs unchanged", Psi, lam, L, B, u, b, tv)


def differential_matrix_controlled(v):
    """zero-order hold: [Ad Bd] = first rows of expm([[A, B], [0, 0]] (t_{k+1} - t_k))"""
    S = strategies()
    n, m, t, c, A, B, u, x0, tv, ten = _controlled(v)
    ten0 = ten.snapshot()

    def Ex(s):
        d = tv[s + 1] - tv[s]
        M = v.arr_fn((n + c, n + c), lambda a, b: v.ite(a < n, v.ite(b < n, A[a, b] * d, B[a, b - n] * d), 0.0))
        return v.lib(scipy.linalg.expm, M)

    def step(x, s, i, j):
        E = Ex(s)
        return v.sum(n, lambda q: E[j, q] * x(q)) + v.sum(c, lambda q: E[j, n + q] * u[i, s, q])

    X = v.rec("X", lambda i, j: x0[j, i], lambda s, i, j: step(lambda q: X(s, i, q), s, i, j))
    v.inv(lambda k, i, s, j: v.ite(s <= k, X(s, i, j), ten0[i, s, j]))
    out = S.differential_matrix_controlled(ten, initial_conditions=x0, sys_matrix=A, control_matrix=B, control_input=u, time_values=tv, time_delta=None)
    i, k, j = v.int("i", 0, m - 1), v.int("k", 0, t - 2), v.int("j", 0, n - 1)
    v.prove("x_0 is the initial condition", out[i, 0, j] == x0[j, i])
    v.prove("x_{k+1} = Ad x_k + Bd u_k", out[i, k + 1, j] == step(lambda q: out[i, k, q], k, i, j))
    v.frame("inputs unchanged", A, B, u, x0, tv)


TABLE = {
    ("differential", "spectral", False, False): "differential_spectral",
    ("differential", "matrix", False, False): "differential_matrix",
    ("differential", "matrix", True, False): "differential_matrix_controlled",
    ("differential", "matrix", True, True): "differential_matrix_controlled_affine",
    ("flowmap", "spectral", False, False): "flowmap_spectral",
    ("flowmap", "matrix", False, False): "flowmap_matrix",
    ("flowmap", "matrix", True, False): "flowmap_matrix_controlled",
    ("flowmap", "spectral", True, False): "flowmap_spectral_controlled",
}


def select_strategy(v):
    """the solver table is total: each system kind gets its solver, all others are refused"""
    S = strategies()
    for ty in ("differential", "flowmap"):
        for mode in ("matrix", "spectral"):
            for ctl in (False, True):
                for aff in (False, True):
                    for inv in (False, True):
                        kw = dict(system_type=ty, system_mode=mode, is_controlled=ctl, is_control_affine=aff, is_time_invariant=inv)
                        want = TABLE.get((ty, mode, ctl, aff if ctl else False)) if inv else None
                        try:
                            got = S.select_strategy(**kw)
                        except (ValueError, NotImplementedError):
                            got = None
                        v.fact(f"{ty} {mode} controlled={ctl} affine={aff} invariant={inv}",
                               got is (getattr(S, want) if want else None), f"{getattr(got, '__name__', got)} instead of {want}")


def _system(ty, mode, ctl=False, aff=False):
    from datafold.dynfold.dynsystem import LinearDynamicalSystem
    return LinearDynamicalSystem(ty, mode, is_controlled=ctl, is_control_affine=aff)


def check_time_delta(v):
    """flow maps accept exactly positive scalar time steps; differential systems ignore it"""
    s = _system("flowmap", "matrix")
    dt = v.real("dt")
    r = v.raises("time_delta", ValueError, dt <= 0, lambda: s._check_time_delta(dt))
    v.prove_eq("time delta is passed on", r, dt)
    for bad in (None, np.array([1.0, 2.0]), "x"):
        try:
            s._check_time_delta(bad)
            v.fact(f"rejects {bad!r}", False)
        except TypeError:
            v.fact(f"rejects {bad!r}", True)
    v.fact("differential ignores", _system("differential", "matrix")._check_time_delta(3.0) is None)


def check_initial_condition(v):
    """accepted iff the number of rows is the state length; the content is passed on"""
    s = _system("flowmap", "matrix")
    n, m, L = v.int("n", 1), v.int("m", 1), v.int("L", 1)
    x0 = v.array("x0", (n, m))
    r = v.raises("initial condition", ValueError, n != L, lambda: s._check_initial_condition(x0, L))
    v.prove_eq("initial condition passed on", r, x0)


def check_initial_condition_vector(v):
    """one-dimensional initial conditions become one column"""
    s = _system("flowmap", "matrix")
    n, L = v.int("n", 1), v.int("L", 1)
    x0 = v.array("x0", (n,))
    r = v.raises("initial condition", ValueError, n != L, lambda: s._check_initial_condition(x0, L))
    v.prove_eq("as a column", r, v.arr_fn((n, 1), lambda i, j: x0[i]))


def check_control_input(v):
    """accepted iff one control series per initial condition, one row per time step and one column per control"""
    s = _system("flowmap", "matrix", ctl=True)
    n, c = v.int("n", 1), v.int("c", 1)
    s.control_matrix_ = v.array("B", (n, c))
    a, b, d, T, m = v.int("a", 1), v.int("b", 1), v.int("d", 1), v.int("T", 1), v.int("m", 1)
    u = v.array("u", (a, b, d))
    ok = v.and_(a == m, b + 1 == T, d == c)
    r = v.raises("control input", ValueError, v.not_(ok), lambda: s._check_control_input(u, T, m))
    v.prove_eq("control input passed on", r, u)


def check_control_input_single(v):
    """a matrix is the control input of the single initial condition"""
    s = _system("flowmap", "matrix", ctl=True)
    n, c = v.int("n", 1), v.int("c", 1)
    s.control_matrix_ = v.array("B", (n, c))
    b, d, T = v.int("b", 1), v.int("d", 1), v.int("T", 1)
    u = v.array("u", (b, d))
    ok = v.and_(b + 1 == T, d == c)
    r = v.raises("control input", ValueError, v.not_(ok), lambda: s._check_control_input(u, T, 1))
    v.prove_eq("control input passed on", r, v.arr_fn((1, b, d), lambda i, j, k: u[j, k]))


def spectral_states(v):
    """spectral state b: L x with left eigenvectors, otherwise the least squares solution of Psi b = x"""
    s = _system("flowmap", "spectral")
    n, r, m = v.int("n", 1), v.int("r", 1), v.int("m", 1)
    Psi, lam, L, x = v.array("Psi", (n, r)), v.array("lam", (r,)), v.array("L", (r, n)), v.array("x", (n, m))
    s.setup_spectral_system(eigenvectors_right=Psi, eigenvalues=lam, eigenvectors_left=L)
    v.prove_eq("b = L x", s.compute_spectral_system_states(x), v.arr_fn((r, m), lambda i, k: v.sum(n, lambda q: L[i, q] * x[q, k])))
    s2 = _system("flowmap", "spectral")
    s2.setup_spectral_system(eigenvectors_right=Psi, eigenvalues=lam)
    v.prove_eq("b = argmin |Psi b - x|", s2.compute_spectral_system_states(x), v.lib(np.linalg.lstsq, Psi, x, rcond=None)[0])
    v.frame("inputs unchanged", Psi, lam, L, x)


def setup_spectral(v):
    """stores the components; refuses when the number of eigenvalues differs from the eigenvectors"""
    s = _system("flowmap", "spectral")
    n, r, q = v.int("n", 1), v.int("r", 1), v.int("q", 1)
    Psi, lam = v.array("Psi", (n, r)), v.array("lam", (q,))
    v.raises("shapes", ValueError, r != q, lambda: s.setup_spectral_system(eigenvectors_right=Psi, eigenvalues=lam))
    v.prove_eq("eigenvectors stored", s.eigenvectors_right_, Psi)
    v.prove_eq("eigenvalues stored", s.eigenvalues_, lam)


def setup_matrix(v):
    """stores system and control matrix; refuses a control matrix with other rows"""
    s = _system("flowmap", "matrix", ctl=True)
    n, k, c = v.int("n", 1), v.int("k", 1), v.int("c", 1)
    A, B = v.array("A", (n, n)), v.array("B", (k, c))
    v.raises("shapes", ValueError, n != k, lambda: s.setup_matrix_system(A, control_matrix=B))
    v.prove_eq("system stored", s.sys_matrix_, A)
    v.prove_eq("control stored", s.control_matrix_, B)


def setup_affine(v):
    """control tensor must match the system matrix in its first two dimensions"""
    s = _system("differential", "matrix", ctl=True, aff=True)
    n, k, l, c = v.int("n", 1), v.int("k", 1), v.int("l", 1), v.int("c", 1)
    A, B = v.array("A", (n, n)), v.array("B", (k, l, c))
    v.raises("shapes", ValueError, v.or_(n != k, n != l), lambda: s.setup_matrix_system(A, control_matrix=B))
    v.prove_eq("control stored", s.control_matrix_, B)


CONTRACTS = [flowmap_spectral, differential_spectral, differential_matrix, flowmap_matrix, flowmap_matrix_controlled,
             flowmap_spectral_controlled, differential_matrix_controlled, select_strategy, check_time_delta, check_initial_condition,
             check_initial_condition_vector, check_control_input, check_control_input_single, spectral_states, setup_spectral,
             setup_matrix, setup_affine]


def evolve_system(v):
    """assembles solver input from the stored components and labels the solver's tensor with ids, times and names"""
    from datafold.dynfold.dynsystem import LinearDynamicalSystem
    from datafold.pcfold import TSCDataFrame
    s = _system("flowmap", "matrix", ctl=True)
    n, c, m, t = v.int("n", 1), v.int("c", 1), v.int("m", 1), v.int("t", 2)
    A, B = v.array("A", (n, n)), v.array("B", (n, c))
    s.setup_matrix_system(A, control_matrix=B)
    x0, u, tv = v.array("x0", (n, m)), v.array("u", (m, t - 1, c)), v.array("tv", (t,))
    dt = v.real("dt")
    v.assume(dt > 0)
    ids, names = v.array("ids", (m,), dt="int"), v.array("names", (n,), dt="int")
    seen = {}
    result = v.array("solved", (m, t, n))

    def solver(**kw):
        seen.update(kw)
        return result

    s._evolve_system_states = solver
    got = {}

    def from_tensor(tensor, time_series_ids=None, feature_names=None, time_values=None):
        got.update(tensor=tensor, ids=time_series_ids, names=feature_names, tv=time_values)
        return "TSC"

    v.stub(TSCDataFrame, "from_tensor", from_tensor)
    out = s.evolve_system(x0, time_values=tv, control_input=u, time_delta=dt, time_series_ids=ids, feature_names_out=names)
    v.fact("returns the labelled collection", out == "TSC")
    for k, w in (("initial_conditions", x0), ("sys_matrix", A), ("control_matrix", B), ("control_input", u), ("time_values", tv), ("time_delta", dt)):
        v.prove_eq(f"solver {k}", seen.get(k), w)
    ten = seen.get("time_series_tensor")
    v.prove_eq("tensor: one series per initial condition", ten.shape[0], m)
    v.prove_eq("tensor: one row per time value", ten.shape[1], t)
    v.prove_eq("tensor: one column per feature", ten.shape[2], n)
    for k, w in (("tensor", result), ("ids", ids), ("names", names), ("tv", tv)):
        v.prove_eq(f"label {k}", got.get(k), w)
    v.frame("inputs unchanged", A, B, x0, u, tv, ids, names)


def evolve_system_defaults(v):
    """without ids and names: 0..m-1 and 0..n-1; spectral components go to the solver"""
    from datafold.pcfold import TSCDataFrame
    s = _system("differential", "spectral")
    n, r, m, t = v.int("n", 1), v.int("r", 1), v.int("m", 1), v.int("t", 1)
    Psi, lam, L = v.array("Psi", (n, r)), v.array("lam", (r,)), v.array("L", (r, n))
    s.setup_spectral_system(eigenvectors_right=Psi, eigenvalues=lam, eigenvectors_left=L)
    b, tv, names = v.array("b", (r, m)), v.array("tv", (t,)), v.array("names", (n,), dt="int")
    seen, got = {}, {}
    result = v.array("solved", (m, t, n))
    s._evolve_system_states = lambda **kw: (seen.update(kw), result)[1]

    def from_tensor(tensor, time_series_ids=None, feature_names=None, time_values=None):
        got.update(tensor=tensor, ids=time_series_ids, names=feature_names, tv=time_values)
        return "TSC"

    v.stub(TSCDataFrame, "from_tensor", from_tensor)
    s.evolve_system(b, time_values=tv, time_delta=3.0, feature_names_out=names)
    for k, w in (("initial_conditions", b), ("sys_matrix", Psi), ("eigenvalues", lam), ("eigenvectors_left", L), ("time_values", tv)):
        v.prove_eq(f"solver {k}", seen.get(k), w)
    v.fact("no time delta for a differential system", seen.get("time_delta") is None)
    v.prove_eq("ids 0..m-1", got["ids"], v.arr_fn((m,), lambda i: i, dt="int"))
    v.prove_eq("tensor", got["tensor"], result)
    v.prove_eq("times", got["tv"], tv)


CONTRACTS += [evolve_system, evolve_system_defaults]

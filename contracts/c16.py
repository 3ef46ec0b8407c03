"""C16 model predictive control"""
import types

import numpy as np
import scipy.linalg


def _pow(v, A, n):
    """A^(k+1) as a recursion over k"""
    return v.rec("Apow", lambda i, j: A[i, j], lambda s, i, j: v.sum(n, lambda q: A[i, q] * Ap(s, q, j)))


def _kmpc(v, all_features, **kw):
    from datafold.appfold.mpc import KMPC
    n, c, h = v.int("n", 1), v.int("c", 1), v.int("h", 2)
    A, B = v.array("A", (n, n)), v.array("B", (n, c))
    s = object.__new__(KMPC)
    s.edmd = types.SimpleNamespace(dmd_model=types.SimpleNamespace(sys_matrix_=A, control_matrix_=B), feature_names_out_="features")
    s.horizon, s.n_features, s.n_control_input = h, n, c
    s.is_all_features = all_features
    s.n_qois = n if all_features else v.int("q", 1)
    s.qois = "qois"
    return s, n, s.n_qois, c, h, A, B


def evolution_matrices(v):
    """block k of Ab is A^(k+1); block (k, l) of Bb is A^(k-l) B for l <= k and zero above the diagonal"""
    s, n, q, c, h, A, B = _kmpc(v, True)
    Ap = v.rec("Ap", lambda i, j: A[i, j], lambda k, i, j: v.sum(n, lambda p: A[i, p] * Ap(k, p, j)))
    Bp = v.rec("Bp", lambda i, j: B[i, j], lambda k, i, j: v.sum(n, lambda p: A[i, p] * Bp(k, p, j)))
    v.inv(lambda k, i, j: Ap(k, i, j))
    v.inv(lambda k, i, j: Bp(k, i, j))
    v.inv(lambda k, i, j: v.ite(v.and_(i // q - j // c >= 0, i // q - j // c < k), Bp(i // q - j // c, i % q, j % c), 0.0))
    Ab, Bb = s._create_evolution_matrices()
    k, l, i, j, jj = v.int("k", 0, h - 1), v.int("l", 0, h - 1), v.int("i", 0, q - 1), v.int("j", 0, n - 1), v.int("jj", 0, c - 1)
    v.prove("Ab", Ab[k * q + i, j] == Ap(k, i, j))
    v.prove("Bb", Bb[k * q + i, l * c + jj] == v.ite(k >= l, Bp(k - l, i, jj), 0.0))
    v.frame("inputs unchanged", A, B)


CONTRACTS = [evolution_matrices]


def evolution_matrices_qois(v):
    """with quantities of interest: block k of Ab is C A^(k+1), block (k, l) of Bb is C A^(k-l) B, C the selection matrix"""
    import datafold.appfold.mpc as mpc
    s, n, q, c, h, A, B = _kmpc(v, False)
    P = v.array("P", (n, q))
    asked = {}
    v.stub(mpc, "projection_matrix_from_feature_names", lambda features_all, features_select: (asked.update(a=features_all, s=features_select), P)[1])
    Ap = v.rec("Ap", lambda i, j: A[i, j], lambda k, i, j: v.sum(n, lambda p: A[i, p] * Ap(k, p, j)))
    Bp = v.rec("Bp", lambda i, j: B[i, j], lambda k, i, j: v.sum(n, lambda p: A[i, p] * Bp(k, p, j)))
    v.inv(lambda k, i, j: Ap(k, i, j))
    v.inv(lambda k, i, j: Bp(k, i, j))
    v.inv(lambda k, i, j: v.ite(v.and_(i // q - j // c >= 0, i // q - j // c < k), v.sum(n, lambda p: P[p, i % q] * Bp(i // q - j // c, p, j % c)), 0.0))
    Ab, Bb = s._create_evolution_matrices()
    k, l, i, j, jj = v.int("k", 0, h - 1), v.int("l", 0, h - 1), v.int("i", 0, q - 1), v.int("j", 0, n - 1), v.int("jj", 0, c - 1)
    v.prove("Ab", Ab[k * q + i, j] == v.sum(n, lambda p: P[p, i] * Ap(k, p, j)))
    v.prove("Bb", Bb[k * q + i, l * c + jj] == v.ite(k >= l, v.sum(n, lambda p: P[p, i] * Bp(k - l, p, jj)), 0.0))
    v.fact("selects the quantities of interest from the dictionary", asked == {"a": "features", "s": "qois"})
    v.frame("inputs unchanged", A, B, P)


def _costs(v, terminal):
    from datafold.appfold.mpc import KMPC
    q, c, h = v.int("q", 1), v.int("c", 1), v.int("h", 2)
    s = object.__new__(KMPC)
    s.horizon, s.n_qois, s.n_control_input = h, q, c
    s.cost_running, s.cost_input = v.array("run", (q,), nonneg=True), v.array("inp", (c,), nonneg=True)
    s.cost_terminal = v.array("term", (q,), pos=True) if terminal == "array" else terminal
    Q, lq, R, lr = s._create_cost_matrices()
    for nm, M, d in (("Q", Q, q), ("R", R, c)):
        v.prove(f"{nm} shape", v.and_(M.shape[0] == h * d, M.shape[1] == h * d))
    k, i, a, b = v.int("k", 0, h - 1), v.int("i", 0, q - 1), v.int("a", 0, h * q - 1), v.int("b", 0, h * q - 1)
    last = {"array": lambda i: s.cost_terminal[i], None: lambda i: s.cost_running[i], 3.0: lambda i: 3.0}[terminal]
    v.prove("Q diagonal: running cost, terminal cost in the last block", Q[k * q + i, k * q + i] == v.ite(k < h - 1, s.cost_running[i], last(i)))
    v.prove("Q off-diagonal", v.implies(v.not_(a == b), Q[a, b] == 0))
    j, x, y = v.int("j", 0, c - 1), v.int("x", 0, h * c - 1), v.int("y", 0, h * c - 1)
    v.prove("R diagonal", R[k * c + j, k * c + j] == s.cost_input[j])
    v.prove("R off-diagonal", v.implies(v.not_(x == y), R[x, y] == 0))
    v.prove("no linear state cost", lq[a, 0] == 0)
    v.prove("no linear input cost", lr[x, 0] == 0)
    v.frame("inputs unchanged", s.cost_running, s.cost_input)


def cost_matrices(v):
    """running cost on all steps but the last, terminal cost on the last, input cost on every step"""
    _costs(v, "array")


def cost_matrices_no_terminal(v):
    """no terminal cost given: the running cost counts on the last step"""
    _costs(v, None)


def cost_matrices_scalar_terminal(v):
    """a number is the cost of every dimension"""
    _costs(v, 3.0)


def cost_to_array(v):
    """an array is accepted exactly when it has one non-negative entry per element, and passed on"""
    import datafold.appfold.mpc as mpc
    n, m = v.int("n", 1), v.int("m", 1)
    c = v.array("c", (m,))
    bad = v.or_(v.not_(m == n), v.not_(v.forall(m, lambda i: c[i] >= 0)))
    r = v.raises("cost", ValueError, bad, lambda: mpc._cost_to_array(c, n))
    v.prove_eq("passed on", r, c)


def cost_to_array_refuses(v):
    """matrices, negative numbers and other types are refused"""
    import datafold.appfold.mpc as mpc
    for bad, exc in ((np.ones((2, 1)), ValueError), (-1, ValueError), (-0.5, ValueError), ("1", TypeError), (None, TypeError), ([1.0, 1.0], TypeError)):
        try:
            mpc._cost_to_array(bad, 2)
            v.fact(f"refuses {bad!r}", False)
        except exc:
            v.fact(f"refuses {bad!r}", True)
    n = v.int("n", 1)
    for x in (0, 2, 0.5):
        v.prove_eq(f"number {x}", mpc._cost_to_array(x, n), v.arr_fn((n,), lambda i: float(x)))


def constraints(v):
    """G U <= h + (Ab x) says Xmin <= Ab x + Bb U <= Xmax, lb <= U <= ub says the input bounds, block by block"""
    from datafold.appfold.mpc import KMPC
    q, c, h = v.int("q", 1), v.int("c", 1), v.int("h", 2)
    s = object.__new__(KMPC)
    s.horizon, s.n_qois, s.n_control_input = h, q, c
    s.state_bounds, s.input_bounds = v.array("xb", (q, 2)), v.array("ub", (c, 2))
    Bb = v.array("Bb", (h * q, h * c))
    G, hh, lb, ub = s._create_constraint_matrices(Bb)
    k, i, j, a, b = v.int("k", 0, h - 1), v.int("i", 0, q - 1), v.int("j", 0, c - 1), v.int("a", 0, h * q - 1), v.int("b", 0, h * c - 1)
    v.prove("upper rows of G", G[a, b] == Bb[a, b])
    v.prove("lower rows of G", G[h * q + a, b] == -Bb[a, b])
    v.prove("G rows", v.and_(G.shape[0] == 2 * h * q, G.shape[1] == h * c))
    v.prove("upper limits", hh[k * q + i] == s.state_bounds[i, 1])
    v.prove("lower limits", hh[h * q + k * q + i] == -s.state_bounds[i, 0])
    v.prove("lb", lb[k * c + j] == s.input_bounds[j, 0])
    v.prove("ub", ub[k * c + j] == s.input_bounds[j, 1])
    v.prove("one bound per input and step", v.and_(lb.shape[0] == h * c, ub.shape[0] == h * c, hh.shape[0] == 2 * h * q))
    v.frame("inputs unchanged", Bb, s.state_bounds, s.input_bounds)


def constraints_none(v):
    """no bounds: no constraints"""
    from datafold.appfold.mpc import KMPC
    s = object.__new__(KMPC)
    s.horizon, s.n_qois, s.n_control_input, s.state_bounds, s.input_bounds = v.int("h", 2), v.int("q", 1), v.int("c", 1), None, None
    r = s._create_constraint_matrices(v.array("Bb", (v.int("a", 1), v.int("b", 1))))
    v.fact("none", all(x is None for x in r))


def _optimizer(v, bounded):
    from datafold.appfold.mpc import KMPC
    s = object.__new__(KMPC)
    N, M, n = v.int("N", 1), v.int("M", 1), v.int("n", 1)
    Ab, Bb, dq, dr = v.array("Ab", (N, n)), v.array("Bb", (N, M)), v.array("dq", (N,), nonneg=True), v.array("dr", (M,), nonneg=True)
    Q = v.arr_fn((N, N), lambda i, j: v.ite(i == j, dq[i], 0.0))
    R = v.arr_fn((M, M), lambda i, j: v.ite(i == j, dr[i], 0.0))
    z = lambda k: v.arr_fn((k, 1), lambda i, j: 0.0)
    s._create_evolution_matrices = lambda: (Ab, Bb)
    s._create_cost_matrices = lambda: (Q, z(N), R, z(M))
    got = {}

    def cons(B):
        got["Bb"] = B
        return ("G", "h", "lb", "ub") if bounded else (None, None, "lb", "ub")

    s._create_constraint_matrices = cons
    return s, N, M, n, Ab, Bb, dq, dr, s._setup_optimizer(), got


def optimizer(v):
    """the quadratic programme 1/2 U'H U + (M x - Y r)'U is the documented cost up to the constant U = 0 term"""
    s, N, M, n, Ab, Bb, dq, dr, out, got = _optimizer(v, True)
    H, a, Mx, Y, G, h, ab, lb, ub = out
    v.prove_eq("H = 2 (Bb'Q Bb + R)", H, v.arr_fn((M, M), lambda i, j: 2 * v.sum(N, lambda p: Bb[p, i] * dq[p] * Bb[p, j]) + v.ite(i == j, 2 * dr[i], 0.0)))
    v.prove_eq("M = 2 Bb'Q Ab", Mx, v.arr_fn((M, n), lambda i, j: 2 * v.sum(N, lambda p: Bb[p, i] * dq[p] * Ab[p, j])))
    v.prove_eq("Y = 2 Bb'Q", Y, v.arr_fn((M, N), lambda i, j: 2 * Bb[j, i] * dq[j]))
    v.fact("constraints of Bb", got["Bb"] is Bb and (G, h, lb, ub) == ("G", "h", "lb", "ub"))
    v.prove_eq("Ab kept for the state bounds", ab, Ab)
    v.frame("inputs unchanged", Ab, Bb, dq, dr)


def cost_identity(v):
    """for every state, reference and input: QP objective = tracking cost - its value at U = 0"""
    s, N, M, n, Ab, Bb, dq, dr, out, got = _optimizer(v, False)
    H, _, Mx, Y = out[:4]
    x, U, r = v.array("x", (n, 1)), v.array("U", (M, 1)), v.array("r", (N, 1))
    qp = (U.T @ H @ U)[0, 0] / 2 + ((Mx @ x - Y @ r).T @ U)[0, 0]
    free = lambda p: v.sum(n, lambda j: Ab[p, j] * x[j, 0]) - r[p, 0]
    forced = lambda p: v.sum(M, lambda j: Bb[p, j] * U[j, 0])
    cost = v.sum(N, lambda p: dq[p] * (free(p) + forced(p)) * (free(p) + forced(p))) + v.sum(M, lambda j: dr[j] * U[j, 0] * U[j, 0])
    v.prove("same cost up to a constant", qp == cost - v.sum(N, lambda p: dq[p] * free(p) * free(p)))


class _Frame:
    """stand-in for a collection with one series: values, times"""

    def __init__(self, values, times):
        self.values_, self.times_ = values, times
        self.shape = values.shape

    def to_numpy(self):
        return self.values_

    def time_values(self):
        return self.times_


def _horizon(v, bounded, solved=True):
    import datafold.appfold.mpc as mpc
    import qpsolvers
    from datafold.pcfold import TSCDataFrame
    n, q, c, h = v.int("n", 1), v.int("q", 1), v.int("c", 1), v.int("h", 2)
    s = object.__new__(mpc.KMPC)
    s.horizon, s.n_qois, s.n_control_input, s.solver = h, q, c, "quadprog"
    s.H, s.M, s.Y = v.array("H", (h * c, h * c)), v.array("M", (h * c, n)), v.array("Y", (h * c, h * q))
    s.lb, s.ub = v.array("lb", (h * c,)), v.array("ub", (h * c,))
    s.G = s.h = s.Ab = None
    if bounded:
        s.G, s.h, s.Ab = v.array("G", (2 * h * q, h * c)), v.array("h", (2 * h * q,)), v.array("Ab", (h * q, n))
    x, ref, tr, t0, dt = v.array("x", (1, n)), v.array("ref", (h, q)), v.array("tr", (h,)), v.array("t0", (1,)), v.real("dt")
    v.assume(dt > 0)
    v.assume(tr[0] == t0[0] + dt)
    asked, made, dict_state = {}, {}, _Frame(x, t0)
    s.edmd = types.SimpleNamespace(transform=lambda X: (asked.update(X=X), dict_state)[1], dt_=dt, control_names_in_="names")
    sol = v.array("sol", (h * c,))
    args = {}
    v.stub(qpsolvers, "solve_qp", lambda **kw: (args.update(kw), sol if solved else None)[1])

    def from_array(a, time_values=None, feature_names=None, ts_id=None):
        made.update(a=a, t=time_values, f=feature_names)
        return "TSC"

    v.stub(TSCDataFrame, "from_array", from_array)
    return s, n, q, c, h, x, ref, tr, t0, dt, asked, made, sol, args


def control_sequence(v, bounded=True):
    """the quadratic programme gets H, M x - Y r, and the limits moved by Ab x; its solution is labelled step by step"""
    s, n, q, c, h, x, ref, tr, t0, dt, asked, made, sol, args = _horizon(v, bounded)
    out = s.control_sequence_horizon("X", _Frame(ref, tr))
    v.fact("initial condition mapped to the dictionary", asked["X"] == "X" and out == "TSC")
    v.prove_eq("P = H", args["P"], s.H)
    # entry (k, i) of the flattened reference is ref[k, i]
    flat = v.arr_fn((h * q,), lambda p: ref[p // q, p % q])
    v.prove_eq("q = M x - Y r", args["q"], v.arr_fn((h * c,), lambda i: v.sum(n, lambda j: s.M[i, j] * x[0, j]) - v.sum(h * q, lambda p: s.Y[i, p] * flat[p])))
    if bounded:
        v.prove_eq("G", args["G"], s.G)
        st = lambda p: v.sum(n, lambda j: s.Ab[p, j] * x[0, j])
        a = v.int("a", 0, h * q - 1)
        v.prove("upper limit moved by the free state", args["h"][a] == s.h[a] - st(a))
        v.prove("lower limit moved by the free state", args["h"][h * q + a] == s.h[h * q + a] + st(a))
    else:
        v.fact("no state limits", args["G"] is None and args["h"] is None)
    v.fact("no equality constraints", args["A"] is None and args["b"] is None and args["solver"] == "quadprog")
    v.prove_eq("lb", args["lb"], s.lb)
    v.prove_eq("ub", args["ub"], s.ub)
    k, j = v.int("k", 0, h - 1), v.int("j", 0, c - 1)
    v.prove("input of step k", made["a"][k, j] == sol[k * c + j])
    v.prove("step 0 at the initial time", made["t"][0] == t0[0])
    e = v.int("e", 0, h - 2)
    v.prove("step k+1 at the k-th reference time", made["t"][e + 1] == tr[e])
    v.fact("control names", made["f"] == "names")
    v.frame("inputs unchanged", x, ref, tr, t0, s.H, s.M, s.Y, s.lb, s.ub)


def control_sequence_unbounded(v):
    """without state bounds there are no state constraints"""
    control_sequence(v, False)


def control_sequence_fails(v):
    """an unsolved programme raises"""
    s, n, q, c, h, x, ref, tr, t0, dt, asked, made, sol, args = _horizon(v, False, solved=False)
    v.raises("unsolved", ValueError, True, lambda: s.control_sequence_horizon("X", _Frame(ref, tr)))


def control_sequence_shapes(v):
    """a reference of another length or width is refused"""
    s, n, q, c, h, x, ref, tr, t0, dt, asked, made, sol, args = _horizon(v, False)
    a, b = v.int("a", 1), v.int("b", 1)
    v.raises("shape", ValueError, v.not_(v.and_(a == h, b == q)), lambda: s.control_sequence_horizon("X", _Frame(v.array("ref2", (a, b)), tr)))


def lqr_gain(v):
    """F solves (R + B'PB) F = B'PA with P the solution of the Riccati equation of A, B, Q, R"""
    from datafold.appfold.mpc import LQR
    n, c = v.int("n", 1), v.int("c", 1)
    A, B = v.array("A", (n, n)), v.array("B", (n, c))
    cr, ci = v.array("cr", (n,), pos=True), v.array("ci", (c,), pos=True)
    s = object.__new__(LQR)
    s.cost_running, s.cost_input = cr, ci
    s.edmd = types.SimpleNamespace(dmd_model=types.SimpleNamespace(sys_matrix_=A, control_matrix_=B), n_features_out_=n, n_control_in_=c)
    F = s._setup_optimizer()
    Q = v.arr_fn((n, n), lambda i, j: v.ite(i == j, cr[i], 0.0))
    R = v.arr_fn((c, c), lambda i, j: v.ite(i == j, ci[i], 0.0))
    P = v.lib(scipy.linalg.solve_discrete_are, A, B, Q, R)
    inv = v.lib(np.linalg.inv, R + B.T @ P @ B)
    v.prove_eq("F = (R + B'PB)^-1 B'PA", F, inv @ B.T @ P @ A)
    v.frame("inputs unchanged", A, B, cr, ci)


def lqr_control(v):
    """u = -F (x - target), one value per control input, at the time of the state"""
    import datafold.appfold.mpc as mpc
    from datafold.pcfold import TSCDataFrame
    n, c, T = v.int("n", 1), v.int("c", 1), v.int("T", 1)
    s = object.__new__(mpc.LQR)
    s.Flqr = v.array("F", (c, n))
    x, tg, tv = v.array("x", (1, n)), v.array("tg", (1, n)), v.array("tv", (T,))
    X = types.SimpleNamespace(tsc=types.SimpleNamespace(check_required_n_timeseries=lambda k: v.fact("one series required", k == 1)),
                              time_values=lambda: tv, ids=["id0"])
    tab = {id(X): _Frame(x, tv), "target": _Frame(tg, tv)}
    s.edmd = types.SimpleNamespace(transform=lambda Z: tab[Z if isinstance(Z, str) else id(Z)], control_names_in_="names")
    for mode in ("argument", "preset"):
        made = {}

        def from_array(a, time_values=None, feature_names=None, ts_id=None):
            made.update(a=a, t=time_values, f=feature_names, i=ts_id)
            return "TSC"

        v.stub(TSCDataFrame, "from_array", from_array)
        if mode == "argument":
            s.control_sequence(X, "target")
        else:
            s.preset_target_state("target").control_sequence(X)
        v.prove_eq(f"{mode}: u = -F (x - target)", made["a"], v.arr_fn((1, c), lambda k, i: -v.sum(n, lambda j: s.Flqr[i, j] * (x[0, j] - tg[0, j]))))
        v.prove_eq(f"{mode}: time", made["t"], tv[T - 1])
        v.fact(f"{mode}: names and series", made["f"] == "names" and made["i"] == "id0")


CONTRACTS += [evolution_matrices_qois, cost_matrices, cost_matrices_no_terminal, cost_matrices_scalar_terminal, cost_to_array,
              cost_to_array_refuses, constraints, constraints_none, optimizer, cost_identity, control_sequence, control_sequence_unbounded,
              control_sequence_fails, control_sequence_shapes, lqr_gain, lqr_control]

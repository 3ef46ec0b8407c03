"""C12 dynamic mode decomposition: the batch models"""
import types

import numpy as np
import scipy.linalg


def D():
    from datafold.dynfold import dmd
    return dmd


class Frame:
    """what the models read of a collection: snapshot matrices, values, shape (their contracts are C03)"""

    _vc_sym = True

    def __init__(self, values=None, shape=None, pairs=None):
        self.values_, self.shape = values, shape
        self.asked = []

        def shift_matrices(*, snapshot_orientation="col"):
            self.asked.append(snapshot_orientation)
            return tuple(p if snapshot_orientation == "row" else p.T for p in pairs)

        self.tsc = types.SimpleNamespace(shift_matrices=shift_matrices)

    def to_numpy(self):
        return self.values_


def _pairs(v):
    n, s, N = v.int("n", 1), v.int("s", 1), v.int("N", 2)
    v.assume(s < N)
    return n, s, N, v.array("Xm", (s, n)), v.array("Xp", (s, n))


def _normal(v, name, n, k, G, Dm, K, rows=None):
    """K solves the normal equations K G = D^T, stated as G (G K^T - D) = 0; for the Gram matrices G = X^T W X
    and D = X^T W Y the two are the same because G K^T - D lies in the range of G"""
    j = v.int("j", 0, k - 1)
    v.prove_eq(f"{name}: rows", K.shape[0], k)
    v.prove_eq(f"{name}: columns", K.shape[1], n)
    for i in rows or [v.int("i", 0, n - 1)]:
        v.instantiate(i, j)
        v.prove(name, v.sum(n, lambda p: G(i, p) * v.sum(n, lambda q: G(p, q) * K[j, q])) == v.sum(n, lambda p: G(i, p) * Dm(p, j)))


def _standard(**kw):
    s = object.__new__(D().DMDStandard)
    s.__dict__.update(dict(rank=None, residual_filter=None, reconstruct_mode="exact", diagonalize=False, approx_generator=False, rcond=None, compute_pseudospectrum=False), **kw)
    return s


def full_system_matrix(v):
    """K minimises sum_k |K x_k - y_k|^2 over all snapshot pairs of all series"""
    v.e.normal_equations = True
    n, s, N, Xm, Xp = _pairs(v)
    K, *rest = _standard()._compute_full_system_matrix(Frame(shape=(N, n), pairs=(Xm, Xp)))
    G = lambda a, b: v.sum(s, lambda t: Xm[t, a] * Xm[t, b])
    Dm = lambda a, b: v.sum(s, lambda t: Xm[t, a] * Xp[t, b])
    _normal(v, "least squares over all pairs", n, n, G, Dm, K)
    v.frame("snapshots unchanged", Xm, Xp)


def full_system_matrix_weights(v):
    """with sample weights: K minimises sum_k w_k |K x_k - y_k|^2"""
    v.e.normal_equations = True
    n, s, N, Xm, Xp = _pairs(v)
    w = v.array("w", (s,), nonneg=True)
    K, *rest = _standard()._compute_full_system_matrix(Frame(shape=(N, n), pairs=(Xm, Xp)), sample_weights=w)
    G = lambda a, b: v.sum(s, lambda t: Xm[t, a] * w[t] * Xm[t, b])
    Dm = lambda a, b: v.sum(s, lambda t: Xm[t, a] * w[t] * Xp[t, b])
    _normal(v, "weighted least squares over all pairs", n, n, G, Dm, K)
    v.frame("inputs unchanged", Xm, Xp, w)


def generator(v):
    """gDMD: the generator minimises sum_k |L x_k - dx_k|^2"""
    v.e.normal_equations = True
    n, s = v.int("n", 1), v.int("s", 1)
    X, dX = v.array("X", (s, n)), v.array("dX", (s, n))
    g = object.__new__(D().gDMDFull)
    g.rcond = None
    K = g._compute_koopman_generator(Frame(X, (s, n)), Frame(dX, (s, n)))
    G = lambda a, b: v.sum(s, lambda t: X[t, a] * X[t, b])
    Dm = lambda a, b: v.sum(s, lambda t: X[t, a] * dX[t, b])
    _normal(v, "least squares for the derivative", n, n, G, Dm, K)
    v.frame("inputs unchanged", X, dX)


def control_matrices(v):
    """DMDControl: (A, B) minimise sum_k |A x_k + B u_k - y_k|^2"""
    v.e.normal_equations = True
    n, s, N, Xm, Xp = _pairs(v)
    c = v.int("c", 1)
    U = v.array("U", (s, c))
    m = object.__new__(D().DMDControl)
    m.rcond = None
    A, B = m._compute_koopman_and_control_matrix(Frame(shape=(N, n), pairs=(Xm, Xp)), Frame(U, (s, c)))
    v.prove_eq("A rows", A.shape[0], n)
    v.prove_eq("A columns", A.shape[1], n)
    v.prove_eq("B rows", B.shape[0], n)
    v.prove_eq("B columns", B.shape[1], c)
    XU = lambda t, a: v.ite(a < n, Xm[t, a], U[t, a - n])
    K = v.arr_fn((n, n + c), lambda j, q: v.ite(q < n, A[j, q], B[j, q - n]))
    G = lambda a, b: v.sum(s, lambda t: XU(t, a) * XU(t, b))
    Dm = lambda a, b: v.sum(s, lambda t: XU(t, a) * Xp[t, b])
    _normal(v, "least squares for the states and controls", n + c, n, G, Dm, K, [v.int("i", 0, n - 1), n + v.int("u", 0, c - 1)])
    v.frame("inputs unchanged", Xm, Xp, U)


CONTRACTS = [full_system_matrix, full_system_matrix_weights, generator, control_matrices]


def _eigen_pairs(v, n, A, V, lam, i, j):
    v.prove("A V = V diag(lam)", v.sum(n, lambda q: A[i, q] * V[q, j]) == V[i, j] * lam[j])


def spectral_components(v):
    """eigenvalues and right eigenvectors of the system matrix: A V = V diag(lam), all of them"""
    n = v.int("n", 1)
    A = v.array("A", (n, n))
    V, lam, L = D().compute_spectral_components(A, is_diagonalize=False)
    v.fact("no left eigenvectors", L is None)
    v.prove_eq("number of values", lam.shape[0], n)
    v.prove_eq("number of vectors", V.shape[1], n)
    i, j = v.int("i", 0, n - 1), v.int("j", 0, n - 1)
    _eigen_pairs(v, n, A, V, lam, i, j)
    v.frame("matrix unchanged", A)


def spectral_components_left(v):
    """with left eigenvectors: (V diag(lam)) L = A, so that V diag(lam) L is the system matrix"""
    v.e.normal_equations = True
    n = v.int("n", 1)
    A = v.array("A", (n, n))
    V, lam, L = D().compute_spectral_components(A, is_diagonalize=True)
    i, j = v.int("i", 0, n - 1), v.int("j", 0, n - 1)
    _eigen_pairs(v, n, A, V, lam, i, j)
    v.instantiate(i, j)
    v.prove("V diag(lam) L = A", v.sum(n, lambda q: V[i, q] * lam[q] * L[q, j]) == A[i, j])
    v.frame("matrix unchanged", A)


CONTRACTS += [spectral_components, spectral_components_left]


def reduced_system_matrix(v):
    """rank r: the reduced matrix is U_r^T Y V_r S_r^-1 with the leading singular triplets of the snapshot matrix;
    the factors handed on are the ones used"""
    n, s, N, Xm, Xp = _pairs(v)
    r = v.int("r", 1)
    v.assume(r < n)
    v.assume(r < s)
    X = v.array("X", (n, s))
    Y = v.array("Y", (n, s))
    m = _standard()
    m.rank = r
    Kt, G, Gd, R, rec = m._compute_reduced_system_matrix(Frame(shape=(N, n), pairs=(X.T, Y.T)), None)
    U, S, Vh = v.lib(np.linalg.svd, X, full_matrices=False)
    v.prove_eq("reduced matrix", Kt, v.arr_fn((r, r), lambda a, b: v.sum(n, lambda p: v.sum(s, lambda t: U[p, a] * Y[p, t] * Vh[b, t] / S[b]))))
    v.frame("snapshots unchanged", X, Y)


def reduced_modes(v):
    """exact modes Phi = Y V S^-1 W are eigenvectors of A = Y V S^-1 U^T to the eigenvalues of the reduced matrix;
    projected modes U W are eigenvectors of U Kt U^T"""
    from vc.models import contraction, ortho_rules
    from vc.terms import app
    n, s, r = v.int("n", 2), v.int("s", 2), v.int("r", 1)
    U, Vm, Si, Y = v.array("U", (n, r)), v.array("V", (s, r)), v.array("Si", (r,), pos=True), v.array("Y", (n, s))
    Kt = v.array("Kt", (r, r))
    # precondition (postcondition of _compute_reduced_system_matrix): Kt = U^T Y V S^-1, U orthonormal
    v.rule(contraction([(U.fname, 0, False), (Y.fname, 0, False)], lambda bd, o1, o2: app("UtY", (o1[0], o2[0]), "R")))
    v.rule(contraction([("UtY", 1, False), (Vm.fname, 0, False)], lambda bd, o1, o2: app(Kt.fname, (o1[0], o2[0]), "R") * app(Si.fname, (o2[0],), "R") ** -1))
    U.fvars = ()
    ortho_rules(U)
    exact = v.split(v.bool("exact"))
    m = _standard()
    m.rank = r
    m.reconstruct_mode = "exact" if exact else "project"
    Phi, lam, L = m._compute_spectral_components(Kt, dict(shift_end=Y, V=Vm, U=U, S_inverse=Si))
    v.fact("no left eigenvectors", L is None)
    v.prove_eq("one value per reduced direction", lam.shape[0], r)
    i, j = v.int("i", 0, n - 1), v.int("j", 0, r - 1)
    if exact:
        M = lambda i, q: v.sum(s, lambda t: Y[i, t] * Vm[t, q] * Si[q])
    else:
        M = lambda i, q: v.sum(r, lambda p: U[i, p] * Kt[p, q])
    v.prove("A Phi = Phi diag(lam)", v.sum(r, lambda p: M(i, p) * v.sum(n, lambda q: U[q, p] * Phi[q, j])) == Phi[i, j] * lam[j])
    v.frame("inputs unchanged", U, Vm, Si, Y, Kt)


CONTRACTS += [reduced_system_matrix, reduced_modes]


def _quiet(m):
    """validation of the data collection and of the feature names: contracts of C01/C14"""
    m._validate_datafold_data = lambda *a, **k: a[0] if a else k.get("X")
    m._validate_and_setup_fit_attrs = lambda *a, **k: None
    m.n_features_in_ = 10**6
    return m


def fit_standard(v):
    """DMDStandard.fit: the least-squares matrix of the data and the given weights is the system that is set up;
    approx_generator takes the logarithm over dt"""
    n = v.int("n", 1)
    K = v.array("K", (n, n))
    dt = v.real("dt")
    v.assume(dt > 0)
    mode = "spectral" if v.split(v.bool("spectral")) else "matrix"
    gen = bool(v.split(v.bool("generator")))
    weights = v.array("w", (n,)) if v.split(v.bool("weights")) else None
    m = _quiet(D().DMDStandard(sys_mode=mode, approx_generator=gen))
    m.dt_ = dt
    X = Frame(shape=(n + 1, n))
    seen = {}
    m._compute_full_system_matrix = lambda X, sample_weights=None: (seen.update(X=X, w=sample_weights), (K, None, None, None, None))[1]
    kw = {} if weights is None else {"sample_weights": weights}
    v.fact("fit returns the model", m.fit(X, **kw) is m)
    v.fact("the data go to the least-squares fit", seen.get("X") is X)
    v.fact("the weights go to the least-squares fit", seen.get("w") is weights)
    if mode == "matrix":
        want = K if not gen else v.arr_fn((n, n), lambda i, j: v.lib(scipy.linalg.logm, K)[i, j] / dt)
        v.prove_eq("system matrix", m.sys_matrix_, want)
    else:
        V, lam = m.eigenvectors_right_, m.eigenvalues_
        i, j = v.int("i", 0, n - 1), v.int("j", 0, n - 1)
        if gen:
            mu = v.arr_fn((n,), lambda q: v.exp(lam[q] * dt), dt="complex")
            v.prove("K V = V diag(exp(lam dt))", v.sum(n, lambda q: K[i, q] * V[q, j]) == V[i, j] * mu[j])
        else:
            _eigen_pairs(v, n, K, V, lam, i, j)
    v.frame("matrix unchanged", K)


def _fit_matrix(v, m, X, K, n, diag, U=None, B=None):
    m.fit(X) if U is None else m.fit(X, U=U)
    if m.sys_mode == "matrix":
        v.prove_eq("system matrix", m.sys_matrix_, K)
    else:
        i, j = v.int("i", 0, n - 1), v.int("j", 0, n - 1)
        V, lam, L = m.eigenvectors_right_, m.eigenvalues_, m.eigenvectors_left_
        _eigen_pairs(v, n, K, V, lam, i, j)
        v.fact("left eigenvectors only on request", (L is not None) == diag)
        if diag:
            v.instantiate(i, j)
            v.prove("V diag(lam) L = A", v.sum(n, lambda q: V[i, q] * lam[q] * L[q, j]) == K[i, j])
    if B is not None:
        v.prove_eq("control matrix", m.control_matrix_, B)


def fit_generator(v):
    """gDMDFull.fit: the generator of the states at the times of the derivative is the system that is set up"""
    v.e.normal_equations = True
    n, s = v.int("n", 1), v.int("s", 1)
    K = v.array("K", (n, n))
    mode = "spectral" if v.split(v.bool("spectral")) else "matrix"
    diag = mode == "spectral" and bool(v.split(v.bool("diag")))
    m = _quiet(D().gDMDFull(sys_mode=mode, is_diagonalize=diag, kwargs_fd=dict(accuracy=4)))
    X, dX = Frame(shape=(s, n)), Frame(shape=(s, n))
    dX.index = "times of the derivative"
    sub = Frame(shape=(s, n))
    asked, seen = {}, {}
    X.tsc.time_derivative = lambda **kw: (asked.update(kw), dX)[1]

    class Loc:
        def __getitem__(self, key):
            asked["loc"] = key
            return sub

    X.loc = Loc()
    m._compute_koopman_generator = lambda X, X_grad: (seen.update(X=X, g=X_grad), K)[1]
    _fit_matrix(v, m, X, K, n, diag)
    v.fact("first derivative, the requested accuracy", asked.get("diff_order") == 1 and asked.get("accuracy") == 4)
    v.fact("states at the times of the derivative", asked.get("loc") in (("times of the derivative", slice(None)), "times of the derivative") and seen.get("X") is sub)
    v.fact("derivative", seen.get("g") is dX)


def fit_control(v):
    """DMDControl.fit: the pair (A, B) of the data is the system that is set up"""
    v.e.normal_equations = True
    n, c, s = v.int("n", 1), v.int("c", 1), v.int("s", 1)
    A, B = v.array("A", (n, n)), v.array("B", (n, c))
    mode = "spectral" if v.split(v.bool("spectral")) else "matrix"
    m = _quiet(D().DMDControl(sys_mode=mode))
    X, U = Frame(shape=(s, n)), Frame(shape=(s, c))
    X.index = types.SimpleNamespace(get_level_values=lambda name: types.SimpleNamespace(dtype=np.dtype(float)))
    seen = {}
    m._compute_koopman_and_control_matrix = lambda X, U: (seen.update(X=X, U=U), (A, B))[1]
    _fit_matrix(v, m, X, A, n, mode == "spectral", U, B)
    v.fact("states and controls go to the fit", seen.get("X") is X and seen.get("U") is U)


def pretrained(v):
    """PretrainedDMD: the given matrix is the system"""
    v.e.normal_equations = True
    n = v.int("n", 1)
    K = v.array("K", (n, n))
    mode = "spectral" if v.split(v.bool("spectral")) else "matrix"
    diag = mode == "spectral" and bool(v.split(v.bool("diag")))
    ty = "flowmap" if v.split(v.bool("flowmap")) else "differential"
    m = D().PretrainedDMD.from_available_system_matrix(sys_type=ty, sys_mode=mode, system_matrix=K, is_diagonalize=diag)
    v.fact("type and mode", m.sys_type == ty and m.sys_mode == mode)
    m.fit = lambda X: None
    _fit_matrix(v, m, None, K, n, diag)


CONTRACTS += [fit_standard, fit_generator, fit_control, pretrained]


class States(Frame):
    """a collection of states or controls: values, ids of the series, column names"""

    def __init__(self, values, ids, columns=()):
        super().__init__(values, values.shape)
        self.ids, self.columns = ids, columns
        self.index = types.SimpleNamespace(get_level_values=lambda name: types.SimpleNamespace(to_numpy=lambda: np.asarray(ids)))


class Evolved:
    """what evolve_system returns; the model relabels the times"""

    def __init__(self):
        self.set_times = []
        self.index = self
        self.tsc = types.SimpleNamespace(shift_time_by_delta=lambda shift_t: types.SimpleNamespace(time_values=lambda: shift_t + self.times))

    def set_levels(self, values, level):
        self.set_times.append((values, level))
        return self

    def remove_unused_levels(self):
        return self


def _evolving(v, mode, control):
    n, t, k = v.int("n", 1), v.int("t", 2), 2
    m = D().PretrainedDMD(sys_type="flowmap", sys_mode=mode)
    dt = v.real("dt")
    v.assume(dt > 0)
    m.dt_ = dt
    m.feature_names_in_ = "names"
    m.is_linear_system_setup = lambda **kw: True
    ids = [7, 3]
    x0, tv = v.array("x0", (k, n)), v.array("tv", (t,))
    u = c = None
    if control:
        c = v.int("c", 1)
        rows = t - 1
        u = States(v.array("u", (k * rows, c)), ids, v.array("cols", (c,), dt="int"))
    seen = {}
    out = Evolved()

    def evolve(**kw):
        seen.update(kw)
        out.times = kw["time_values"]
        return out

    m.evolve_system = evolve
    return m, n, t, k, c, dt, ids, x0, tv, u, seen, out


def evolve_matrix(v):
    """prediction in matrix mode: the initial states start the evolution at time zero, with the sampling interval of
    the fit, row block i of the control input belonging to initial condition i; the result carries the requested times"""
    control = bool(v.split(v.bool("control")))
    m, n, t, k, c, dt, ids, x0, tv, u, seen, out = _evolving(v, "matrix", control)
    res = m._evolve_dmd_system(States(x0, ids), None, u, tv)
    _evolved(v, m, res, n, t, k, c, dt, ids, tv, u, seen, out)
    v.prove_eq("initial states", seen["initial_conditions"], x0.T)
    v.frame("inputs unchanged", x0, tv)


def evolve_spectral(v):
    """prediction in spectral mode: the initial states enter through the spectral coordinates"""
    control = bool(v.split(v.bool("control")))
    m, n, t, k, c, dt, ids, x0, tv, u, seen, out = _evolving(v, "spectral", control)
    b = v.array("b", (v.int("r", 1), k))
    asked = {}
    m.compute_spectral_system_states = lambda states: (asked.update(s=states), b)[1]
    res = m._evolve_dmd_system(States(x0, ids), None, u, tv)
    _evolved(v, m, res, n, t, k, c, dt, ids, tv, u, seen, out)
    v.prove_eq("states to spectral coordinates", asked["s"], x0.T)
    v.prove_eq("spectral initial states", seen["initial_conditions"], b)
    v.frame("inputs unchanged", x0, tv, b)


def _evolved(v, m, res, n, t, k, c, dt, ids, tv, u, seen, out):
    v.fact("returns the evolved collection", res is out)
    v.prove_eq("sampling interval of the fit", seen["time_delta"], dt)
    v.fact("series ids", list(seen["time_series_ids"]) == ids)
    v.fact("feature names", seen["feature_names_out"] == "names")
    a = v.int("a", 0, t - 1)
    q, b = v.int("q", 0, t - 1), v.int("b", 0, t - 1)
    g = seen["time_values"]
    v.prove_eq("as many times as requested", g.shape[0], t)
    v.prove("differences of the requested times", g[a] - g[b] == tv[a] - tv[b])
    v.prove("times start at zero", g[a] >= 0)
    v.fact("relabelled once", len(out.set_times) == 1)
    v.prove_eq("requested times", out.set_times[0][0], tv)
    v.fact("on the time level", out.set_times[0][1] in (1, "time"))
    if u is None:
        v.fact("no control input", seen["control_input"] is None)
    else:
        U, cc = seen["control_input"], v.int("cc", 0, c - 1)
        s = v.int("s", 0, t - 2)
        for i in range(k):
            v.prove(f"control of series {i}", U[i, s, cc] == u.values_[i * (t - 1) + s, cc])


CONTRACTS += [evolve_matrix, evolve_spectral]

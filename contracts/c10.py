"""C10 out-of-sample extension: geometric harmonics, Laplacian pyramids, jointly smooth functions"""
import types

import numpy as np
import scipy.linalg


def O():
    from datafold.dynfold import outofsample
    return outofsample


def J():
    from datafold.dynfold import jsf
    return jsf


def _checked(v):
    """input checks of scikit-learn, which return the data they accept"""
    m = O()
    v.stub(m, "check_is_fitted", lambda *a, **k: None)
    v.stub(m, "check_array", lambda X, *a, **k: X)
    v.stub(m, "check_X_y", lambda X, y, *a, **k: (X, y))
    v.stub(m, "check_consistent_length", lambda *a: None)


# ---------------------------------------------------------------- geometric harmonics

def _gh(v, t=None):
    n, k = v.int("n", 1), v.int("k", 1)
    t = v.int("t", 1) if t is None else t
    g = O().GeometricHarmonicsInterpolator(n_eigenpairs=k)
    V, lam, y = v.array("V", (n, k)), v.array("lam", (k,), pos=True), v.array("y", (n, t))
    g.eigenvectors_, g.eigenvalues_, g.y_ = V, lam, y
    return g, n, k, t, V, lam, y


def _coeff(v, n, k, V, lam, y):
    return lambda i, c: v.sum(k, lambda q: V[i, q] / lam[q] * v.sum(n, lambda j: V[j, q] * y[j, c]))


def harmonics_coefficients(v):
    """the weights of the training points: V diag(1/lam) V^T y"""
    g, n, k, t, V, lam, y = _gh(v)
    g._precompute_aux()
    v.prove_eq("weights", g._aux, v.arr_fn((n, t), _coeff(v, n, k, V, lam, y)))
    v.frame("unchanged", V, lam, y)


def harmonics_projection(v):
    """if K V = V diag(lam) then the values at the training points are the projection V V^T y"""
    g, n, k, t, V, lam, y = _gh(v)
    K = v.array("K", (n, n))
    v.eigen(K, lam, V)
    g._precompute_aux()
    _checked(v)
    g.X_fit_ = v.array("X", (n, v.int("d", 1)))
    g._dmap_kernel = lambda a, b: K
    v.stub(O().GeometricHarmonicsInterpolator, "_validate_kwargs", lambda self, *a, **k: {})
    v.assume(t > 1)
    P = g.predict(g.X_fit_)
    v.prove_eq("projection", P, v.arr_fn((n, t), lambda i, c: v.sum(k, lambda q: V[i, q] * v.sum(n, lambda j: V[j, q] * y[j, c]))))


def harmonics_predict(v):
    """predict: kernel of the training points and the new points times the weights; one target gives a vector, also for one new point"""
    for one in (True, False):
        g, n, k, t, V, lam, y = _gh(v, 1 if one else None)
        if not one:
            v.assume(t > 1)
        p, d = v.int("p", 1), v.int("d", 1)
        X, Y, Kc, A = v.array("X", (n, d)), v.array("Y", (p, d)), v.array("Kc", (p, n)), v.array("A", (n, t))
        _checked(v)
        v.stub(O().GeometricHarmonicsInterpolator, "_validate_kwargs", lambda self, *a, **k: {})
        asked = []
        g.X_fit_, g._aux = X, A
        g._dmap_kernel = lambda a, b: asked.append((a, b)) or Kc
        P = g.predict(Y)
        v.fact("kernel of the training points and the new points", len(asked) == 1 and asked[0][0] is X and asked[0][1] is Y)
        f = lambda i, c: v.sum(n, lambda q: Kc[i, q] * A[q, c])
        if one:
            v.fact("a vector", P.ndim == 1)
            v.prove_eq("values", P, v.arr_fn((p,), lambda i: f(i, 0)))
        else:
            v.prove_eq("values", P, v.arr_fn((p, t), f))
        v.frame("unchanged", X, Y, Kc, A)


def harmonics_fit(v):
    """fit: the kernel of the training points with the settings of the model, its leading pairs, the weights; points and targets are kept"""
    m = O()
    for flat in (True, False):
        for stored, conj in ((False, False), (True, False), (True, True)):
            n, d, t, k = v.int("n", 2), v.int("d", 1), v.int("t", 1), v.int("k", 1)
            v.assume(k < n)
            X = v.array("X", (n, d))
            y = v.array("y", (n,) if flat else (n, t))
            Km, V, lam = v.array("K", (n, n)), v.array("V", (n, k)), v.array("lam", (k,), pos=True)
            log = {}

            class Kern:
                is_conjugate, basis_change_matrix_ = conj, "basis"

                def __init__(self, **kw):
                    log["kernel"] = kw

                def __call__(self, X, Y=None):
                    log["points"] = (X, Y)
                    return Km

            v.stub(m, "DmapKernelFixed", Kern)
            v.stub(m._DmapKernelAlgorithms, "solve_eigenproblem", staticmethod(lambda **kw: (log.update(solve=kw), (lam, V))[1]))
            v.stub(m._DmapKernelAlgorithms, "unsymmetric_kernel_matrix", staticmethod(lambda **kw: (log.update(unsym=kw), "unsym")[1]))
            v.stub(m, "check_consistent_length", lambda *a: None)
            v.stub(m.GeometricHarmonicsInterpolator, "_validate_data", lambda self, X, y, **kw: (X, y))
            v.stub(m.GeometricHarmonicsInterpolator, "_validate_kwargs", lambda self, *a, **k: {})
            g = m.GeometricHarmonicsInterpolator("internal", n_eigenpairs=k, is_stochastic="st", alpha="al", symmetrize_kernel="sy")
            r = g.fit(X, y, store_kernel_matrix=stored)
            v.fact("returns itself", r is g)
            v.fact("kernel of the model", log["kernel"] == dict(internal_kernel="internal", is_stochastic="st", alpha="al", symmetrize_kernel="sy"))
            v.fact("kernel of the training points", log["points"][0] is X and log["points"][1] is None)
            s = log["solve"]
            v.fact("pairs of this kernel matrix", isinstance(s["kernel"], Kern) and s["kernel"] is g._dmap_kernel and s["kernel_matrix"] is Km)
            v.prove_eq("number of pairs", s["n_eigenpairs"], k)
            v.fact("pairs kept", g.eigenvectors_ is V and g.eigenvalues_ is lam)
            v.prove_eq("points kept", g.X_fit_, X)
            Y2 = v.arr_fn((n, 1), lambda i, c: y[i]) if flat else y
            v.prove_eq("targets kept", g.y_, Y2)
            v.prove_eq("weights", g._aux, v.arr_fn((n, 1 if flat else t), _coeff(v, n, k, V, lam, g.y_)))
            v.fact("kernel matrix stored on request", hasattr(g, "kernel_matrix_") == stored)
            if stored:
                v.fact("stored matrix is that of the kernel", (g.kernel_matrix_ == "unsym" and log["unsym"] == dict(kernel_matrix=Km, basis_change_matrix="basis")) if conj else g.kernel_matrix_ is Km)
            v.frame("unchanged", X, y, Km)


def harmonics_pairs_range(v):
    """fit refuses exactly the numbers of pairs outside [1, n-1]"""
    m = O()
    n, d, k = v.int("n", 2), v.int("d", 1), v.int("k")
    Km = v.array("K", (n, n))
    V, lam = v.array("V", (n, 3)), v.array("lam", (3,), pos=True)
    v.stub(m, "DmapKernelFixed", lambda **kw: types.SimpleNamespace(__call__=None, is_conjugate=False) if 0 else (lambda X, Y=None: Km))
    v.stub(m._DmapKernelAlgorithms, "solve_eigenproblem", staticmethod(lambda **kw: (lam, V)))
    v.stub(m, "check_consistent_length", lambda *a: None)
    v.stub(m.GeometricHarmonicsInterpolator, "_validate_data", lambda self, X, y, **kw: (X, y))
    v.stub(m.GeometricHarmonicsInterpolator, "_validate_kwargs", lambda self, *a, **k: {})
    g = m.GeometricHarmonicsInterpolator(n_eigenpairs=k)
    X, y = v.array("X", (n, d)), v.array("y", (n,))
    v.raises("range", ValueError, v.or_(k < 1, k > n - 1), lambda: g.fit(X, y))


def harmonics_score(v):
    """score: the negative square root of the (weighted, aggregated) mean squared error between target and prediction"""
    m = O()
    for flat, multi in ((True, "raw_values"), (False, "raw_values"), (False, "uniform_average")):
        p, d, t = v.int("p", 1), v.int("d", 1), 1 if flat else 2
        X, y = v.array("X", (p, d)), v.array("y", (p,) if flat else (p, t))
        pred = v.array("pred", (p,) if flat else (p, t))
        err = v.array("err", (t,), nonneg=True) if multi == "raw_values" else v.real("err", nonneg=True)
        asked = {}
        _checked(v)
        v.stub(m.GeometricHarmonicsInterpolator, "_validate_kwargs", lambda self, *a, **k: {})
        v.stub(m.GeometricHarmonicsInterpolator, "predict", lambda self, Z: (asked.update(X=Z), pred)[1])
        v.stub(m, "mean_squared_error", lambda a, b, sample_weight=None, multioutput=None: (asked.update(a=a, b=b, w=sample_weight, m=multioutput), err)[1])
        g = m.GeometricHarmonicsInterpolator()
        w = v.array("w", (p,), nonneg=True)
        S = g.score(X, y, sample_weight=w, multioutput=multi)
        v.fact("prediction at the given points", asked["X"] is X)
        v.fact("error of the prediction with the weights and the aggregation", asked["b"] is pred and asked["w"] is w and asked["m"] == multi)
        v.prove_eq("against the target", asked["a"], v.arr_fn((p, 1), lambda i, c: y[i]) if flat else y)
        if multi == "raw_values" and not flat:
            v.prove_eq("score per target", S, v.arr_fn((t,), lambda c: -v.sqrt(err[c])))
        else:
            v.prove("score", S == -v.sqrt(err[0] if flat else err))


# ---------------------------------------------------------------- Laplacian pyramids

def _lp(**kw):
    return O().LaplacianPyramidsInterpolator(**{**dict(residual_tol=0.5), **kw})


def _rules(v, auto, tol):
    for first in (True, False):
        c, T = v.real("current", nonneg=True), v.real("tol", nonneg=True)
        last = float("nan") if first else v.real("last", nonneg=True)
        lp = _lp(auto_adaptive=auto, residual_tol=T if tol else None)
        s = lp._termination_rules_single(c, last)
        E = lp._LoopCond
        worse = (c >= last) if auto and not first else (c < 0)
        below = (c <= T) if tol else (c < 0)
        v.fact("a signal", s in (E.NO_TERMINATION, E.BELOW_RES_TOL, E.LOOCV_INCREASES, E.TINY_RES))
        want = {E.LOOCV_INCREASES: worse, E.BELOW_RES_TOL: v.and_(v.not_(worse), below),
                E.TINY_RES: v.and_(v.not_(worse), v.not_(below), c < 1e-15),
                E.NO_TERMINATION: v.and_(v.not_(worse), v.not_(below), c >= 1e-15)}
        v.prove(f"signal (first level {first})", want[s])


def pyramid_rules(v):
    """a target stops exactly if: the leave-one-out residual does not decrease (auto-adaptive, not in the first level), else the
    tolerance is reached, else the residual is below 1e-15 (automatic and with a tolerance)"""
    _rules(v, True, True)


def pyramid_rules_auto(v):
    """stopping rules, automatic only"""
    _rules(v, True, False)


def pyramid_rules_tol(v):
    """stopping rules, tolerance only"""
    _rules(v, False, True)


def pyramid_signals(v):
    """every target gets the signal of its own residuals"""
    lp = _lp()
    E = lp._LoopCond
    all_ = [E.NO_TERMINATION, E.BELOW_RES_TOL, E.LOOCV_INCREASES, E.TINY_RES]
    for t in (1, 2, 4):
        a, b = v.array("now", (t,)), v.array("last", (t,))
        asked = []
        v.stub(O().LaplacianPyramidsInterpolator, "_termination_rules_single", lambda self, x, y: (asked.append((x, y)), all_[(len(asked) - 1) % 4])[1])
        s = lp._terminate_condition_loop(a, b)
        v.fact("one signal per target", list(s) == all_[:t] and len(asked) == t)
        for i, (x, y) in enumerate(asked):
            v.prove_eq("residual", x, a[i])
            v.prove_eq("previous residual", y, b[i])


def pyramid_kernel(v):
    """a level uses the row-stochastic Gaussian kernel of its scale on the distances of the training points; auto-adaptive sets the diagonal to zero"""
    m = O()
    for auto in (True, False):
        n = v.int("n", 1)
        D, eps = v.symmetric("D", n, nonneg=True), v.real("eps", pos=True)
        lp = _lp(auto_adaptive=auto)
        ker, M = lp._prepare_kernel_and_matrix(D, eps)
        K = lambda i, j: v.exp(-D[i, j] / (2 * eps))
        v.prove_eq("kernel matrix", M, v.arr_fn((n, n), lambda i, j: v.ite(v.and_(auto, i == j), 0.0, K(i, j) / v.sum(n, lambda q: K(i, q)))))
        v.fact("its kernel", isinstance(ker, m.DmapKernelFixed) and isinstance(ker.internal_kernel, m.GaussianKernel) and ker.is_stochastic is True and ker.alpha == 0 and not ker.is_conjugate)
        v.prove_eq("its scale", ker.internal_kernel.epsilon, eps)
        p = v.int("p", 1)
        Q = v.array("Q", (p, n), nonneg=True)
        Kq = lambda i, j: v.exp(-Q[i, j] / (2 * eps))
        v.prove_eq("the same kernel at new points, with its diagonal", ker.evaluate(Q), v.arr_fn((p, n), lambda i, j: Kq(i, j) / v.sum(n, lambda q: Kq(i, q))))
        v.frame("distances unchanged", D, Q)


def pyramid_residual(v):
    """the residual of the active targets and its norm per target"""
    lp = _lp()
    n, t, a = v.int("n", 1), v.int("t", 1), v.int("a", 1)
    y, f, idx = v.array("y", (n, t)), v.array("f", (n, t)), v.array("idx", (a,), dt="int")
    v.assume_forall(a, lambda i: v.and_(idx[i] >= 0, idx[i] < t))
    old = v.array("old", (a,))
    R, now, last = lp._compute_residual(y, f, idx, old)
    v.prove_eq("residual", R, v.arr_fn((n, a), lambda i, c: y[i, idx[c]] - f[i, idx[c]]))
    v.prove_eq("norm", now, v.arr_fn((a,), lambda c: v.sqrt(v.sum(n, lambda i: (y[i, idx[c]] - f[i, idx[c]]) * (y[i, idx[c]] - f[i, idx[c]])))))
    v.prove_eq("previous norm", last, old)
    v.frame("unchanged", y, f)


def pyramid_selection(v):
    """targets with an increasing leave-one-out residual leave before the level is stored, those that reached the tolerance afterwards"""
    import itertools
    lp = _lp()
    E = lp._LoopCond
    for t in (1, 2, 3):
        for cond in itertools.product(E.NO_TERMINATION, ) if False else itertools.product((E.NO_TERMINATION, E.BELOW_RES_TOL, E.LOOCV_INCREASES, E.TINY_RES), repeat=t):
            n = v.int("n", 1)
            idx = np.array([5, 2, 9])[:t]
            Tv, R, nr = v.array("T", (n, t)), v.array("R", (n, t)), v.array("nr", (t,))
            c = np.array(cond)
            keep = [i for i in range(t) if cond[i] != E.LOOCV_INCREASES]
            I, T2, R2, N2 = lp._remove_increase_loocv_indices(idx, c, Tv, R, nr)
            v.fact("targets left", list(I) == [idx[i] for i in keep])
            if keep:
                v.prove_eq("values left", T2, v.arr_fn((n, len(keep)), lambda i, q: _pick(v, q, [Tv[i, s] for s in keep])))
                v.prove_eq("residuals left", R2, v.arr_fn((n, len(keep)), lambda i, q: _pick(v, q, [R[i, s] for s in keep])))
                v.prove_eq("norms left", N2, v.arr_fn((len(keep),), lambda q: _pick(v, q, [nr[s] for s in keep])))
                go = [s for s in keep if cond[s] == E.NO_TERMINATION]
                I, R3, N3 = lp._remove_residual_based_indices(I, c, R2, N2)
                v.fact("targets that continue", list(I) == [idx[i] for i in go])
                if go:
                    v.prove_eq("residuals that continue", R3, v.arr_fn((n, len(go)), lambda i, q: _pick(v, q, [R[i, s] for s in go])))
                    v.prove_eq("norms that continue", N3, v.arr_fn((len(go),), lambda q: _pick(v, q, [nr[s] for s in go])))


def _pick(v, q, xs):
    out = xs[-1]
    for i in range(len(xs) - 2, -1, -1):
        out = v.ite(q == i, xs[i], out)
    return out


def pyramid_levels(v):
    """levels are numbered from zero and keep kernel, values, norms and targets"""
    lp = _lp()
    lp._setup()
    n = v.int("n", 1)
    for lev in range(3):
        v.fact("level", lp.level_ == max(0, lev - 1))
        T, r, k, i = v.array("T", (n, 2)), v.array("r", (2,)), object(), np.array([0, 3])
        lp._track_new_level(kernel=k, target_values=T, residual_norm=r, active_func_indices=i)
        c = lp._level_tracker[lev]
        v.fact("kept", c["kernel"] is k and c["target_values"] is T and c["residual_norm"] is r and c["active_indices"] is i and len(lp._level_tracker) == lev + 1)


def _pyramid_run(v, plan, auto=False):
    """the recursion with given signals per level and target"""
    m = O()
    t = len(plan[0])
    n, p = v.int("n", 1), v.int("p", 1)
    y = v.array("y", (n, t))
    mats = [v.array(f"K{l}", (n, n)) for l in range(len(plan))]
    outs = [v.array(f"Q{l}", (p, n)) for l in range(len(plan))]
    D, eps0, mu = v.array("D", (n, n)), v.real("eps", pos=True), v.real("mu", pos=True)
    C = m.LaplacianPyramidsInterpolator
    scale, tests = [], []
    Dq = v.array("Dq", (p, n))

    class Kern:
        def __init__(self, l):
            self.l = l

        def evaluate(self, A):
            assert A is Dq
            return outs[self.l]

    def prepare(self, dist, epsilon):
        assert dist is D
        scale.append(epsilon)
        return Kern(len(scale) - 1), mats[len(scale) - 1]

    active, act = list(range(t)), []
    for row in plan:
        act.append(list(active))
        active = [c for c in active if row[c] == C._LoopCond.NO_TERMINATION]

    def test(self, current_residual_norm, last_residual_norm):
        l = len(tests)
        tests.append((current_residual_norm, last_residual_norm))
        return np.array([plan[l][c] for c in act[l]])

    v.stub(C, "_distance_matrix", lambda self, X, Y=None: D if Y is None else Dq)
    v.stub(C, "_prepare_kernel_and_matrix", prepare)
    v.stub(C, "_terminate_condition_loop", test)
    lp = _lp(initial_epsilon=eps0, mu=mu, auto_adaptive=auto)
    lp._setup()
    lp.n_targets_ = t
    X = v.array("X", (n, v.int("d", 1)))
    lp.X_ = X
    lp._laplacian_pyramid(X, y)
    stop = max(l for l in range(len(plan)) if act[l]) + 1
    v.fact("number of levels computed", len(scale) == stop)
    s, r = eps0, y
    expect = []
    for l in range(stop):
        v.prove_eq("scale of the level", scale[l], s)
        s = s / mu
    # the documented residual of every target
    cur = {c: (lambda i, c=c: y[i, c]) for c in range(t)}
    approx = {c: (lambda i: v.num(0)) for c in range(t)}
    levels = []
    for l in range(stop):
        kept = [c for c in act[l] if plan[l][c] != C._LoopCond.LOOCV_INCREASES]
        vals = {}
        for q, c in enumerate(act[l]):
            R = v.arr_fn((n,), cur[c])
            vals[c] = R
            new = lambda i, l=l, c=c, R=R, old=approx[c]: old(i) + v.sum(n, lambda j: mats[l][i, j] * R[j])
            F = v.arr_fn((n,), new)
            approx[c] = lambda i, F=F: F[i]
            cur[c] = lambda i, c=c, F=F: y[i, c] - F[i]
            v.prove_eq(f"norm of the residual in level {l}", tests[l][0][q], v.sqrt(v.sum(n, lambda i: (y[i, c] - F[i]) * (y[i, c] - F[i]))))
        if kept:
            levels.append((l, kept, vals))
    v.fact("levels stored", len(lp._level_tracker) == len(levels))
    for (l, kept, vals), c in zip(levels, lp._level_tracker.values()):
        v.fact("targets of the level", list(c["active_indices"]) == kept and c["kernel"].l == l)
        for q, cc in enumerate(kept):
            v.prove_eq(f"level {l} smooths the residual", v.arr_fn((n,), lambda i: c["target_values"][i, q]), vals[cc])
    # evaluation
    _checked(v)
    v.stub(C, "_validate", lambda self, X, y, ensure_y, ensure_min_samples: (X, y))
    Y = v.array("Y", (p, 1))
    P = lp.predict(Y)
    def want(c):
        return lambda i: sum((v.sum(n, lambda j: outs[l][i, j] * vals[c][j]) for l, kept, vals in levels if c in kept), start=v.num(0))
    for c in range(t):
        v.prove_eq("sum of the smoothed residuals at new points", P if t == 1 else v.arr_fn((p,), lambda i: P[i, c]), v.arr_fn((p,), want(c)))
    v.frame("unchanged", y, D, Dq, *mats, *outs)


def _E():
    return O().LaplacianPyramidsInterpolator._LoopCond


def pyramid_one_level(v):
    """one level"""
    E = _E()
    _pyramid_run(v, [[E.BELOW_RES_TOL]])


def pyramid_two_levels(v):
    """two levels, one target"""
    E = _E()
    _pyramid_run(v, [[E.NO_TERMINATION], [E.TINY_RES]])


def pyramid_three_levels(v):
    """three levels, one target"""
    E = _E()
    _pyramid_run(v, [[E.NO_TERMINATION], [E.NO_TERMINATION], [E.BELOW_RES_TOL]])


def pyramid_auto(v):
    """auto-adaptive: the level in which the residual increases is not used"""
    E = _E()
    _pyramid_run(v, [[E.NO_TERMINATION], [E.NO_TERMINATION], [E.LOOCV_INCREASES]], auto=True)


def pyramid_two_targets(v):
    """two targets that stop in different levels and for different reasons"""
    E = _E()
    _pyramid_run(v, [[E.NO_TERMINATION, E.BELOW_RES_TOL], [E.BELOW_RES_TOL, None]])


def pyramid_two_targets_auto(v):
    """one target stops because its residual increases, the other goes on"""
    E = _E()
    _pyramid_run(v, [[E.NO_TERMINATION, E.NO_TERMINATION], [E.LOOCV_INCREASES, E.NO_TERMINATION], [None, E.LOOCV_INCREASES]], auto=True)


# ---------------------------------------------------------------- jointly smooth functions and landmarks

def _jsf(splits, **kw):
    return J().JointlySmoothFunctions(splits, **kw)


class Kern:
    def __init__(self, log, out=None):
        self.log, self.out = log, out

    def __deepcopy__(self, memo):
        k = Kern(self.log, self.out)
        k.origin = self
        return k

    def __call__(self, X, Y=None):
        self.log.append((self, X, Y))
        return self.out


def smooth_kernels(v):
    """every split: its own copy of the kernel on its own columns; new points against the training points in the same columns"""
    n, p, d = v.int("n", 1), v.int("p", 1), 5
    X, Y = v.array("X", (n, d)), v.array("Y", (p, d))
    log = []
    ks = [Kern(log, object()), Kern(log, object()), Kern(log, object())]
    cols = [slice(0, 2), slice(2, 3), slice(3, 5)]
    est = _jsf([(f"s{i}", k, c) for i, (k, c) in enumerate(zip(ks, cols))])
    R = est._kernel_content_fit(X)
    v.fact("one entry per split", list(R) == ["s0", "s1", "s2"] and len(log) == 3)
    for i, c in enumerate(cols):
        k, A, B = log[i]
        v.fact("a copy of the kernel of the split", k.origin is ks[i] and k is not ks[i] and R[f"s{i}"]["kernel"] is k and B is None)
        v.fact("its matrix", R[f"s{i}"]["kernel_matrix"] is ks[i].out)
        v.prove_eq("columns of the split", A, X[:, c])
    est.kernel_content_, est.X_fit_ = R, X
    del log[:]
    T = est._kernel_content_transform(Y)
    v.fact("one entry per split, the fitted kernels", list(T) == ["s0", "s1", "s2"] and [e[0] for e in log] == [R[f"s{i}"]["kernel"] for i in range(3)] and all(T[f"s{i}"] is ks[i].out for i in range(3)))
    for i, c in enumerate(cols):
        v.prove_eq("training points", log[i][1], X[:, c])
        v.prove_eq("new points", log[i][2], Y[:, c])
    v.frame("unchanged", X, Y)


def smooth_eigenpairs(v):
    """every split: the pairs of its kernel matrix above the cut-off"""
    n, k = v.int("n", 2), v.int("k", 1)
    cut = v.real("cut", nonneg=True)
    data = {s: (object(), v.array("K" + s, (n, n)), v.array("lam" + s, (k,)), v.array("V" + s, (n, k))) for s in ("a", "b")}
    asked = []

    def pairs(kernel, kernel_matrix, n_eigenpairs):
        asked.append((kernel, n_eigenpairs))
        e = [d for d in data.values() if d[0] is kernel and d[1] is kernel_matrix]
        assert len(e) == 1
        return e[0][2], e[0][3]

    v.stub(J(), "compute_kernel_eigenpairs", pairs)
    est = _jsf([], n_kernel_eigenvectors=k, kernel_eigenvalue_cut_off=cut)
    W, V = est._compute_kernel_eigenpairs(v.array("X", (n, 2)), {s: dict(kernel=d[0], kernel_matrix=d[1]) for s, d in data.items()})
    v.fact("one entry per split", list(W) == ["a", "b"] == list(V))
    for (kern, num), s in zip(asked, ("a", "b")):
        v.fact("kernel of the split", kern is data[s][0])
        v.prove_eq("number of pairs", num, k)
        lam, vec = data[s][2], data[s][3]
        idx = v.lib(np.nonzero, lam > cut)[0]
        v.prove_eq("values above the cut-off", W[s], lam[idx])
        v.prove_eq("their vectors", V[s], vec[:, idx])
        v.frame("unchanged", lam, vec)


def smooth_two(v):
    """two splits: (W1 q_j + W2 r_j) / sqrt(2 (1 + s_j)) with W1^T W2 = Q diag(s) R^T, and W_i^T W_i = 1: orthonormal columns"""
    n, k1, k2 = v.int("n", 2), v.int("k1", 2), v.int("k2", 2)
    f = v.int("f", 1)
    v.assume(k1 <= k2)
    W1, W2 = v.array("W1", (n, k1)), v.array("W2", (n, k2))
    est = _jsf([], n_jointly_smooth_functions=f)
    est.kernel_eigenvectors_ = {"a": W1, "b": W2}
    svd = {}
    real = scipy.linalg.svd

    def keep(A, full_matrices=True, **kw):
        assert full_matrices is False
        svd["A"], svd["out"] = A, v.lib(real, A, full_matrices=False)
        return svd["out"]

    v.stub(J().scipy.linalg, "svd", keep)
    s, F = est._compute_jointly_smooth_vectors(v.array("X", (n, 2)), est.kernel_eigenvectors_)
    v.prove_eq("products of the eigenvectors", svd["A"], v.arr_fn((k1, k2), lambda i, j: v.sum(n, lambda q: W1[q, i] * W2[q, j])))
    Q, S, R = svd["out"]
    v.prove_eq("singular values", s, S)
    c = F.shape[1]
    v.prove("number of functions", c == v.ite(f < k1 - 1, f, k1 - 1))
    i, j = v.int("i", 0, n - 1), v.int("j", 0)
    v.assume(j < c)
    both = v.sum(k1, lambda q: W1[i, q] * Q[q, j]) + v.sum(k2, lambda q: W2[i, q] * R[j, q])
    # the constant sqrt(2) is a machine number in the code
    gap = F[i, j] * float(np.sqrt(2)) * v.sqrt(1 + S[j]) - both
    v.prove("functions", v.and_(gap <= 1e-12 * v.ite(both >= 0, both, -both), -gap <= 1e-12 * v.ite(both >= 0, both, -both)))
    v.frame("unchanged", W1, W2)


def smooth_many(v):
    """three splits: the leading left singular vectors of all eigenvectors side by side"""
    n, k = v.int("n", 2), [v.int(f"k{i}", 1) for i in range(3)]
    f = v.int("f", 1)
    W = [v.array(f"W{i}", (n, k[i])) for i in range(3)]
    est = _jsf([], n_jointly_smooth_functions=f, svd_solver_kwargs=None)
    est.kernel_eigenvectors_ = dict(zip("abc", W))
    got = {}
    U, s = v.array("U", (n, v.int("c", 1))), v.array("s", (3,))

    def svd(A, n_svdtriplet, **kw):
        got.update(A=A, k=n_svdtriplet, kw=kw)
        return U, s, None

    v.stub(J(), "compute_kernel_svd", svd)
    S, F = est._compute_jointly_smooth_vectors(v.array("X", (n, 2)), est.kernel_eigenvectors_)
    v.fact("left singular vectors", F is U and S is s and got["kw"] == {})
    K = k[0] + k[1] + k[2]
    v.prove("number of functions", got["k"] == v.ite(f < K, f, K))
    A = lambda i, j: v.ite(j < k[0], W[0][i, j], v.ite(j < k[0] + k[1], W[1][i, j - k[0]], W[2][i, j - k[0] - k[1]]))
    v.prove_eq("all eigenvectors side by side", got["A"], v.arr_fn((n, K), A))
    v.frame("unchanged", *W)


def _nystroem(v, S):
    n, p, m = v.int("n", 1), v.int("p", 1), v.int("m", 1)
    k = [v.int(f"k{i}", 1) for i in range(S)]
    names = [f"s{i}" for i in range(S)]
    V = {s: v.array("V" + s, (n, k[i])) for i, s in enumerate(names)}
    lam = {s: v.array("lam" + s, (k[i],), pos=True) for i, s in enumerate(names)}
    Kq = {s: v.array("K" + s, (p, n)) for s in names}
    F = v.array("F", (n, m))
    est = _jsf([(s, None, None) for s in names])
    est.kernel_eigenvectors_, est.kernel_eigenvalues_, est.jointly_smooth_vectors_ = V, lam, F
    C = J().JointlySmoothFunctions
    Y = v.array("Y", (p, 2))
    asked, same = [], {}
    v.stub(C, "_kernel_content_transform", lambda self, X: (asked.append(X), Kq)[1])
    v.stub(C, "_same_type_X", lambda self, X, values, feature_names=None: same.update(X=X, names=feature_names) or values)
    v.stub(C, "_validate_datafold_data", lambda self, X, *a, **k: X)
    v.stub(C, "_validate_feature_input", lambda self, *a, **k: None)
    v.stub(C, "get_feature_names_out", lambda self, *a: "names")
    v.stub(J(), "check_is_fitted", lambda *a: None)
    return n, p, m, k, names, V, lam, Kq, F, est, Y, asked, same


def smooth_nystroem(v):
    """new points: the average over the splits of sum_q K(y, x) v_q / lam_q (v_q^T f)"""
    for S in (1, 2, 3):
        n, p, m, k, names, V, lam, Kq, F, est, Y, asked, same = _nystroem(v, S)
        R = est.transform(Y)
        v.fact("kernels of the new points", len(asked) == 1 and asked[0] is Y)
        v.fact("returned like the new points", same["X"] is Y and same["names"] == "names")
        one = lambda s, kk: (lambda i, j: v.sum(kk, lambda q: v.sum(n, lambda a: Kq[s][i, a] * (V[s][a, q] / lam[s][q])) * v.sum(n, lambda b: V[s][b, q] * F[b, j])))
        v.prove_eq(f"Nystroem extension, {S} splits", R, v.arr_fn((p, m), lambda i, j: sum((one(s, k[i_])(i, j) for i_, s in enumerate(names)), start=v.num(0)) / S))
        v.frame("unchanged", F, *V.values(), *lam.values(), *Kq.values())


def smooth_energies(v):
    """truncated energies |W_i^T f_j|^2 of every split and function; the score adds them"""
    n, m, k = v.int("n", 1), v.int("m", 1), v.int("k", 1)
    V = {s: v.array("V" + s, (n, k)) for s in "ab"}
    F = v.array("F", (n, m))
    est = _jsf([])
    est.kernel_eigenvectors_, est.jointly_smooth_vectors_ = V, F
    E = est._compute_truncated_energies()
    e = lambda s: (lambda j: v.sum(k, lambda q: v.sum(n, lambda a: V[s][a, q] * F[a, j]) * v.sum(n, lambda a: V[s][a, q] * F[a, j])))
    for i, s in enumerate("ab"):
        v.prove_eq("energies", E[i], v.arr_fn((m,), e(s)))
    v.prove_eq("score", est.score_(None, None), v.sum(m, e("a")) + v.sum(m, e("b")))


def landmarks_training_as_new(v):
    """Roseland: if diag(D) K W = U diag(s), mapping the training points as new points gives the training coordinates"""
    from datafold.dynfold import dmap
    n, m, k = v.int("n", 1), v.int("m", 1), v.int("k", 1)
    r = dmap.Roseland(n_svdtriplet=k, time_exponent=1)
    U, S, W = v.array("U", (n, k)), v.array("S", (k,), pos=True), v.array("W", (m, k))
    Km, D = v.array("Km", (n, m)), v.array("D", (n,))
    new = r._nystrom(Km, svdvec_right=W, svdvals=S, normalize_diagonal=D)
    i, j = v.int("i", 0, n - 1), v.int("j", 0, k - 1)
    v.assume(D[i] * v.sum(m, lambda q: Km[i, q] * W[q, j]) == S[j] * U[i, j])
    v.prove("same coordinates", new[i, j] == U[i, j])


CONTRACTS = [harmonics_coefficients, harmonics_projection, harmonics_predict, harmonics_fit, harmonics_pairs_range, harmonics_score,
             pyramid_rules, pyramid_rules_auto, pyramid_rules_tol, pyramid_signals, pyramid_kernel, pyramid_residual, pyramid_selection, pyramid_levels,
             pyramid_one_level, pyramid_two_levels, pyramid_three_levels, pyramid_auto, pyramid_two_targets, pyramid_two_targets_auto,
             smooth_kernels, smooth_eigenpairs, smooth_two, smooth_many, smooth_nystroem, smooth_energies, landmarks_training_as_new]

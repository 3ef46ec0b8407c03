"""C17 estimators reject foreign data and keep their inputs unchanged"""
import types

import numpy as np
import pandas as pd

from vc import tables as tb
from vc.arrays import as_arr


def B():
    from datafold.dynfold import base
    return base


def TSC():
    from datafold.pcfold import TSCDataFrame
    return TSCDataFrame


def sk_n_features(v):
    """assumed contract of sklearn.BaseEstimator._check_n_features"""
    def check(self, X, reset):
        if reset:
            self.n_features_in_ = X.shape[1]
        elif hasattr(self, "n_features_in_"):
            if X.shape[1] != self.n_features_in_:
                raise ValueError("number of features")
    return check


class Frame:
    """a data frame seen by the feature checks: n columns with numeric (symbolic) names, or string names"""

    _vc_sym = True

    def __init__(self, v, name, kind=None, text=False):
        self._vc_type = kind or TSC()
        self.n = v.int(f"n_{name}", 1)
        self.names = v.array(f"names_{name}", (self.n,), dt="int")
        self.columns = Text(self.names) if text else tb.SIndex(self.names)
        self.shape = (v.int(f"N_{name}", 1), self.n)


class Text(tb.SIndex):
    """string names (symbolic codes)"""

    def __getitem__(self, k):
        return "name" if isinstance(k, int) else tb.SIndex.__getitem__(self, k)


def host(v, cls="TSCPredictMixin", **attrs):
    base = getattr(B(), cls)
    H = type("Host", (base,), {"_check_n_features": sk_n_features(v)})
    h = object.__new__(H)
    h.__dict__.update(attrs)
    return h


def differ(v, a, b):
    """the name lists are not the same"""
    return v.or_(v.not_(a.shape[0] == b.shape[0]), v.not_(v.forall(a.shape[0], lambda i: a[i] == b[i])))


def names_of_the_fit(v):
    """_validate_feature_names: raises exactly if the number, the names or their order differ from fit (states and control)"""
    X = Frame(v, "X")
    F = Frame(v, "F")
    h = host(v, n_features_in_=F.n, feature_names_in_=F.columns)
    if v.split(v.bool("controlled")):
        U, G = Frame(v, "U"), Frame(v, "G")
        h.n_control_in_, h.control_names_in_ = G.n, G.columns
        v.raises("control features", ValueError, v.or_(differ(v, X.names, F.names), differ(v, U.names, G.names)), lambda: h._validate_feature_names(X, U))
        v.frame("names unchanged", X.names, F.names, U.names, G.names)
    else:
        v.raises("features", ValueError, differ(v, X.names, F.names), lambda: h._validate_feature_names(X))
        v.frame("names unchanged", X.names, F.names)


def names_needed(v):
    """_validate_feature_names: data without feature names is refused"""
    h = host(v, n_features_in_=v.int("n", 1))
    v.raises("array", TypeError, v.num(0) == 0, lambda: h._validate_feature_names(v.array("X", (v.int("N", 1), v.int("m", 1)))))


def time_values(v):
    """_validate_time_values_format: raises exactly if a value is negative or does not increase, else the values themselves"""
    n = v.int("n", 1)
    t = v.array("t", (n,), dt="int") if v.split(v.bool("integer")) else v.array("t", (n,))
    bad = v.or_(v.not_(v.forall(n, lambda i: t[i] >= 0)), v.not_(v.forall(n - 1, lambda i: t[i] < t[i + 1])))
    r = v.raises("order", ValueError, bad, lambda: host(v)._validate_time_values_format(t))
    v.prove_eq("values", r, t)
    v.frame("unchanged", t)


def time_values_shape(v):
    """_validate_time_values_format: more dimensions are refused"""
    t = v.array("t", (v.int("n", 1), v.int("m", 1)))
    v.raises("2-d", ValueError, v.num(0) == 0, lambda: host(v)._validate_time_values_format(t))


def sampling(v):
    """_validate_delta_time: another sampling interval than in fit raises"""
    a, b = v.real("dt", pos=True), v.real("fit", pos=True)
    h = host(v, dt_=b)
    h._check_attributes_set_up = lambda check_attributes: None
    d = v.ite(a > b, a - b, b - a)
    v.raises("interval", B().TSCException, d > 1e-15 + 3e-12 * b, lambda: h._validate_delta_time(a))


def quantities(v):
    """_validate_qois: raises exactly if a requested feature does not exist"""
    n, m = v.int("n", 1), v.int("m", 1)
    q, f = v.array("q", (n,), dt="int"), v.array("f", (m,), dt="int")
    bad = v.not_(v.forall(n, lambda i: v.not_(v.forall(m, lambda j: v.not_(q[i] == f[j])))))
    r = v.raises("unknown feature", ValueError, bad, lambda: host(v)._validate_qois(q, f))
    v.prove_eq("kept", r, q)
    v.frame("unchanged", q, f)
    v.fact("none requested", host(v)._validate_qois(None, f) is None)


def transform_features(v):
    """_validate_feature_input: numeric feature names and their number have to be the ones of fit; string names go to the check of scikit-learn"""
    text, named = bool(v.split(v.bool("text"))), True
    X, F = Frame(v, "X", text=text), Frame(v, "F")
    asked = []
    h = host(v, "TSCTransformerMixin", n_features_in_=F.n, n_features_out_=v.int("out", 1), feature_names_in_=F.names)
    h._check_attributes_set_up = lambda a: None
    h._check_feature_names = lambda Y, reset: asked.append((Y, reset))
    bad = v.not_(X.n == F.n) if text else differ(v, X.names, F.names)
    v.raises("features", ValueError, bad, lambda: h._validate_feature_input(X, "transform"))
    v.fact("names checked", asked == ([(X, False)] if text else []))
    v.frame("names unchanged", X.names, F.names)


def transform_array(v):
    """_validate_feature_input: number of features of an array"""
    n, m = v.int("n", 1), v.int("m", 1)
    A = v.array("A", (v.int("N", 1), m))
    asked = []
    h = host(v, "TSCTransformerMixin", n_features_in_=n, n_features_out_=v.int("out", 1))
    h._check_attributes_set_up = lambda a: None
    h._check_feature_names = lambda Y, reset: asked.append((Y, reset))
    v.raises("number", ValueError, v.not_(n == m), lambda: h._validate_feature_input(A, "transform"))
    v.frame("unchanged", A)


def inverse_features(v):
    """_validate_feature_input: the inverse accepts exactly the features that transform returns"""
    F = Frame(v, "F")
    h = host(v, "TSCTransformerMixin", n_features_in_=v.int("n", 1), n_features_out_=F.n)
    h._check_attributes_set_up = lambda a: None
    h.get_feature_names_out = lambda *a: F.names
    if v.split(v.bool("named")):
        X = Frame(v, "X")
        v.raises("features", ValueError, differ(v, X.names, F.names), lambda: h._validate_feature_input(X, "inverse_transform"))
        v.frame("names unchanged", X.names, F.names)
    else:
        m = v.int("m", 1)
        v.raises("number", ValueError, v.not_(m == F.n), lambda: h._validate_feature_input(v.array("A", (v.int("N", 1), m)), "inverse_transform"))


def remembered(v):
    """_setup_feature_attrs_fit: the number and names of the fit data replace those of an earlier fit"""
    text = bool(v.split(v.bool("text")))
    X = Frame(v, "X", text=text)
    o = v.int("out", 1)
    asked = []
    h = host(v, "TSCTransformerMixin", n_features_in_=v.int("old", 1), feature_names_in_="old", n_features_out_=v.int("oldout", 1))
    h._check_feature_names = lambda Y, reset: asked.append((Y, reset))
    h.get_feature_names_out = lambda *a: v.array("out_names", (o,), dt="int")
    given = bool(v.split(v.bool("given")))
    h._setup_feature_attrs_fit(X, **({"n_features_out": o} if given else {}))
    v.prove("number of features", h.n_features_in_ == X.n)
    v.prove("number of returned features", h.n_features_out_ == o)
    if text:
        v.fact("names by scikit-learn", asked == [(X, True)])
    else:
        v.prove_eq("names", as_arr(h.feature_names_in_), X.names)


CONTRACTS = [names_of_the_fit, names_needed, time_values, time_values_shape, sampling, quantities, transform_features, transform_array, inverse_features, remembered]


class Done(Exception):
    pass


class Foreign(ValueError):
    pass


def T():
    from datafold.dynfold import transform
    return transform


class Data:
    """data that can only be handed to a check: any other use before the check is an error"""

    _vc_sym = True

    def __init__(self, kind):
        self._vc_type = kind
        self.columns = self

    def copy(self, deep=True):
        return self

    def astype(self, t):
        return self


def _guard(module, cls, method, direction, kind="tsc", **attrs):
    """the features of the query are checked before anything is computed, and a refusal reaches the caller"""
    def contract(v):
        mod = module()
        C = getattr(mod, cls)
        o = object.__new__(C)
        for k, a in attrs.items():
            setattr(o, k, a() if callable(a) else a)
        X = Data(TSC() if kind == "tsc" else np.ndarray)
        if hasattr(mod, "check_is_fitted"):
            v.stub(mod, "check_is_fitted", lambda *a, **k: None)
        bad = bool(v.split(v.bool("foreign")))
        seen = []

        def features(X, direction):
            seen.append((X, direction))
            raise (Foreign if bad else Done)()

        v.stub(o, "_validate_datafold_data", lambda X, **k: X)
        v.stub(o, "_validate_feature_input", features)
        try:
            getattr(o, method)(X)
        except Done:
            r = "accepted"
        except Foreign:
            r = "refused"
        else:
            r = "returned"
        v.e.live_paths += 1
        v.fact("refusal reaches the caller", r == ("refused" if bad else "accepted"))
        v.fact("the data handed in is checked, for this direction", len(seen) == 1 and seen[0][0] is X and seen[0][1] == direction)

    contract.__name__ = f"{cls}_{method}"
    contract.__doc__ = f"{cls}.{method}: " + _guard.__doc__
    return contract


def D():
    from datafold.dynfold import dmap
    return dmap


def J():
    from datafold.dynfold import jsf
    return jsf


class _Inverse:
    def transform(self, X):
        raise AssertionError

    inverse_transform = transform


CONTRACTS += [
    _guard(T, "TSCFeaturePreprocess", "transform", "transform"),
    _guard(T, "TSCFeaturePreprocess", "inverse_transform", "inverse_transform", sklearn_transformer=_Inverse),
    _guard(T, "TSCFeatureSelect", "transform", "transform"),
    _guard(T, "TSCIdentity", "transform", "transform"),
    _guard(T, "TSCIdentity", "inverse_transform", "inverse_transform"),
    _guard(T, "TSCIncrementalPCA", "transform", "transform"),
    _guard(T, "TSCIncrementalPCA", "inverse_transform", "inverse_transform"),
    _guard(T, "TSCPrincipalComponent", "transform", "transform"),
    _guard(T, "TSCPrincipalComponent", "inverse_transform", "inverse_transform"),
    _guard(T, "TSCTakensEmbedding", "transform", "transform", delta_time_fit_=1.0, delays=2, min_timesteps_=3),
    _guard(T, "TSCTakensEmbedding", "inverse_transform", "inverse_transform"),
    _guard(T, "TSCTakensEmbedding", "partial_fit", "transform", delta_time_fit_=1.0, delays=2, min_timesteps_=3),
    _guard(T, "TSCIdentity", "partial_fit", "transform", n_features_in_=2, feature_names_in_=None),
    _guard(T, "TSCPolynomialFeatures", "partial_fit", "transform", n_features_in_=2, feature_names_in_=None),
    _guard(T, "TSCFiniteDifference", "partial_fit", "transform", n_features_in_=2, feature_names_in_=None),
    _guard(T, "FourierRBF", "transform", "transform"),
    _guard(T, "TSCMovingAverage", "transform", "transform", window=3),
    _guard(T, "TSCRadialBasis", "transform", "transform"),
    _guard(T, "TSCRadialBasis", "inverse_transform", "inverse_transform"),
    _guard(T, "TSCPolynomialFeatures", "transform", "transform"),
    _guard(T, "TSCApplyLambdas", "transform", "transform"),
    _guard(T, "TSCFiniteDifference", "transform", "transform", spacing_=1.0),
    _guard(D, "DiffusionMaps", "transform", "transform"),
    _guard(D, "DiffusionMaps", "inverse_transform", "inverse_transform"),
    _guard(D, "Roseland", "transform", "transform"),
    _guard(D, "LocalRegressionSelection", "transform", "transform"),
    _guard(J, "JointlySmoothFunctions", "transform", "transform"),
]


def DM():
    from datafold.dynfold import dmd
    return dmd


def ED():
    from datafold.appfold import edmd
    return edmd


class _Call:
    """guards of a call: each either accepts or refuses; the data each of them saw"""

    def __init__(self, v, *names):
        self.v, self.seen, self.bad = v, {n: [] for n in names}, {}

    def guard(self, name, result=lambda *a, **k: None):
        def g(*a, **k):
            if name not in self.bad:
                self.bad[name] = bool(self.v.split(self.v.bool(f"refused by {name}")))
            self.seen[name].append((a, k))
            if self.bad[name]:
                raise Foreign(name)
            return result(*a, **k)
        return g

    def run(self, f, *required):
        """f reaches its computation exactly if every guard accepts"""
        try:
            f()
        except Done:
            r = True
        except Foreign:
            r = False
        else:
            r = None
        self.v.e.live_paths += 1
        self.v.fact("a refusal reaches the caller before any result", r is (not any(self.bad.values())))
        if r:
            for n in required:
                self.v.fact(f"checked: {n}", len(self.seen[n]) > 0)
        return r


def done(*a, **k):
    raise Done()


def dmd_predict(v):
    """DMDBase.predict: time values, initial condition and feature names are checked before the system is evolved"""
    dm = DM()
    o = object.__new__(type("H", (dm.DMDBase,), {"__abstractmethods__": frozenset(), "fit": None}))
    c = _Call(v, "time", "ic", "names")
    X, t = Data(TSC()), Data(np.ndarray)
    v.stub(dm, "check_is_fitted", lambda *a, **k: None)
    v.stub(dm.InitialCondition, "validate", c.guard("ic", lambda *a, **k: True))
    o._validate_and_set_time_values_predict = c.guard("time", lambda **k: t)
    o._validate_feature_names = c.guard("names")
    o._validate_time_values_format = lambda time_values: time_values
    o._validate_datafold_data = lambda X, **k: X
    o._read_predict_params = lambda predict_params: (None, None, None)
    o._read_user_sys_matrix = lambda post_map, user_set_modes: None
    ev = []
    o._evolve_dmd_system = lambda **k: ev.append(k) or done()
    if c.run(lambda: o.predict(X, time_values=t), "time", "ic", "names"):
        v.fact("the data handed in is evolved", ev[0]["X_ic"] is X and ev[0]["time_values"] is t)
        v.fact("names of the initial condition", X in c.seen["names"][0][0] or X in c.seen["names"][0][1].values())
        v.fact("initial condition", X in c.seen["ic"][0][0] or X in c.seen["ic"][0][1].values())
    else:
        v.fact("nothing computed", not ev)


def dmd_predict_controlled(v):
    """DMDBase.predict with control: the control time series, its sampling and its feature names are checked as well"""
    dm = DM()
    flow = bool(v.split(v.bool("flowmap")))
    many = bool(v.split(v.bool("more than one control step")))
    H = type("H", (dm.DMDBase,), {"fit": None, "is_flowmap_system": property(lambda s: flow), "is_controlled": property(lambda s: True)})
    o = object.__new__(H)
    c = _Call(v, "time", "ic", "names", "control", "data", "sampling")
    X, t, U = Data(TSC()), Data(np.ndarray), Data(TSC())
    U.delta_time = object()
    U.time_values = lambda: [0, 1] if many else [0]
    v.stub(dm, "check_is_fitted", lambda *a, **k: None)
    v.stub(dm.InitialCondition, "validate", c.guard("ic", lambda *a, **k: True))
    v.stub(dm.InitialCondition, "validate_control", c.guard("control", lambda *a, **k: True))
    o._validate_and_set_time_values_predict = c.guard("time", lambda **k: t)
    o._validate_feature_names = c.guard("names")
    o._validate_delta_time = c.guard("sampling")
    o._validate_time_values_format = lambda time_values: time_values
    o._validate_datafold_data = c.guard("data", lambda X, **k: X)
    o._read_predict_params = lambda predict_params: (None, None, None)
    o._read_user_sys_matrix = lambda post_map, user_set_modes: None
    ev = []
    o._evolve_dmd_system = lambda **k: ev.append(k) or done()
    if c.run(lambda: o.predict(X, U=U), "time", "ic", "names", "control", "data", *(["sampling"] if flow and many else [])):
        v.fact("the data handed in is evolved", ev[0]["X_ic"] is X and ev[0]["time_values"] is t and ev[0]["control_input"] is U)
        a, k = c.seen["names"][0]
        v.fact("names of states and control", [*a, *k.values()] == [X, U])
        a, k = c.seen["control"][0]
        v.fact("control of these initial conditions", (k.get("X_ic"), k.get("U")) == (X, U) or list(a) == [X, U])
    else:
        v.fact("nothing computed", not ev)


def dmd_reconstruct(v):
    """DMDBase.reconstruct: data and feature names are checked before any prediction"""
    dm = DM()
    o = object.__new__(type("H", (dm.DMDBase,), {"__abstractmethods__": frozenset(), "fit": None}))
    c = _Call(v, "data", "names")
    X = Data(TSC())
    v.stub(dm, "check_is_fitted", lambda *a, **k: None)
    o._validate_datafold_data = c.guard("data", lambda X, **k: X)
    o._validate_feature_names = c.guard("names")
    v.stub(dm.InitialCondition, "iter_reconstruct_ic", done)
    c.run(lambda: o.reconstruct(X), "data", "names")


class _Tsc:
    _vc_sym = True

    def __init__(self, f):
        self.f = f

    def shift_matrices(self, *a, **k):
        return self.f()


def _stream(cls):
    def contract(v):
        dm = DM()
        o = object.__new__(type("H", (getattr(dm, cls),), {"ready_": True}))
        o.dt_ = v.real("dt", pos=True)
        c = _Call(v, "names", "sampling")
        X = Data(TSC())
        X.delta_time = object()
        X.tsc = _Tsc(done)
        o._validate_parameter = lambda: None
        v.stub(dm, "check_is_fitted", lambda *a, **k: None)
        o._validate_datafold_data = lambda X, **k: X
        o._validate_feature_names = c.guard("names")
        o._validate_delta_time = c.guard("sampling")
        o.basic_init_, o.A, o._basic_initialize = True, v.array("A", (2, 2)), lambda X: None
        before = dict(o.__dict__)
        if c.run(lambda: o.partial_fit(X), "names", "sampling") is False:
            v.fact("model unchanged", o.__dict__ == before)
        a, k = c.seen["sampling"][0] if c.seen["sampling"] else ((X.delta_time,), {})
        v.fact("sampling of this data", X.delta_time in a or X.delta_time in k.values())
    contract.__name__ = f"{cls}_partial_fit"
    contract.__doc__ = f"{cls}.partial_fit: data with other features or sampling than the fitted data is refused and leaves the model as it was"
    return contract


def edmd_predict(v):
    """EDMD.predict: time values, initial condition, features and requested quantities are checked before the prediction"""
    ed = ED()
    stepwise = bool(v.split(v.bool("stepwise")))
    controlled = bool(v.split(v.bool("controlled")))
    H = type("H", (ed.EDMD,), {"is_controlled_": property(lambda s: controlled)})
    o = object.__new__(H)
    c = _Call(v, "time", "ic", "names", "control", "qois", "data")
    X, t, q = Data(TSC()), Data(np.ndarray), object()
    U = Data(TSC()) if controlled else None
    v.stub(ed, "check_is_fitted", lambda *a, **k: None)
    ic = []
    v.stub(ed.InitialCondition, "validate", c.guard("ic", lambda *a, **k: ic.append((a, k)) or True))
    v.stub(ed.InitialCondition, "validate_control", c.guard("control", lambda *a, **k: True))
    o._validate_and_set_time_values_predict = c.guard("time", lambda **k: t)
    o._validate_feature_names = c.guard("names")
    o._validate_qois = c.guard("qois", lambda qois, valid_feature_names: qois)
    o._validate_datafold_data = c.guard("data", lambda X, **k: X)
    o.n_samples_ic_, o.dt_, o.stepwise_transform = v.int("n_samples_ic", 1), v.real("dt", pos=True), stepwise
    o._feature_names_pred = object()
    ev = []
    o.transform = lambda X: X
    o._predict_stepwise_transform = lambda X, U, time_values, qois: ev.append(("step", X, U, time_values, qois)) or done()
    o._predict_dict_ic = lambda X_dict, U, time_values, qois: ev.append(("dict", X_dict, U, time_values, qois)) or done()
    if c.run(lambda: o.predict(X, U=U, time_values=t, qois=q), "time", "ic", "names", "qois", *(["control"] if controlled else [])):
        v.fact("what was asked", ev == [("step" if stepwise else "dict", X, U, t, q)])
        v.prove("samples of an initial condition", ic[0][1]["n_samples_ic"] == o.n_samples_ic_)
        if v.split(o.n_samples_ic_ > 1):
            v.fact("their sampling", ic[0][1]["dt"] is o.dt_)
    else:
        v.fact("nothing computed", not ev)


def edmd_reconstruct(v):
    """EDMD.reconstruct: series that are too short, other features or quantities are refused before the reconstruction"""
    ed = ED()
    o = object.__new__(ed.EDMD)
    c = _Call(v, "data", "names", "qois")
    X, q = Data(TSC()), object()
    v.stub(ed, "check_is_fitted", lambda *a, **k: None)
    o._validate_datafold_data = c.guard("data", lambda X, **k: X)
    o._validate_feature_names = c.guard("names")
    o._validate_qois = c.guard("qois", lambda qois, valid_feature_names: qois)
    o.n_samples_ic_ = v.int("n_samples_ic", 1)
    v.stub(ed.EDMD, "feature_names_pred_", None)
    o._reconstruct = lambda **k: done()
    if c.run(lambda: o.reconstruct(X, qois=q), "data", "names", "qois"):
        k = c.seen["data"][0][1]
        v.prove("samples of a series", k["tsc_kwargs"]["ensure_min_timesteps"] == o.n_samples_ic_ + 1)
        v.fact("time series", k["ensure_tsc"] is True)


CONTRACTS += [dmd_predict, dmd_predict_controlled, dmd_reconstruct, _stream("StreamingDMD"), _stream("OnlineDMD"), edmd_predict, edmd_reconstruct]


class _Ic(Data):
    """initial conditions whose last samples are at the (distinct) times `ref`"""

    def __init__(self, ref):
        super().__init__(TSC())
        self.ref = ref

    def final_states(self, n_samples=1):
        return _Times(self.ref)


class _Times(Data):
    def __init__(self, t):
        super().__init__(TSC())
        self.t = t

    def time_values(self):
        return self.t


def _time_host(v):
    h = host(v, dt_=v.real("dt", pos=True))
    h._requires_last_control_state = last = bool(v.split(v.bool("control at the last state")))
    return h, (0 if last else 1)


def _reference(v):
    """a single time reference: np.unique of it is assumed to return it"""
    r = v.array("ref", (1,))
    v.assume(r[0] >= 0)
    v.model(np.unique, lambda a, **k: r)
    return _Ic(r), r[0]


def times_default(v):
    """without time values an uncontrolled prediction goes one step from the time of the initial condition"""
    h, _ = _time_host(v)
    X, r = _reference(v)
    t = h._validate_and_set_time_values_predict(None, X, None)
    v.prove_eq("two time values", t.shape[0], 2)
    v.prove("start", t[0] == r)
    v.prove("one step", t[1] == r + h.dt_)


def times_of_array_control(v):
    """control input in an array: one time value per control state (and one more where the last state needs none)"""
    h, more = _time_host(v)
    X, r = _reference(v)
    n = v.int("n", 1)
    U = v.array("U", (n, v.int("p", 1)))
    t = h._validate_and_set_time_values_predict(None, X, U)
    v.prove_eq("time values", t, v.arr_fn((n + more,), lambda k: r + k * h.dt_))
    v.frame("control unchanged", U)


def times_of_control(v):
    """control time series: the time values of the control, and one more step where the last state needs no control"""
    h, more = _time_host(v)
    X, r = _reference(v)
    n = v.int("n", 1)
    u = v.array("u", (n,))
    v.assume_forall(n, lambda k: u[k] >= r)
    t = h._validate_and_set_time_values_predict(None, X, _Times(u))
    v.prove_eq("number", t.shape[0], n + more)
    k = v.int("k", 0, n - 1)
    v.prove("times of the control", t[k] == u[k])
    if more:
        v.prove("one more step", t[n] == u[n - 1] + h.dt_)
    v.frame("unchanged", u)


def times_requested(v):
    """requested time values: kept, refused if one lies before the initial condition, whose own time is put in front if it is not the first"""
    h, _ = _time_host(v)
    X, r = _reference(v)
    n = v.int("n", 1)
    t = v.array("t", (n,))
    v.stub(h, "_validate_time_values_format", lambda time_values: time_values)
    tol = 1e-14
    out = v.raises("before the initial condition", ValueError, v.not_(v.forall(n, lambda k: t[k] >= r - tol)), lambda: h._validate_and_set_time_values_predict(t, X, None))
    k = v.int("k", 0, n - 1)
    if v.split(v.and_(t[0] - r <= tol, r - t[0] <= tol)):
        v.prove_eq("number", out.shape[0], n)
        v.prove("kept", out[k] == t[k])
    else:
        v.prove_eq("number with the start", out.shape[0], n + 1)
        v.prove("start", out[0] == r)
        v.prove("kept", out[k + 1] == t[k])
    v.frame("unchanged", t)


def times_and_array_control(v):
    """requested time values and control in an array: refused exactly if their numbers do not fit"""
    h, more = _time_host(v)
    n, m = v.int("n", 1), v.int("m", 1)
    t, U = v.array("t", (n,)), v.array("U", (m, v.int("p", 1)))
    v.stub(h, "_validate_time_values_format", lambda time_values: time_values)
    X = v.array("X", (1, v.int("q", 1)))
    out = v.raises("numbers", ValueError, v.not_(n == m + more), lambda: h._validate_and_set_time_values_predict(t, X, U))
    v.prove_eq("kept", out, t)
    v.frame("unchanged", t, U, X)


def times_and_control(v):
    """requested time values and a control time series: refused exactly if they differ"""
    h, more = _time_host(v)
    X, r = _reference(v)
    n, m = v.int("n", 1), v.int("m", 1)
    t, u = v.array("t", (n,)), v.array("u", (m,))
    v.assume_forall(m, lambda k: u[k] >= r)
    v.assume_forall(n, lambda k: t[k] >= r)
    v.stub(h, "_validate_time_values_format", lambda time_values: time_values)
    tol = 1e-14
    near = lambda a, b: v.and_(a - b <= tol, b - a <= tol)
    same = v.and_(n == m + more, v.forall(m, lambda k: near(t[k], u[k])))
    if more:
        same = v.and_(same, near(t[n - 1], u[m - 1] + h.dt_))
    v.raises("times", ValueError, v.not_(same), lambda: h._validate_and_set_time_values_predict(t, X, _Times(u)))
    v.frame("unchanged", t, u)


def times_reference(v):
    """initial conditions that do not end at the same time are refused"""
    h, _ = _time_host(v)
    n = v.int("n", 2)
    v.model(np.unique, lambda a, **k: v.array("refs", (n,)))
    v.raises("several references", ValueError, v.num(0) == 0, lambda: h._validate_and_set_time_values_predict(None, _Ic(v.array("refs0", (n,))), None))


CONTRACTS += [times_default, times_of_array_control, times_of_control, times_requested, times_and_array_control, times_and_control, times_reference]


def CO():
    from datafold.pcfold.timeseries import collection
    return collection


_OPTIONS = dict(ensure_same_length=False, ensure_const_delta_time=False, ensure_delta_time=None, ensure_same_time_values=False, ensure_normalized_time=False,
                ensure_n_timeseries=None, ensure_n_timesteps=None, ensure_min_timesteps=None, ensure_no_degenerate_ts=False, ensure_dtype_time=None)


def checked_collection(v):
    """_validate_datafold_data: a collection goes through check_tsc with exactly the requested checks; its refusal reaches the caller"""
    h = host(v)
    X, out, mark = Data(TSC()), Data(TSC()), object()
    X.columns = types.SimpleNamespace(ndim=1)
    names = [None, *_OPTIONS]
    k = next((i for i, a in enumerate(names) if a and v.split(v.bool(a))), 0)
    seen = []
    bad = bool(v.split(v.bool("refused")))

    def check(**kw):
        seen.append(kw)
        if bad:
            raise Foreign()
        return out

    X.tsc = types.SimpleNamespace(check_tsc=check)
    m = v.int("min samples", 1)
    fin = bool(v.split(v.bool("finite")))
    opts = {} if names[k] is None else {names[k]: mark}
    given = dict(opts)
    try:
        r = h._validate_datafold_data(X, ensure_tsc=True, force_all_finite=fin, ensure_min_samples=m, tsc_kwargs=opts or None, array_kwargs=dict(ensure_2d=False))
    except Foreign:
        r = None
    v.e.live_paths += 1
    v.fact("result", r is (None if bad else out))
    v.fact("one check", len(seen) == 1)
    want = dict(_OPTIONS, **given)
    v.fact("requested checks", all(seen[0].get(a, b) is b for a, b in want.items()) and seen[0]["ensure_all_finite"] is fin and seen[0]["ensure_min_samples"] is m)
    v.fact("no other check", set(seen[0]) <= {*_OPTIONS, "ensure_all_finite", "ensure_min_samples", "ensure_min_features"})


def checked_array(v):
    """_validate_datafold_data: arrays go through check_array of scikit-learn with the requested limits; collections are refused where arrays are needed and the other way round"""
    h = host(v)
    A = v.array("A", (v.int("N", 1), v.int("n", 1)))
    X = Data(TSC())
    X.columns = types.SimpleNamespace(ndim=1)
    seen = []
    v.stub(B(), "check_array", lambda Y, **k: seen.append((Y, k)) or Y)
    m, q = v.int("min samples", 1), v.int("min features", 1)
    fin = bool(v.split(v.bool("finite")))
    v.raises("collection needed", TypeError, v.num(0) == 0, lambda: h._validate_datafold_data(A, ensure_tsc=True)) if v.split(v.bool("t")) else None
    v.raises("array needed", TypeError, v.num(0) == 0, lambda: h._validate_datafold_data(X, ensure_np=True)) if v.split(v.bool("a")) else None
    v.raises("both", ValueError, v.num(0) == 0, lambda: h._validate_datafold_data(A, ensure_np=True, ensure_tsc=True)) if v.split(v.bool("b")) else None
    v.raises("unknown option", ValueError, v.num(0) == 0, lambda: h._validate_datafold_data(A, array_kwargs=dict(what=1))) if v.split(v.bool("u")) else None
    seen.clear()
    r = h._validate_datafold_data(A, ensure_np=True, force_all_finite=fin, ensure_min_samples=m, ensure_min_features=q, array_kwargs=dict(ensure_2d=False), tsc_kwargs=dict(ensure_n_timeseries=3))
    v.fact("returned", r is A)
    k = seen[0][1]
    v.fact("check", len(seen) == 1 and seen[0][0] is A and k["force_all_finite"] is fin and k["ensure_min_samples"] is m and k["ensure_min_features"] is q and k["ensure_2d"] is False and k["copy"] is False)
    v.frame("unchanged", A)


def initial_condition(v):
    """InitialCondition.validate: the number of samples, their sampling, equal lengths and times and finite values are checked"""
    X = Data(TSC())
    K = v.int("K", 1)
    X.n_timesteps = v.array("m", (K,), dt="int", pos=True)
    X.ids = None
    seen = []
    bad = bool(v.split(v.bool("refused")))

    def check(**k):
        seen.append(k)
        if bad:
            raise Foreign()

    X.tsc = types.SimpleNamespace(check_tsc=check)
    n = v.int("n", 1)
    dt = v.real("dt", pos=True) if v.split(v.bool("sampling")) else None
    V = CO().InitialCondition.validate
    try:
        if dt is None:
            r = V(X, n_samples_ic=n)
        else:
            r = v.raises("one sample has no sampling", ValueError, n == 1, lambda: V(X, n_samples_ic=n, dt=dt)) if not bad else V(X, n_samples_ic=n, dt=dt)
    except Foreign:
        r = "refused"
    except ValueError:
        v.end()
    v.e.live_paths += 1
    v.fact("result", r == ("refused" if bad else True))
    k = seen[0]
    v.fact("samples", k["ensure_n_timesteps"] is n)
    v.fact("sampling", k["ensure_delta_time"] is dt)
    v.fact("equal lengths, times, finite", k["ensure_same_length"] is True and k["ensure_all_finite"] is True and k["ensure_same_time_values"] is True)
    many = v.not_(v.forall(K, lambda i: X.n_timesteps[i] <= 1))
    v.prove("constant sampling where there is more than one sample", v.iff(k["ensure_const_delta_time"] if not isinstance(k["ensure_const_delta_time"], bool) else (v.num(0) == (0 if k["ensure_const_delta_time"] else 1)), many))


def initial_condition_kind(v):
    """InitialCondition.validate: arrays are refused"""
    v.raises("array", TypeError, v.num(0) == 0, lambda: CO().InitialCondition.validate(v.array("A", (v.int("N", 1), v.int("n", 1))), n_samples_ic=1))


def initial_control(v):
    """InitialCondition.validate_control: the series of the control are those of the states, in order, share their times, and start where the states end"""
    c = _Call(v, "ids", "times")
    X, U = Data(TSC()), Data(TSC())
    U.ids = object()
    a, b = v.array("last", (1,)), v.array("first", (1,))
    X.tsc = types.SimpleNamespace(check_contain_required_ids=c.guard("ids"))
    U.tsc = types.SimpleNamespace(check_equal_timevalues=c.guard("times"))
    X.final_states = lambda n: _Times(a)
    U.initial_states = lambda n: _Times(b)
    late = v.not_(a[0] == b[0])
    try:
        CO().InitialCondition.validate_control(X_ic=X, U=U)
    except Foreign:
        v.fact("refused by a check", any(c.bad.values()))
    except CO().TSCException:
        v.prove("refused because of the start", late)
    else:
        v.prove("start of the control", v.not_(late))
        v.fact("every check ran and accepted", c.bad == dict(ids=False, times=False))
    v.e.live_paths += 1
    if c.seen["ids"]:
        k = c.seen["ids"][0][1]
        v.fact("series", k.get("required_ids") is U.ids and k.get("check_order") is True)


CONTRACTS += [checked_collection, checked_array, initial_condition, initial_condition_kind, initial_control]

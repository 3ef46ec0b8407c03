"""C05 errors and scores of time series"""
import numpy as np
from sklearn import metrics as skm


def M():
    from datafold.pcfold.timeseries import metric
    return metric


def _sk():
    """scikit-learn's metrics by their documented formulas"""
    from vc import models
    from vc.models import MODELS, USED
    from vc.arrays import as_arr

    def agg(e, out):
        if isinstance(out, str):
            return e if out == "raw_values" else models.np_mean(e)
        return models.np_average(e, weights=out)

    def wrap(f, name):
        def g(y_true, y_pred, sample_weight=None, multioutput="uniform_average", squared=True):
            USED.add(f"sklearn.metrics.{name}: its documented formula")
            a, b = as_arr(y_true), as_arr(y_pred)
            e = models.np_average(f(a, b), axis=0, weights=sample_weight)
            if name == "mean_squared_error" and not squared:
                e = models.MODELS[np.sqrt](e)
            return agg(e, multioutput)

        return g

    MODELS[skm.mean_squared_error] = wrap(lambda a, b: (a - b) ** 2, "mean_squared_error")
    MODELS[skm.mean_absolute_error] = wrap(lambda a, b: abs(a - b), "mean_absolute_error")

    def max_error(y_true, y_pred):
        USED.add("sklearn.metrics.max_error: its documented formula")
        a, b = as_arr(y_true), as_arr(y_pred)
        return models.np_max(abs(a - b))

    MODELS[skm.max_error] = max_error


def _metric(name, mode):
    _sk()
    t = M().TSCMetric(metric=name, mode=mode)
    return t


def _error(v, name, y, p, m, w):
    """textbook error of one feature over m samples; y, p, w: functions of the sample"""
    ww = w or (lambda r: 1.0)
    tot = v.sum(m, ww) if w else m
    d = lambda r: y(r) - p(r)
    if name in ("mse", "rmse"):
        q = v.sum(m, lambda r: ww(r) * d(r) * d(r)) / tot
        return q if name == "mse" else v.sqrt(q)
    if name == "mae":
        return v.sum(m, lambda r: ww(r) * abs(d(r))) / tot
    if name == "l2":
        return v.sqrt(v.sum(m, lambda r: ww(r) * d(r) * ww(r) * d(r)))
    raise KeyError(name)


def _pair(v, **kw):
    from vc import tables
    X = tables.tensor_collection(v, "X", **kw)
    P = v.array("P", (X.K, X.m, X.n))
    Y = tables.grid(v, P, X.ids_, X.times_, X.columns)
    return X, Y, P


def _choose(v, names):
    for q in names[:-1]:
        if v.split(v.bool(f"is_{q}")):
            return q
    return names[-1]


def _total(v, X, m, w):
    if w is not None:
        v.assume(v.sum(m, lambda r: w[r]) > 0)


def _get(r, k, j):
    """entry of a result that is a series if it has one column"""
    return r.v[k, j] if r.v.ndim == 2 else r.v[k]


def per_series(v):
    """one error per series (and feature): the formula over the samples of that series only"""
    X, Y, P = _pair(v)
    name = _choose(v, ["mse", "rmse", "mae", "l2"])
    r = _metric(name, "timeseries")._metric_per_timeseries(X, Y, sample_weight=None, multioutput="raw_values")
    k, j = v.int("k", 0, X.K - 1), v.int("j", 0, X.n - 1)
    want = _error(v, name, lambda q: X.val[k, q, j], lambda q: P[k, q, j], X.m, None)
    v.prove_eq("one row per series", r.shape[0], X.K)
    v.prove("rows labelled with the series", r.index.a[k] == X.ids_[k])
    v.prove("error of every series and feature", _get(r, k, j) == want)
    v.frame("data unchanged", X.val, P)


def per_series_weights(v):
    """sample weights act as weighted mean over the time steps of each series"""
    X, Y, P = _pair(v)
    name = _choose(v, ["mse", "rmse", "mae", "l2"])
    w = v.array("w", (X.m,), pos=True)
    _total(v, X, X.m, w)
    r = _metric(name, "timeseries")._metric_per_timeseries(X, Y, sample_weight=w, multioutput="raw_values")
    k, j = v.int("k", 0, X.K - 1), v.int("j", 0, X.n - 1)
    v.prove("error of every series and feature", _get(r, k, j) == _error(v, name, lambda q: X.val[k, q, j], lambda q: P[k, q, j], X.m, lambda q: w[q]))
    v.frame("data unchanged", X.val, P, w)


def _mean_of(v, X, P, k, name, u):
    """(weighted) mean over the features of the errors of the features"""
    f = lambda j: _error(v, name, lambda q: X.val[k, q, j], lambda q: P[k, q, j], X.m, None)
    if u is None:
        return v.sum(X.n, f) / X.n
    return v.sum(X.n, lambda j: u[j] * f(j)) / v.sum(X.n, lambda j: u[j])


def per_series_uniform(v):
    """uniform average over the features"""
    X, Y, P = _pair(v)
    name = _choose(v, ["mse", "mae", "l2"])
    r = _metric(name, "timeseries")._metric_per_timeseries(X, Y, multioutput="uniform_average")
    k = v.int("k", 0, X.K - 1)
    v.fact("one value per series", r.v.ndim == 1)
    v.prove("mean error of every series", r.v[k] == _mean_of(v, X, P, k, name, None))


def per_series_feature_weights(v):
    """weights of the features act as weighted mean over the errors of the features"""
    X, Y, P = _pair(v)
    name = _choose(v, ["mse", "mae", "l2"])
    u = v.array("u", (X.n,), pos=True)
    v.assume(v.sum(X.n, lambda j: u[j]) > 0)
    r = _metric(name, "timeseries")._metric_per_timeseries(X, Y, multioutput=u)
    k = v.int("k", 0, X.K - 1)
    v.fact("one value per series", r.v.ndim == 1)
    v.prove("weighted mean error of every series", r.v[k] == _mean_of(v, X, P, k, name, u))
    v.frame("weights unchanged", u)


def per_timestep(v):
    """one error per time: the formula over the samples of all series at that time only"""
    X, Y, P = _pair(v)
    name = _choose(v, ["mse", "rmse", "mae", "l2"])
    weighted = bool(v.split(v.bool("weighted")))
    w = v.array("w", (X.K,), pos=True) if weighted else None
    _total(v, X, X.K, w)
    r = _metric(name, "timestep")._metric_per_timestep(X, Y, sample_weight=w, multioutput="raw_values")
    q, j = v.int("q", 0, X.m - 1), v.int("j", 0, X.n - 1)
    want = _error(v, name, lambda k: X.val[k, q, j], lambda k: P[k, q, j], X.K, (lambda k: w[k]) if weighted else None)
    v.prove_eq("one row per time", r.shape[0], X.m)
    v.prove("rows labelled with the time", r.index.a[q] == X.times_[q])
    v.prove("error of every time and feature", _get(r, q, j) == want)
    v.frame("data unchanged", X.val, P)


class Rows:
    """collections whose structure does not matter: rows x features"""

    _vc_sym = True

    def __init__(self, a, cols):
        self.a, self.columns, self.shape, self.index = a, cols, a.shape, "index"

    def to_numpy(self):
        return self.a

    def _vc_values(self):
        return self.a


def per_feature(v):
    """one error per feature: the formula over all samples"""
    from vc.tables import Cols
    N, n = v.int("N", 1), v.int("n", 1)
    A, B = v.array("A", (N, n)), v.array("B", (N, n))
    cols = Cols(n)
    name = _choose(v, ["mse", "rmse", "mae", "l2"])
    weighted = bool(v.split(v.bool("weighted")))
    w = v.array("w", (N,), pos=True) if weighted else None
    _total(v, None, N, w)
    r = _metric(name, "feature")._metric_per_feature(Rows(A, cols), Rows(B, cols), sample_weight=w)
    j = v.int("j", 0, n - 1)
    v.fact("labelled with the features", r.index is cols)
    v.prove_eq("one value per feature", r.v.shape[0], n)
    v.prove("error of every feature", r.v[j] == _error(v, name, lambda q: A[q, j], lambda q: B[q, j], N, (lambda q: w[q]) if weighted else None))
    v.frame("data unchanged", A, B)


def relative(v):
    """rrmse per feature: root of the mean square error relative to the squared magnitude of the truth"""
    _sk()
    N, n = v.int("N", 1), v.int("n", 1)
    A, B = v.array("A", (N, n)), v.array("B", (N, n))
    m = M().TSCMetric(metric="rrmse", mode="feature")
    j = v.int("j", 0, n - 1)
    S = lambda j: v.sum(N, lambda q: A[q, j] * A[q, j])
    r = v.unless(RuntimeError, lambda: v.lib(m.metric, A, B, multioutput="raw_values"))
    v.prove("root of mse over squared magnitude", r[j] == v.sqrt(_error(v, "mse", lambda q: A[q, j], lambda q: B[q, j], N, None) / S(j)))
    v.frame("data unchanged", A, B)


def relative_average(v):
    """rrmse averaged over the features: relative to the squared magnitude of all features"""
    _sk()
    N, n = v.int("N", 1), v.int("n", 1)
    A, B = v.array("A", (N, n)), v.array("B", (N, n))
    m = M().TSCMetric(metric="rrmse", mode="timeseries")
    r = v.unless(RuntimeError, lambda: v.lib(m.metric, A, B, multioutput="uniform_average"))
    S = v.sum(N, lambda q: v.sum(n, lambda j: A[q, j] * A[q, j]))
    mse = v.sum(n, lambda j: _error(v, "mse", lambda q: A[q, j], lambda q: B[q, j], N, None)) / n
    v.prove("root of mse over squared magnitude", r == v.sqrt(mse / S))


def identical(v):
    """the error of identical data is zero, for every metric and weighting"""
    _sk()
    N, n = v.int("N", 1), v.int("n", 1)
    A = v.array("A", (N, n))
    name = _choose(v, ["mse", "rmse", "mae", "l2", "linf", "max"])
    if name == "max":
        A = v.array("A1", (N, 1))
        r = v.lib(M().TSCMetric(metric=name, mode="feature").metric, A, A, multioutput="raw_values")
        v.prove("zero", r == 0)
        return
    w = v.array("w", (N,), pos=True) if v.split(v.bool("weighted")) else None
    _total(v, None, N, w)
    r = v.lib(M().TSCMetric(metric=name, mode="feature").metric, A, A, sample_weight=w, multioutput="raw_values")
    v.prove("zero", r[v.int("j", 0, n - 1)] == 0)


def largest(v):
    """linf and max: an error of some sample, no sample has a larger one"""
    _sk()
    N, n = v.int("N", 1), v.int("n", 1)
    A, B = v.array("A", (N, n)), v.array("B", (N, n))
    q, j = v.int("q", 0, N - 1), v.int("j", 0, n - 1)
    r = v.lib(M().TSCMetric(metric="linf", mode="feature").metric, A, B, multioutput="raw_values")
    v.prove("no error above it", abs(A[q, j] - B[q, j]) <= r[j])
    v.prove("attained", v.not_(v.forall(N, lambda s: abs(A[s, j] - B[s, j]) < r[j])))


def scaling(v):
    """l2 scaling divides truth and prediction by the norms of the truth"""
    N, n, K = v.int("N", 1), v.int("n", 1), v.int("K", 1)
    A, B = v.array("A", (N, n)), v.array("B", (K, n))
    s = M()._FeatureL2Scaler()
    a = s.fit_transform(A)
    b = s.transform(B)
    i, k, j = v.int("i", 0, N - 1), v.int("k", 0, K - 1), v.int("j", 0, n - 1)
    nrm = v.sqrt(v.sum(N, lambda q: A[q, j] * A[q, j]))
    c = v.ite(nrm == 0, 1.0, nrm)
    v.prove("truth", a[i, j] * c == A[i, j])
    v.prove("prediction", b[k, j] * c == B[k, j])
    v.frame("data unchanged", A, B)


def scaled_labels(v):
    """scaling keeps series, times and features"""
    X, Y, P = _pair(v)
    m = M().TSCMetric(metric="mse", mode="feature", scaling="l2_normalize")
    a, b = m._scaling(X, Y)
    k, q, j = v.int("k", 0, X.K - 1), v.int("q", 0, X.m - 1), v.int("j", 0, X.n - 1)
    v.fact("labels", a.index is X.index and b.index is X.index and a.columns is X.columns and b.columns is X.columns)
    S = v.sqrt(v.sum(X.shape[0], lambda p: X.v[p, j] * X.v[p, j]))
    c = v.ite(S == 0, 1.0, S)
    p = k * X.m + q
    v.prove("truth", a.v[p, j] * c == X.v[p, j])
    v.prove("prediction", b.v[p, j] * c == Y.v[p, j])
    v.frame("data unchanged", X.val, P)


class Errors:
    _vc_sym = True

    def __init__(self, e):
        import pandas as pd
        self.e, self._vc_type, self.shape = e, pd.Series, e.shape

    def to_numpy(self):
        return self.e

    def _vc_len(self):
        return self.e.shape[0]


def score(v):
    """the score is minus the (weighted) mean of the errors; with greater_is_better the mean"""
    n = v.int("n", 1)
    e = v.array("e", (n,))
    w = v.array("w", (n,), pos=True) if v.split(v.bool("weighted")) else None
    _total(v, None, n, w)
    up = bool(v.split(v.bool("greater_is_better")))
    seen = []

    class Met:
        _vc_sym = True

        def __call__(self, y_true, y_pred, sample_weight=None, multioutput=None):
            seen.append((y_true, y_pred, multioutput))
            return Errors(e)

    s = M().TSCScoring(Met(), greater_is_better=up)
    A, B = v.array("A", (n, 1)), v.array("B", (n, 1))
    r = s(A, B, sample_weight=w)
    mean = v.sum(n, lambda i: e[i]) / n if w is None else v.sum(n, lambda i: w[i] * e[i]) / v.sum(n, lambda i: w[i])
    v.prove("score", r == (mean if up else -mean))
    v.fact("errors of the given data, averaged over the features", len(seen) == 1 and seen[0] == (A, B, "uniform_average") or (seen[0][0] is A and seen[0][1] is B and seen[0][2] == "uniform_average"))
    v.frame("errors unchanged", e)


class Checked:
    """a collection whose finiteness is p"""

    _vc_sym = True
    _vc_type = None

    def __init__(self, log, tag):
        import types
        from datafold.pcfold.timeseries.collection import TSCDataFrame
        self._vc_type = TSCDataFrame
        self.index = self.columns = tag
        self.tsc = types.SimpleNamespace(check_finite=lambda: log.append(tag))


def only_equal_rows(v):
    """rows with different labels are rejected before anything is computed"""
    import pandas as pd
    log = []
    same = v.bool("same labels")
    asked = []

    def cmp(a, b, check_index=True, check_column=True, check_names=True, handle="raise"):
        asked.append((check_index, check_column))
        if handle == "raise":
            if not v.split(same):
                raise ValueError
            return True
        return bool(v.split(same))

    v.stub(M(), "is_df_same_index", cmp)
    m = M().TSCMetric(metric="mse", mode=_choose(v, ["timeseries", "timestep", "feature"]))
    e = v.array("e", (3,))

    class Res:
        _vc_sym = True
        _vc_type = pd.Series

        def isnull(self):
            return np.zeros(1, bool)

    for q in ("_metric_per_timeseries", "_metric_per_timestep", "_metric_per_feature"):
        setattr(m, q, lambda *a, q=q, **k: (log.append(q), Res())[1])
    a, b = Checked(log, "y_true"), Checked(log, "y_pred")
    v.raises("different rows", ValueError, v.not_(same), lambda: m(a, b))
    v.fact("finiteness of both is checked", "y_true" in log and "y_pred" in log)
    v.fact("rows and columns compared", asked and all(x == (True, True) for x in asked))
    v.fact("the mode decides", log[-1] == "_metric_per_" + {"timeseries": "timeseries", "timestep": "timestep", "feature": "feature"}[m.mode])


CONTRACTS = [per_series, per_series_weights, per_series_uniform, per_series_feature_weights, per_timestep, per_feature, relative, relative_average,
             identical, largest, scaling, scaled_labels, score, only_equal_rows]

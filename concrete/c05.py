"""C05 - errors and scores equal their definition (bounded)"""
import numpy as np
import pandas as pd
from concrete.core import case, check, close, raises, same
from concrete.tsgen import general, untouched
from datafold.pcfold import TSCDataFrame
from datafold.pcfold.timeseries.metric import TSCMetric, TSCScoring

METRICS = ["rmse", "rrmse", "mse", "mape", "mae", "medae", "max", "l2", "linf"]


def per_feature(name, a, b, w):
    """textbook error of every feature; a: truth, b: prediction (samples x features)"""
    e = a - b
    ww = np.ones(len(a)) if w is None else w
    mean = lambda v: (ww[:, None] * v).sum(axis=0) / ww.sum()
    if name == "mse":
        return mean(e ** 2)
    if name == "rmse":
        return np.sqrt(mean(e ** 2))
    if name == "mae":
        return mean(np.abs(e))
    if name == "mape":
        return mean(np.abs(e) / np.abs(a))
    if name == "medae":
        return np.median(np.abs(e), axis=0)
    if name == "max":
        return np.abs(e).max(axis=0)
    e = e if w is None else w[:, None] * e
    if name == "l2":
        return np.sqrt((e ** 2).sum(axis=0))
    if name == "linf":
        return np.abs(e).max(axis=0)
    raise KeyError(name)


def error(name, a, b, w, out):
    if name == "rrmse":
        # mean squared error relative to the total squared magnitude
        m = per_feature("mse", a, b, w)
        if isinstance(out, str) and out == "raw_values":
            return np.sqrt(m / (a ** 2).sum(axis=0))
        return np.sqrt(np.average(m, weights=None if isinstance(out, str) else out) / (a ** 2).sum())
    v = per_feature(name, a, b, w)
    if isinstance(out, str):
        return v if out == "raw_values" else v.mean()
    return np.average(v, weights=out)


def scaled(scaling, a, b):
    if scaling == "min-max":
        lo, hi = a.min(axis=0), a.max(axis=0)
        s = np.where(hi > lo, hi - lo, 1)
        return (a - lo) / s, (b - lo) / s
    if scaling == "standard":
        mu, sd = a.mean(axis=0), a.std(axis=0)
        sd = np.where(sd > 1e-12, sd, 1)
        return (a - mu) / sd, (b - mu) / sd
    if scaling == "l2_normalize":
        s = np.sqrt((a ** 2).sum(axis=0))
        return a / s, b / s
    return a, b


@case(160)
def metric(g):
    name = g.choice(*METRICS)
    mode = g.choice("timeseries", "timestep", "feature")
    scaling = g.choice("id", "id", "min-max", "standard", "l2_normalize")
    X, blocks, ids, axes, names = general(g, n=1 if name == "max" else None, lo=2, equal=g.flag(), shared=g.flag(), m=g.int(2, 4) if mode == "timestep" else None)
    if name == "rrmse" and scaling in ("min-max", "standard") or name == "mape" and scaling != "id":
        scaling = "id"
    if scaling == "standard" and len(X) < 3:
        scaling = "id"
    Y = TSCDataFrame.from_same_indices_as(X, X.to_numpy() + g.normal(*X.shape) * g.choice(1.0, 0.1))
    n = len(names)
    out = g.choice("raw_values", "uniform_average", "weights")
    if out == "weights":
        out = g.uniform(0.1, 2, n) if n > 1 else "uniform_average"
    if name == "max":
        out = g.choice("raw_values", "uniform_average")
    lens = {len(t) for t in axes}
    times = np.unique(np.concatenate(axes))
    shared = all(len(t) == len(times) for t in axes)
    w = None
    if g.flag() and name not in ("max", "medae"):
        if mode == "timeseries" and len(lens) == 1:
            w = g.uniform(0.1, 2, len(axes[0]))
        elif mode == "timestep" and shared:
            w = g.uniform(0.1, 2, len(ids))
        elif mode == "feature":
            w = g.uniform(0.1, 2, len(X))
    g.note(metric=name, mode=mode, scaling=scaling, out=out, weights=w, ids=ids)
    M = TSCMetric(metric=name, mode=mode, scaling=scaling)
    got, ok = untouched(X, lambda: M(X, Y, sample_weight=w, multioutput=out))
    check(ok, "the metric leaves the data unchanged")
    a, b = scaled(scaling, X.to_numpy(), Y.to_numpy())
    I, T = X.index.get_level_values(0).to_numpy(), X.index.get_level_values(1).to_numpy()
    if mode == "feature":
        want = pd.Series(error(name, a, b, w, "raw_values"), index=names)
    else:
        key, lab = (ids, I) if mode == "timeseries" else (times, T)
        want = {k: error(name, a[lab == k], b[lab == k], w, out) for k in key}
    if mode == "feature":
        check(list(got.index) == list(names), "one value per feature")
        close(got.to_numpy(), want.to_numpy(), "error per feature", rtol=1e-7, atol=1e-12)
        return
    check(len(got) == len(want), "one value per series or time", got=got)
    for k, v in want.items():
        close(np.atleast_1d(np.asarray(got.loc[k])), np.atleast_1d(v), f"error of {k}", rtol=1e-7, atol=1e-12)
    if isinstance(out, str) and out == "raw_values" and n > 1:
        check(list(got.columns) == list(names), "one column per feature")


@case(40)
def zero_and_rejects(g):
    name = g.choice(*METRICS)
    mode = g.choice("timeseries", "timestep", "feature")
    X, blocks, ids, axes, names = general(g, n=1 if name == "max" else None, lo=2)
    M = TSCMetric(metric=name, mode=mode)
    g.note(metric=name, mode=mode)
    check(np.all(np.asarray(M(X, X.copy())) == 0), "zero for identical data")
    Y = TSCDataFrame.from_same_indices_as(X, X.to_numpy())
    Y.index = Y.index.set_levels(Y.index.levels[1] + (Y.index.levels[1][1] - Y.index.levels[1][0]), level=1)
    raises(ValueError, lambda: M(X, Y), "other times")
    Y = X.copy()
    Y.index = Y.index.set_levels(Y.index.levels[0] + 1, level=0)
    raises(ValueError, lambda: M(X, Y), "other series")
    raises(ValueError, lambda: M(X, X.rename(columns={names[0]: "other"})), "other features")
    if len(X) > 2:
        raises(ValueError, lambda: M(X, X.iloc[:-1]), "other number of samples")
    if len(names) > 1:
        raises(ValueError, lambda: M(X, X[names[::-1]]), "features in another order")
    Z = X.copy()
    Z.iloc[0, 0] = np.nan
    raises(Exception, lambda: M(X, Z), "missing values")
    raises(Exception, lambda: M(Z, X), "missing values")
    raises(Exception, lambda: M(X, X, sample_weight=np.ones(len(X) + 3)), "weights of the wrong length") if name not in ("max",) else None
    raises(ValueError, lambda: TSCMetric(metric="other", mode=mode), "unknown metric")
    raises(ValueError, lambda: TSCMetric(metric=name, mode="other"), "unknown mode")
    raises(ValueError, lambda: TSCMetric(metric=name, mode=mode, scaling="other"), "unknown scaling")


@case(50)
def scoring(g):
    name = g.choice(*[m for m in METRICS if m != "max"])
    mode = g.choice("timeseries", "timestep", "feature")
    X, blocks, ids, axes, names = general(g, lo=2)
    Y = TSCDataFrame.from_same_indices_as(X, X.to_numpy() + g.normal(*X.shape))
    M = TSCMetric(metric=name, mode=mode)
    out = g.choice("uniform_average", "weights", "none") if len(names) > 1 else "none"
    kw = {} if out == "none" else dict(multioutput=out if out != "weights" else g.uniform(0.1, 2, len(names)))
    vals = np.asarray(M(X, Y, multioutput=kw.get("multioutput", "uniform_average"))).ravel()
    g.note(metric=name, mode=mode, kw=kw)
    better = g.flag(0.3)
    S = TSCScoring(M, greater_is_better=better, **kw)
    s = 1 if better else -1
    close(S(X, Y), s * vals.mean(), "score: negative mean error", rtol=1e-9)
    w = g.uniform(0.1, 2, len(vals))
    close(S(X, Y, sample_weight=w), s * np.average(vals, weights=w), "weighted score", rtol=1e-9)
    check(isinstance(S(X, Y), float), "score is a number")
    close(TSCScoring(M)(X, X.copy()), 0, "score of identical data", atol=0)
    check(TSCScoring(M)(X, Y) <= 0, "errors give negative scores")
    if len(names) > 1 and mode != "feature":
        raises(ValueError, lambda: TSCScoring(M, multioutput="raw_values")(X, Y), "scores need one number")


CASES = [metric, zero_and_rejects, scoring]

"""generators of time series collections shared by the executable contracts"""
import numpy as np
import pandas as pd

from datafold.pcfold import TSCDataFrame


def ids_of(g, m):
    ids = g.rng.choice(40, size=m, replace=False)
    return np.sort(ids) if g.flag(0.8) else np.arange(m)


def names_of(g, n, prefix="x"):
    return [f"{prefix}{k}" for k in g.rng.permutation(n)]


def grid(g, length, dt, t0):
    return t0 + dt * np.arange(length)


def frame(blocks, ids, axes, names):
    """blocks: list of (len_i, n) arrays, axes: list of time arrays -> collection (values taken as they are)"""
    idx = pd.MultiIndex.from_arrays([np.concatenate([np.full(len(t), i) for i, t in zip(ids, axes)]), np.concatenate(axes)],
                                    names=[TSCDataFrame.tsc_id_idx_name, TSCDataFrame.tsc_time_idx_name])
    cols = pd.Index(list(names), name=TSCDataFrame.tsc_feature_col_name)
    return TSCDataFrame(np.concatenate(blocks, axis=0), index=idx, columns=cols)


def stored(g, blocks, ids, axes, names):
    """the collection, in some cases as the rest of a larger one (the index levels are then ordered by appearance)"""
    if len(ids) == 1 or not g.flag(0.25):
        return frame(blocks, ids, axes, names)
    g.note(left_from_larger=True)
    X = frame([*blocks, blocks[0]], [*ids, 41], [*axes, axes[0]], names)
    return X.iloc[:len(X) - len(axes[0])]


def collection(g, m=None, n=None, lo=2, hi=8, dt=None, equal=None, t0=None, values=None, names=None):
    """random collection: returns (frame, blocks, ids, axes, names)"""
    m = m or g.int(1, 4)
    n = n or g.int(1, 4)
    dt = dt if dt is not None else g.choice(1.0, 0.1, 0.25, 1)
    equal = g.flag(0.3) if equal is None else equal
    ids = ids_of(g, m)
    L = g.int(lo, hi)
    names = names or names_of(g, n)
    blocks, axes = [], []
    for _ in range(m):
        length = L if equal else g.int(lo, hi)
        s = (g.int(0, 5) if not equal else 0) * dt if t0 is None else t0
        axes.append(grid(g, length, dt, s))
        blocks.append(g.normal(length, n) if values is None else values(length, n))
    return stored(g, blocks, ids, axes, names), blocks, ids, axes, names


def pairs(blocks):
    return np.concatenate([b[:-1] for b in blocks]), np.concatenate([b[1:] for b in blocks])


def stable(g, n, lo=0.6, hi=1.0):
    A = g.normal(n, n)
    return A / max(abs(np.linalg.eigvals(A))) * g.uniform(lo, hi)


def diagonalizable(A, cmax=1e3, wmin=1e-2):
    w, V = np.linalg.eig(A)
    gap = min([abs(a - b) for i, a in enumerate(w) for b in w[:i]] or [1])
    return np.linalg.cond(V) < cmax and min(abs(w)) > wmin and gap > 1e-3


def orbit(A, x, length):
    o = [np.asarray(x, dtype=float)]
    for _ in range(length - 1):
        o.append(A @ o[-1])
    return np.array(o)


def untouched(X, fn):
    """runs fn() and returns (result, X was left unchanged)"""
    c = X.copy(deep=True)
    idx, col = X.index.copy(), X.columns.copy()
    r = fn()
    same = (X.index.equals(idx) and X.columns.equals(col) and list(X.index.names) == list(idx.names) and X.columns.name == col.name
            and np.array_equal(X.to_numpy(), c.to_numpy(), equal_nan=True) and type(X) is type(c))
    return r, same


def time_axis(g, length, kind, uneven=False):
    """strictly increasing time values of one series"""
    if kind == "int":
        d = g.int(1, 3)
        steps = g.rng.integers(1, 4, size=length) if uneven else np.full(length, d)
        return g.int(0, 4) + np.cumsum(steps) - steps[0]
    if kind == "datetime":
        base = np.datetime64("2021-03-01T00:00:00", "ns") + np.timedelta64(g.int(0, 5), "h")
        steps = g.rng.integers(1, 4, size=length) if uneven else np.full(length, g.int(1, 3))
        return base + (np.cumsum(steps) - steps[0]) * np.timedelta64(1, "h")
    d = g.choice(1.0, 0.1, 0.25, 0.01, 7.3)
    if uneven:
        return g.int(0, 3) * d + np.cumsum(d * g.rng.integers(1, 4, size=length))
    return g.int(0, 3) * d + d * np.arange(length)


def general(g, m=None, n=None, lo=1, hi=6, kind=None, uneven=None, equal=None, shared=None, unsorted_ids=None, prefix="x"):
    """any valid collection: (frame, blocks, ids, axes, names), ids in the order the rows are stored"""
    m = m or g.int(1, 4)
    n = n or g.int(1, 3)
    kind = kind or g.choice("int", "float", "float", "datetime")
    uneven = g.flag(0.4) if uneven is None else uneven
    shared = g.flag(0.3) if shared is None else shared
    equal = shared or (g.flag(0.4) if equal is None else equal)
    ids = g.rng.choice(40, size=m, replace=False)
    if not (g.flag(0.35) if unsorted_ids is None else unsorted_ids):
        ids = np.sort(ids)
    L = g.int(lo, hi)
    common = time_axis(g, L, kind, uneven)
    axes = [common if shared else time_axis(g, L if equal else g.int(lo, hi), kind, uneven and g.flag(0.8)) for _ in range(m)]
    blocks = [g.normal(len(t), n) for t in axes]
    names = names_of(g, n, prefix)
    X = stored(g, blocks, ids, axes, names)
    g.note(ids=ids, axes=[np.asarray(t).tolist() for t in axes], kind=kind)
    return X, blocks, ids, axes, names


def expect_rows(X, ids, axes, blocks, names, msg):
    """X has exactly these series (in this order), times, features and values"""
    from concrete.core import check, same
    check(isinstance(X, TSCDataFrame), f"{msg}: result is a collection", type=type(X).__name__)
    check(X.index.nlevels == 2 and list(X.index.names) == [TSCDataFrame.tsc_id_idx_name, TSCDataFrame.tsc_time_idx_name],
          f"{msg}: two-level row index (ID, time)", names=list(X.index.names))
    check(X.columns.nlevels == 1 and X.columns.name == TSCDataFrame.tsc_feature_col_name, f"{msg}: one level of feature names")
    check(X.index.get_level_values(0).dtype.kind == "i" and not X.index.duplicated().any() and not X.columns.duplicated().any(),
          f"{msg}: integer series identifiers, unique rows and features")
    same(X.index.get_level_values(0).to_numpy(), np.concatenate([np.full(len(t), i) for i, t in zip(ids, axes)]) if len(ids) else [], f"{msg}: series of every row")
    same(X.index.get_level_values(1).to_numpy(), np.concatenate(axes), f"{msg}: time of every row")
    check(list(X.columns) == list(names), f"{msg}: feature names", got=list(X.columns), want=list(names))
    same(X.to_numpy(), np.concatenate(blocks, axis=0), f"{msg}: values")

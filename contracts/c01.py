"""C01 time series collections stay well formed and keep every sample"""
import numpy as np
import pandas as pd

from vc import tables as tb
from vc.terms import Unsupported


def C():
    from datafold.pcfold.timeseries import collection
    return collection


def TSC():
    return C().TSCDataFrame


def _shell(v, n=None):
    """a collection object to run methods on that read nothing but what they are handed"""
    t = tb.Tab(v.array("s", (v.int("sN", 1), n or v.int("sn", 1))), None, None, TSC())
    t.__dict__["is_validate"] = True
    return t


def _validate(v):
    N = v.int("N", 1)
    ids, times = v.array("id", (N,), dt="int"), v.array("time", (N,))
    t = _shell(v)
    ix = tb.SMulti(tb.SIndex(ids), tb.SIndex(times))
    try:
        return N, ids, times, t._validate_index(ix), ix
    except AttributeError:
        return N, ids, times, None, ix


def index_rejects(v):
    """_validate_index raises only for an index that is not well formed: negative identifiers or times, times that do not
    increase within a series, labels that occur twice, or an identifier whose rows are not next to each other"""
    N, ids, times, r, ix = _validate(v)
    if r is not None:
        v.e.live_paths += 1
        v.end()
    good = v.and_(
        v.forall(N, lambda p: ids[p] >= 0),
        v.forall(N, lambda p: times[p] >= 0),
        v.forall(N - 1, lambda p: v.implies(ids[p] == ids[p + 1], times[p] < times[p + 1])),
    )
    again = v.not_(v.forall(N, lambda p: v.forall(p, lambda q: v.implies(v.and_(ids[q] == ids[p], v.not_(ids[p - 1] == ids[p])), False))))
    twice = v.not_(v.forall(N, lambda p: v.forall(p, lambda q: v.not_(v.and_(ids[q] == ids[p], times[q] == times[p])))))
    v.prove("raises only for an index that is not well formed", v.or_(v.not_(good), again, twice))


def index_accepts(v):
    """an index that passes _validate_index is well formed: identifiers and times are not negative, times increase within
    a series, and the rows of one identifier are next to each other (its first row comes once)"""
    N, ids, times, r, ix = _validate(v)
    if r is None:
        v.e.live_paths += 1
        v.end()
    p, q = v.int("p", 0, N - 1), v.int("q", 1, N - 1)
    v.prove("no negative identifier", ids[p] >= 0)
    v.prove("no negative time", times[p] >= 0)
    v.fact("the index itself comes back", r is ix or (r.l[1].a is times))
    v.frame("labels unchanged", ids, times)
    v.assume(v.not_(ids[q - 1] == ids[q]))
    v.mention(0, q - 1, q)
    v.prove("the first identifier starts once", v.not_(ids[0] == ids[q]))
    v.assume(p >= 1)
    v.mention(p - 1, p)
    v.prove("an identifier starts once", v.implies(v.and_(p < q, v.not_(ids[p - 1] == ids[p])), v.not_(ids[p] == ids[q])))


def index_sorted(v):
    N, ids, times, r, ix = _validate(v)
    if r is None:
        v.e.live_paths += 1
        v.end()
    p = v.int("p", 0, N - 1)
    v.assume(p + 1 < N)
    v.prove("times increase within a series", v.implies(ids[p] == ids[p + 1], times[p] < times[p + 1]))


def tensor(v):
    """from_tensor: sample r of series k keeps its features, its series and its time"""
    K, m, n = v.int("K", 1), v.int("m", 1), v.int("n", 1)
    X = v.array("X", (K, m, n))
    given_ids, given_t = bool(v.split(v.bool("ids"))), bool(v.split(v.bool("times")))
    kw = {}
    if given_ids:
        ids = v.array("id", (K,), dt="int", nonneg=True)
        v.assume_forall(K, lambda a: v.forall(a, lambda b: v.not_(ids[a] == ids[b])))
        kw["time_series_ids"] = ids
    if given_t:
        times = v.array("time", (m,), nonneg=True)
        kw["time_values"] = times
    Y = TSC().from_tensor(X, **kw)
    v.prove_eq("number of samples", Y.v.shape[0], K * m)
    v.prove_eq("number of features", Y.v.shape[1], n)
    s, j = v.int("s", 0, K * m - 1), v.int("j", 0, n - 1)
    p = Y.perm[s]
    v.assume(v.and_(p >= 0, p < K * m))
    k, r = p // m, p % m
    v.prove("the value of a sample", Y.v[s, j] == X[k, r, j])
    v.prove("the series of a sample", Y.index.get_level_values("ID").a[s] == (ids[k] if given_ids else k))
    v.prove("the time of a sample", Y.index.get_level_values("time").a[s] == (times[r] if given_t else r))
    v.frame("tensor handed in", X)


def tensor_rejects(v):
    """identifiers or times that do not fit the tensor are rejected"""
    K, m, n = v.int("K", 1), v.int("m", 1), v.int("n", 1)
    X = v.array("X", (K, m, n))
    a, b = v.int("a", 1), v.int("b", 1)
    if v.split(v.bool("ids")):
        ids = v.array("id", (a,), dt="int", nonneg=True)
        dup = v.not_(v.forall(a, lambda x: v.forall(x, lambda y: v.not_(ids[x] == ids[y]))))
        v.assume(v.not_(a == K))
        v.raises("wrong number of identifiers", ValueError, v.not_(a == K), lambda: TSC().from_tensor(X, time_series_ids=ids))
    else:
        t = v.array("t", (b,))
        v.raises("wrong number of times", ValueError, v.not_(b == m), lambda: TSC().from_tensor(X, time_values=t))


def shift_matrices(v):
    """from_shift_matrices: pair k becomes series k with the two samples, in order"""
    K, n = v.int("K", 1), v.int("n", 1)
    L, R = v.array("L", (K, n)), v.array("R", (K, n))
    col = bool(v.split(v.bool("col")))
    t0, t1 = v.real("t0"), v.real("t1")
    kw = dict(time_values=(t0, t1)) if v.split(v.bool("times")) else {}
    a, b = (L.T, R.T) if col else (L, R)
    Y = TSC().from_shift_matrices(a, b, snapshot_orientation="col" if col else "row", **kw)
    k, j = v.int("k", 0, K - 1), v.int("j", 0, n - 1)
    v.prove_eq("number of samples", Y.v.shape[0], 2 * K)
    v.prove_eq("number of features", Y.v.shape[1], n)
    idx, tix = Y.index.get_level_values("ID").a, Y.index.get_level_values("time").a
    for r, (M, t) in enumerate(((L, t0 if kw else 0), (R, t1 if kw else 1))):
        v.prove(f"snapshot {r}", Y.v[2 * k + r, j] == M[k, j])
        v.prove(f"series {r}", idx[2 * k + r] == k)
        v.prove(f"time {r}", tix[2 * k + r] == t)
    v.frame("matrices handed in", L, R)


def shift_matrices_rejects(v):
    K, n, K2, n2 = v.int("K", 1), v.int("n", 1), v.int("K2", 1), v.int("n2", 1)
    L, R = v.array("L", (K, n)), v.array("R", (K2, n2))
    v.assume(v.not_(v.and_(K == K2, n == n2)))
    v.raises("different shapes", ValueError, v.not_(v.and_(K == K2, n == n2)), lambda: TSC().from_shift_matrices(L, R))


def _frame(v, name, N=None, n=None, kind=pd.DataFrame, cols=None, t=None):
    N, n = v.int("N" + name, 1) if N is None else N, v.int("n", 1) if n is None else n
    X = v.array(name, (N, n))
    t = v.array("t" + name, (N,), nonneg=True) if t is None else t
    F = tb.Tab(X, tb.SIndex(t), cols, kind)
    F.__dict__.update(N=N, n=n, val=X, t=t)
    return F


def single_series(v):
    """from_single_timeseries: every row of the frame under the one identifier, sorted by time"""
    F = _frame(v, "F")
    given = bool(v.split(v.bool("id")))
    i = v.int("ts_id", 0) if given else 0
    Y = TSC().from_single_timeseries(F, ts_id=i if given else None)
    v.prove_eq("number of samples", Y.v.shape[0], F.N)
    s, j = v.int("s", 0, F.N - 1), v.int("j", 0, F.n - 1)
    p = Y.perm[s]
    v.assume(v.and_(p >= 0, p < F.N))
    v.prove("value", Y.v[s, j] == F.val[p, j])
    v.prove("series", Y.index.get_level_values("ID").a[s] == i)
    v.prove("time", Y.index.get_level_values("time").a[s] == F.t[p])
    v.frame("frame handed in", F.val, F.t)
    v.fact("the frame keeps its index", isinstance(F.index, tb.SIndex) and F.index.a is F.t)


def array_series(v):
    """from_array: every row of the array under its time"""
    N, n = v.int("N", 2), v.int("n", 1)
    X, t = v.array("X", (N, n)), v.array("t", (N,), nonneg=True)
    i = v.int("ts_id", 0)
    given = bool(v.split(v.bool("times")))
    Y = TSC().from_array(X, time_values=t if given else None, ts_id=i)
    s, j = v.int("s", 0, N - 1), v.int("j", 0, n - 1)
    p = Y.perm[s]
    v.assume(v.and_(p >= 0, p < N))
    v.prove_eq("number of samples", Y.v.shape[0], N)
    v.prove("value", Y.v[s, j] == X[p, j])
    v.prove("series", Y.index.get_level_values("ID").a[s] == i)
    v.prove("time", Y.index.get_level_values("time").a[s] == (t[p] if given else p))
    v.frame("array handed in", X, t)


def frame_list(v):
    """from_frame_list of two frames: the rows of the first, then those of the second, each under its own identifier"""
    n = v.int("n", 1)
    cols = tb.Cols(n)
    A, B = _frame(v, "A", n=n, cols=cols), _frame(v, "B", n=n, cols=cols)
    seen = []
    v.stub(C(), "is_df_same_index", lambda a, b, **k: seen.append((a, b, k)))
    given = bool(v.split(v.bool("ids")))
    a, b = v.int("id_a", 0), v.int("id_b", 0)
    if given:
        v.assume(v.not_(a == b))
    Y = TSC().from_frame_list([A, B], ts_ids=[a, b] if given else None)
    v.fact("columns compared", len(seen) == 1 and seen[0][0] is A and seen[0][1] is B and seen[0][2].get("check_column") is True and seen[0][2].get("handle") == "raise")
    v.prove_eq("number of samples", Y.v.shape[0], A.N + B.N)
    idx, tix = Y.index.get_level_values("ID").a, Y.index.get_level_values("time").a
    j = v.int("j", 0, n - 1)
    for k, (F, off, i) in enumerate(((A, 0, a if given else 0), (B, A.N, b if given else 1))):
        p = v.int(f"p{k}", 0, F.N - 1)
        v.prove(f"value {k}", Y.v[off + p, j] == F.val[p, j])
        v.prove(f"series {k}", idx[off + p] == i)
        v.prove(f"time {k}", tix[off + p] == F.t[p])
        v.frame(f"frame {k}", F.val, F.t)
        v.fact(f"frame {k} keeps its index", isinstance(F.index, tb.SIndex) and F.index.a is F.t)


def insert(v):
    """insert_ts: the rows of the collection, then the new series under its identifier (default: largest + 1)"""
    n = v.int("n", 1)
    cols = tb.Cols(n)
    K, m = v.int("K", 1), v.int("m", 1)
    val = v.array("X", (K, m, n))
    ids, times = v.array("id", (K,), dt="int", nonneg=True), v.array("time", (m,), nonneg=True)
    v.assume_forall(K - 1, lambda k: ids[k] < ids[k + 1])
    X = tb.grid(v, val, ids, times, cols)
    X.__dict__["ids"] = tb.SIndex(ids)
    F = _frame(v, "F", n=n, cols=cols)
    given = bool(v.split(v.bool("given")))
    if given:
        i = v.int("ts_id", 0)
        exists = v.not_(v.forall(K, lambda k: v.not_(ids[k] == i)))
        Y = v.raises("known identifier", ValueError, exists, lambda: X.insert_ts(F, ts_id=i))
    else:
        # the contract of `in` for the identifier max + 1
        Y = X.insert_ts(F)
        i = v.lib(np.max, ids) + 1
    v.prove_eq("number of samples", Y.v.shape[0], K * m + F.N)
    idx, tix = Y.index.get_level_values("ID").a, Y.index.get_level_values("time").a
    j, p = v.int("j", 0, n - 1), v.int("p", 0, F.N - 1)
    v.prove("value", Y.v[K * m + p, j] == F.val[p, j])
    v.prove("series", idx[K * m + p] == i)
    v.prove("time", tix[K * m + p] == F.t[p])
    k, r = v.int("k", 0, K - 1), v.int("r", 0, m - 1)
    v.prove("existing value", Y.v[k * m + r, j] == val[k, r, j])
    v.prove("existing series", idx[k * m + r] == ids[k])
    v.prove("existing time", tix[k * m + r] == times[r])
    v.frame("data handed in", val, F.val, F.t)
    v.fact("the frame keeps its index", isinstance(F.index, tb.SIndex) and F.index.a is F.t)


def insert_columns(v):
    """insert_ts with other features is rejected"""
    X, F = tb.tensor_collection(v), _frame(v, "F", n=v.int("n2", 1))
    X.__dict__["ids"] = tb.SIndex(X.ids_)
    v.raises("other features", ValueError, True, lambda: X.insert_ts(F, ts_id=v.lib(np.max, X.ids_) + 1))


def initial_condition(v):
    """InitialCondition.from_array: row k is the initial state of series k at the given time"""
    K, n = v.int("K", 1), v.int("n", 1)
    one = bool(v.split(v.bool("one")))
    X = v.array("X", (n,) if one else (K, n))
    t = v.real("t")
    ids = v.array("id", (1 if one else K,), dt="int", nonneg=True)
    given = bool(v.split(v.bool("ids")))
    seen = []
    v.stub(C().InitialCondition, "validate", lambda x, **k: seen.append((x, k)))
    Y = C().InitialCondition.from_array(X, time_value=t, feature_names=tb.Cols(n), ts_ids=ids if given else None)
    v.fact("validated", len(seen) == 1 and seen[0][0] is Y and seen[0][1].get("n_samples_ic") == 1)
    v.prove_eq("number of samples", Y.v.shape[0], 1 if one else K)
    k, j = v.int("k", 0, (1 if one else K) - 1), v.int("j", 0, n - 1)
    v.prove("value", Y.v[k, j] == (X[j] if one else X[k, j]))
    v.prove("series", Y.index.get_level_values("ID").a[k] == (ids[k] if given else k))
    v.prove("time", Y.index.get_level_values("time").a[k] == t)
    v.frame("array handed in", X)


def to_array(v):
    """feature_to_array: entry (k, r) is the feature of series k at time r"""
    X = tb.tensor_collection(v)
    same = v.bool("same")
    X.__dict__.update(is_same_time_values=lambda: bool(v.split(same)), n_timeseries=X.K, n_timesteps=X.m)
    c = v.int("c", 0, X.n - 1)
    got = v.raises("different times", C().TSCException, v.not_(same), lambda: X.feature_to_array(X.columns.get(c)))
    k, r = v.int("k", 0, X.K - 1), v.int("r", 0, X.m - 1)
    v.prove("entry", got[k, r] == X.val[k, r, c])
    v.prove_eq("series", got.shape[0], X.K)
    v.prove_eq("times", got.shape[1], X.m)


def select(v):
    """select_time_values: exactly the rows whose time is requested, in order"""
    X = tb.rows_collection(v)
    q = v.int("q", 1)
    want = v.array("want", (q,))
    Y = X.select_time_values(want)
    s, j = v.int("s", 0), v.int("j", 0, X.n - 1)
    v.assume(s < Y.v.shape[0])
    tix, idx = Y.index.get_level_values("time").a, Y.index.get_level_values("ID").a
    v.prove("only requested times", v.not_(v.forall(q, lambda x: v.not_(want[x] == tix[s]))))
    p, w = v.int("p", 0, X.N - 1), v.int("w", 0, q - 1)
    v.assume(X.times_[p] == want[w])
    a = Y.pos(p)
    v.prove("every row with a requested time", v.and_(a >= 0, a < Y.v.shape[0]))
    v.assume(v.and_(a >= 0, a < Y.v.shape[0]))
    v.prove("value", Y.v[a, j] == X.val[p, j])
    v.prove("series", idx[a] == X.ids_[p])
    v.prove("time", tix[a] == X.times_[p])
    b = v.int("b", 0, X.N - 1)
    v.assume(v.and_(X.times_[b] == want[w], p < b))
    v.prove("in order", a < Y.pos(b))


def _states(v, first):
    X = tb.tensor_collection(v)
    k = v.int("k_samples")
    few = v.or_(k > X.m)

    class Acc:
        def check_required_min_timesteps(self, required_min_timesteps):
            if v.split(required_min_timesteps > X.m):
                raise C().TSCException("too short")

    X.__dict__["tsc"] = Acc()
    f = (lambda: X.initial_states(k)) if first else (lambda: X.final_states(k))
    v.split(k < 1)
    Y = v.raises("number of samples", (ValueError, C().TSCException), v.or_(k < 1, few), f)
    s, r, j = v.int("s", 0, X.K - 1), v.int("r", 0, k - 1), v.int("j", 0, X.n - 1)
    o = 0 if first else X.m - k
    v.prove_eq("number of samples", Y.v.shape[0], X.K * k)
    v.prove("value", Y.v[s * k + r, j] == X.val[s, o + r, j])
    v.prove("series", Y.index.get_level_values("ID").a[s * k + r] == X.ids_[s])
    v.prove("time", Y.index.get_level_values("time").a[s * k + r] == X.times_[o + r])


def initial_states(v):
    """initial_states(k): the first k samples of every series; invalid numbers are rejected"""
    _states(v, True)


def final_states(v):
    """final_states(k): the last k samples of every series; invalid numbers are rejected"""
    _states(v, False)


def tensor_zeros(v):
    K, m, n = v.int("K", 1), v.int("m", 1), v.int("n", 1)
    r = C().allocate_time_series_tensor(K, m, n)
    v.prove_eq("zeros", r, v.arr_fn((K, m, n), lambda a, b, c: 0))


CONTRACTS = [index_accepts, index_rejects, index_sorted, tensor, tensor_rejects, shift_matrices, shift_matrices_rejects, single_series, array_series, frame_list, insert, insert_columns,
             initial_condition, to_array, select, initial_states, final_states, tensor_zeros]

"""Symbolic pandas tables: the contracts assumed on the pandas objects that datafold stores its data in.

A table is a rectangular array of values with row labels (one or two index levels, each a symbolic array of any
length) and column labels.  Only label bookkeeping that pandas documents is modelled; everything a datafold method
does with it is executed from the real source.  A stand-in whose ``_vc_type`` is ``TSCDataFrame`` answers methods
and properties of that class by running the real ones on itself.
"""
import types

import numpy as np
import pandas as pd

from . import models as M
from . import terms as T
from .arrays import P_, SArr, SBool, SNum, Sym, as_arr, concrete_arr, mkbool, mknum, num, simplify_scalar, to_form
from .engine import E
from .models import ARR_METHODS, METHOD_MODELS, MODELS, USED, SList, nonzero_mask
from .runtime import CLASS_MODELS
from .terms import *  # noqa


def _tsc():
    from datafold.pcfold.timeseries.collection import TSCDataFrame
    return TSCDataFrame


def used(t):
    USED.add("pandas: " + t)


class Cols:
    """column labels; symbolic number of labels with unknown, distinct names"""

    _vc_sym = True
    _vc_type = pd.Index
    nlevels = 1
    name = "feature"

    def __init__(self, n, labels=None, token=None):
        self.n, self.labels = P_(n), labels
        self.token = token or object()

    @property
    def shape(self):
        return (mknum(self.n, "int"),)

    size = property(lambda self: self.shape[0])

    def _vc_len(self):
        return self.shape[0]

    def __len__(self):
        return int(self.shape[0])

    def to_list(self):
        return self

    tolist = to_list

    def to_numpy(self, *a, **k):
        return self if self.labels is None else np.array(self.labels, dtype=object)

    def astype(self, t):
        return self if self.labels is None else Cols(self.n, [str(c) for c in self.labels])

    def __iter__(self):
        if self.labels is None:
            raise Unsupported("iteration over unknown feature names")
        return iter(self.labels)

    def __eq__(self, o):
        if not isinstance(o, Cols):
            return NotImplemented
        return _Const(self.token is o.token or (self.labels is not None and self.labels == o.labels))

    __hash__ = object.__hash__

    def get(self, k):
        return Col(self, k)

    def __getitem__(self, k):
        if self.labels is not None and isinstance(k, (int, slice)):
            r = self.labels[k]
            return r if isinstance(k, int) else Cols(len(r), r)
        return Col(self, k)


class Col:
    """one column label"""

    _vc_sym = True

    def __init__(self, cols, k):
        self.cols, self.k = cols, k


class _Const:
    _vc_sym = True

    def __init__(self, b):
        self.b = b

    def all(self):
        return self.b

    any = all


def cols_of(c, n):
    if isinstance(c, Cols):
        return c
    if c is None:
        return Cols(n)
    if isinstance(c, (list, tuple, np.ndarray, pd.Index)):
        return Cols(len(c), list(c))
    raise Unsupported(f"columns {type(c)}")


class SIndex:
    """one-level index (or one level of a two-level index, row by row)"""

    _vc_sym = True
    _vc_type = pd.Index
    nlevels = 1

    def __init__(self, a, name=None, uniq=None):
        self.a, self.name, self.uniq = as_arr(a), name, uniq

    def _vc_values(self):
        return self.a

    def _vc_len(self):
        return mknum(self.a._shape[0], "int")

    def _vc_iter(self):
        return M.as_slist(self.a)

    def __len__(self):
        return len(self.a)

    shape = property(lambda s: s.a.shape)
    size = property(lambda s: s.a.size)
    ndim = property(lambda s: s.a.ndim)
    dtype = property(lambda s: s.a.dtype)
    T = property(lambda s: s)
    values = property(lambda s: s.a)

    def to_numpy(self, *a, **k):
        return self.a

    to_list = tolist = to_numpy

    def view(self, *a):
        return self

    def copy(self, *a, **k):
        return SIndex(self.a, self.name, self.uniq)

    def set_names(self, n):
        return SIndex(self.a, n, self.uniq)

    rename = set_names

    def isna(self):
        used("index labels hold no NaN")
        return SArr.from_fn(self.a._shape, lambda i: FALSE, "bool")

    isnull = isna

    def astype(self, dt):
        return SIndex(self.a.astype(dt), self.name, self.uniq)

    def repeat(self, n):
        return SIndex(M.np_repeat(self.a, n), self.name)

    def unique(self):
        """distinct labels in the order of their first appearance"""
        if getattr(self, "first", None) is not None:
            used("Index.unique(): distinct labels in order of appearance")
            return self.first
        raise Unsupported("Index.unique of an arbitrary index")

    def max(self):
        return M.np_max(self.a)

    def min(self):
        return M.np_min(self.a)

    def __getitem__(self, k):
        r = self.a[k]
        return SIndex(r, self.name) if isinstance(r, SArr) and r.ndim == 1 else r

    def __contains__(self, x):
        raise Unsupported("membership in an index")

    def _b(self, o, f):
        r = f(self.a, o.a if isinstance(o, SIndex) else o)
        return r if isinstance(r, SArr) and r.dt == "bool" else SIndex(r, self.name)

    def __add__(self, o):
        return self._b(o, lambda a, b: a + b)

    def __sub__(self, o):
        return self._b(o, lambda a, b: a - b)

    def __mul__(self, o):
        return self._b(o, lambda a, b: a * b)

    def __truediv__(self, o):
        return self._b(o, lambda a, b: a / b)

    __radd__, __rmul__ = __add__, __mul__

    def __rsub__(self, o):
        return self._b(o, lambda a, b: b - a)

    def __neg__(self):
        return SIndex(-self.a, self.name)

    def __eq__(self, o):
        return self._b(o, lambda a, b: a == b)

    def __ne__(self, o):
        return self._b(o, lambda a, b: a != b)

    def __lt__(self, o):
        return self._b(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._b(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._b(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._b(o, lambda a, b: a >= b)

    __hash__ = object.__hash__

    def position(self, label, check=True):
        """row of a label that occurs once"""
        p = num(label)[0]
        x = fresh_var("ix")
        t = self.a.elem((x,))
        from . import prover as Pr

        r = None
        at, ap = t.as_atom(), p.as_atom()
        if at is not None and ap is not None and at.kind == ap.kind == "A" and at.args[0] == ap.args[0] and x in at.args[1]:
            r = ap.args[1][at.args[1].index(x)]
        else:
            c, rest = Pr.linear_in(t, x.as_atom().args[0])
            if c in (1, -1) and x.as_atom().args[0] not in rest.fv:
                r = (p - rest) * c
        if r is None or not E().entails(eq(self.a.elem((r,)), p)):
            raise Unsupported(f"position of label {p!r}")
        if check and not E().decide(fand(ge(r, 0), lt(r, self.a._shape[0]))):
            raise KeyError(label)
        return r


class SLevel(SIndex):
    """level of a two-level index: the distinct labels in any order (pandas keeps them sorted unless the index is a part
    of a larger one), sort_values() brings them in increasing order"""

    def __init__(self, a, name=None):
        self.sorted = as_arr(a)
        n = self.sorted._shape[0]
        SIndex.__init__(self, self.sorted[M.rng_permutation(n)], name)

    def sort_values(self):
        used("Index.sort_values(): the distinct labels of a level in increasing order")
        return SIndex(self.sorted, self.name)


class SMulti:
    """two-level row index"""

    _vc_sym = True
    _vc_type = pd.MultiIndex
    nlevels = 2

    def __init__(self, l0, l1, names=("ID", "time"), levels=None):
        self.l = [l0 if isinstance(l0, SIndex) else SIndex(l0), l1 if isinstance(l1, SIndex) else SIndex(l1)]
        self.names = list(names)
        self.levels = levels

    def _vc_len(self):
        return mknum(self.l[0].a._shape[0], "int")

    def __len__(self):
        return len(self.l[0].a)

    shape = property(lambda s: s.l[0].shape)

    def get_level_values(self, k):
        if isinstance(k, str):
            k = list(self.names).index(k) if k in self.names else {"ID": 0, "time": 1}[k]
        r = self.l[k]
        r.name = ("ID", "time")[k]
        return r

    def remove_unused_levels(self):
        return self

    def take(self, k):
        return SMulti(self.l[0][k], self.l[1][k])

    def __getitem__(self, k):
        return self.take(k)

    def duplicated(self):
        used("MultiIndex.duplicated(): rows whose labels occur in an earlier row")
        a, b = self.l[0].a, self.l[1].a

        def f(i):
            nm = fresh_name("du")
            v = var(nm, "I")
            return fnot(T.forall(nm, i[0], fnot(fand(eq(a.elem((v,)), a.elem((i[0],))), eq(b.elem((v,)), b.elem((i[0],)))))))

        return SArr.from_fn(a._shape, f, "bool")

    @property
    def codes(self):
        """codes[k][p] = codes[k][q] iff the labels agree"""
        used("MultiIndex.codes: positions of the labels in the sorted distinct labels")
        out = []
        for k in (0, 1):
            s = self.l[k].a.snapshot()
            c = M.opaque("code", [s], s._shape, "int")
            a, b = fresh_name("c"), fresh_name("c")
            x, y = var(a, "I"), var(b, "I")
            cx, cy, sx, sy = c.elem((x,)), c.elem((y,)), s.elem((x,)), s.elem((y,))
            E().assume(T.forall(a, s._shape[0], T.forall(b, s._shape[0], fand(T.implies(eq(cx, cy), eq(sx, sy)), T.implies(eq(sx, sy), eq(cx, cy))))))
            out.append(c)
        return out


class Loc:
    _vc_sym = True

    def __init__(self, t):
        self.t = t

    def __getitem__(self, key):
        return self.t._read(key)

    def __setitem__(self, key, val):
        self.t._write(key, val)


class ILoc:
    _vc_sym = True

    def __init__(self, t):
        self.t = t

    def __getitem__(self, key):
        return self.t._take(key)


def _full(k):
    return isinstance(k, slice) and k.start is None and k.stop is None and k.step is None


def _labels(x):
    """list of concrete feature names"""
    if isinstance(x, Cols):
        return x.labels
    if isinstance(x, (list, np.ndarray, pd.Index)) and all(isinstance(q, (str, int, np.integer)) for q in x):
        return list(x)
    return None


class Tab:
    """DataFrame, TSCDataFrame (2-d values) or Series (1-d values)"""

    _vc_sym = True

    def __init__(self, values, index, columns=None, kind=pd.DataFrame, **extra):
        d = self.__dict__
        d["v"], d["index"], d["_vc_type"] = as_arr(values), index, kind
        d["columns"] = cols_of(columns, d["v"]._shape[1]) if d["v"].ndim == 2 else None
        d["is_validate"], d["fixed_delta"], d["name"] = True, None, None
        d.update(extra)

    # ---- storage
    def _vc_values(self):
        return self.v

    def _vc_len(self):
        return mknum(self.v._shape[0], "int")

    def __len__(self):
        return len(self.v)

    shape = property(lambda s: s.v.shape)
    ndim = property(lambda s: s.v.ndim)
    size = property(lambda s: s.v.size)
    values = property(lambda s: s.v)
    dtype = property(lambda s: s.v.dtype)
    T = property(lambda s: s.v.T)

    def to_numpy(self, *a, **k):
        return self.v

    def copy(self, deep=True):
        return self._new(self.v.copy() if deep else self.v, self.index)

    def _new(self, v, index, columns=None, kind=None):
        k = kind or self._vc_type
        t = Tab(v, index, columns if columns is not None else self.columns, k)
        return t

    def isnull(self):
        vs = tuple(fresh_var("nn") for _ in self.v._shape)
        if any(a.kind == "A" and a.args[0].startswith("NaN") for a in atoms_of(self.v.real_elem(vs))):
            raise Unsupported("isnull of a partially filled table")
        used("isnull() is False for computed values (floats are finite)")
        return _Const2(False)

    isna = isnull

    # ---- access
    @property
    def loc(self):
        return Loc(self)

    @property
    def iloc(self):
        return ILoc(self)

    def _take(self, key):
        rk = key[0] if isinstance(key, tuple) else key
        ck = key[1] if isinstance(key, tuple) else slice(None)
        if isinstance(rk, SArr) and rk.dt == "bool" and rk.ndim == 1 and rk._shape[0].as_int() is None:
            rk = nonzero_mask(rk)
        v = self.v[rk] if self.v.ndim == 1 else self.v[rk, ck] if not _full(ck) else self.v[rk]
        if isinstance(rk, (list,)):
            rk = as_arr(rk) if any(isinstance(x, Sym) for x in rk) else np.asarray(rk)
        ix = self.index.take(rk) if isinstance(self.index, SMulti) else self.index[rk]
        cols = self.columns
        if not _full(ck):
            cols = cols[ck] if cols is not None and cols.labels is not None else Cols(v._shape[1]) if v.ndim == 2 else None
        if not isinstance(v, SArr):
            return v
        t = self._new(v, ix, cols)
        if isinstance(rk, SArr) and getattr(rk, "pos", None) is not None:
            t.__dict__["pos"] = rk.pos
        return t

    def _colpos(self, ck):
        if isinstance(ck, Col):
            return ck.k
        if self.columns.labels is not None and ck in self.columns.labels:
            return self.columns.labels.index(ck)
        raise Unsupported("column label")

    def _read(self, key):
        if isinstance(key, tuple) and len(key) == 2 and _full(key[1]):
            key = key[0]
        if isinstance(key, tuple) and len(key) == 2 and _full(key[0]):
            ls = _labels(key[1])
            if ls is not None and self.columns.labels is not None:
                used("loc[:, names]: the columns with these names, in the requested order")
                if any(x not in self.columns.labels for x in ls):
                    raise KeyError(str(ls))
                at = [self.columns.labels.index(x) for x in ls]
                return self._new(self.v[:, np.array(at, dtype=int)], self.index, cols_of(ls, len(ls)))
            if isinstance(key[1], (str, Col)):
                return Tab(self.v[:, self._colpos(key[1])], self.index, None, pd.Series)
        if isinstance(key, (SIndex, SArr)):
            a = key.a if isinstance(key, SIndex) else key
            if a.dt == "bool":
                return self._take((a, slice(None)) if self.v.ndim == 2 else a)
            if isinstance(self.index, SIndex):
                return self._read_labels(a)
        h = self.__dict__.get("rows")
        if h is not None:
            return h(self, key)
        if isinstance(key, (SNum, int)) and isinstance(self.index, SIndex):
            p = mknum(self.index.position(key), "int")
            return self.v[p] if self.v.ndim == 1 else self._row(p)
        raise Unsupported(f"loc[{key!r}]")

    def _row(self, p):
        return Tab(self.v[p], SIndex(SArr.from_fn((self.v._shape[1],), lambda i: i[0], "int")), None, pd.Series)

    def _read_labels(self, a):
        """one row per requested label"""
        used("loc with a list of labels: the rows of these labels in the requested order")
        ix = self.index
        if self.v.ndim != 1:
            raise Unsupported("loc with labels on a frame")
        v = self.v.snapshot()
        x = fresh_var("rl")
        with M.hyp(ge(x, 0), lt(x, a._shape[0])):
            ix.position(mknum(a.elem((x,)), a.dt))
        r = SArr.from_fn(a._shape, lambda i: v.elem((ix.position(mknum(a.elem(i), a.dt), False),)), self.v.dt)
        return Tab(r, SIndex(a, ix.name), None, pd.Series)

    def _write(self, key, val):
        if isinstance(key, tuple) and len(key) == 2 and _full(key[1]) and isinstance(self.index, SIndex):
            p = mknum(self.index.position(key[0]), "int")
            self.v[p] = val.v if isinstance(val, Tab) else val
            return
        raise Unsupported(f"loc[{key!r}] = ...")

    def __getitem__(self, key):
        if isinstance(key, (SArr, SIndex, Tab)) and as_arr(key).dt == "bool":
            return self._take(as_arr(key) if self.v.ndim == 1 else (as_arr(key), slice(None)))
        if self.v.ndim == 2 and self.columns.labels is not None and (isinstance(key, (str, int)) or _labels(key) is not None):
            return self._read((slice(None), key))
        raise Unsupported("table[...]")

    def __setitem__(self, key, val):
        if self.v.ndim != 2 or self.columns.labels is None or not isinstance(key, (str, int)) or key in self.columns.labels:
            raise Unsupported("table[...] = ...")
        used("frame[new name] = value appends a column")
        N = self.v._shape[0]
        c = M.np_full((mknum(N, "int"), 1), val) if not isinstance(val, (SArr, Tab, SIndex)) else as_arr(val).reshape(-1, 1)
        self.__dict__["v"] = M.np_concatenate([self.v, c], axis=1)
        self.__dict__["columns"] = cols_of([*self.columns.labels, key], self.v._shape[1])

    def apply(self, func, axis=0, raw=False, **k):
        if axis != 0 or not raw or self.columns.labels is None:
            raise Unsupported("apply")
        used("apply(f, axis=0, raw=True): f of every column as an array")
        cs = [as_arr(func(self.v[:, j])).reshape(-1, 1) for j in range(len(self.columns.labels))]
        return self._new(M.np_concatenate(cs, axis=1), self.index, self.columns)

    def add_suffix(self, s, axis=None):
        used("add_suffix: the same values, every feature name with the suffix")
        if self.columns.labels is None:
            raise Unsupported("add_suffix")
        return self._new(self.v.copy(), self.index, cols_of([f"{c}{s}" for c in self.columns.labels], self.v._shape[1]))

    def _b(self, o, f):
        r = f(self.v, as_arr(o) if isinstance(o, (Tab, SIndex)) else o)
        return self._new(r, self.index) if isinstance(r, SArr) else r

    def __add__(self, o):
        return self._b(o, lambda a, b: a + b)

    def __sub__(self, o):
        return self._b(o, lambda a, b: a - b)

    def __mul__(self, o):
        return self._b(o, lambda a, b: a * b)

    def __truediv__(self, o):
        return self._b(o, lambda a, b: a / b)

    __radd__, __rmul__ = __add__, __mul__

    def __rsub__(self, o):
        return self._b(o, lambda a, b: b - a)

    def __ne__(self, o):
        return self._b(o, lambda a, b: a != b)

    def __eq__(self, o):
        return self._b(o, lambda a, b: a == b)

    def __lt__(self, o):
        return self._b(o, lambda a, b: a < b)

    __hash__ = object.__hash__

    def any(self, *a, **k):
        return M.np_any(self.v)

    def all(self, *a, **k):
        return M.np_all(self.v)

    # ---- TSCDataFrame: real methods on this storage
    def __getattr__(self, name):
        C = self.__dict__.get("_vc_type")
        if name.startswith("__") or C is not _tsc():
            raise AttributeError(name)
        if name == "tsc":
            from datafold.pcfold.timeseries.accessor import TSCAccessor
            a = object.__new__(TSCAccessor)
            a._tsc_df = self
            return a
        for B in (C,):
            if name in B.__dict__:
                f = B.__dict__[name]
                if isinstance(f, property):
                    return f.fget(self)
                if isinstance(f, classmethod):
                    return types.MethodType(f.__func__, C)
                if isinstance(f, types.FunctionType):
                    return types.MethodType(f, self)
                return f
        raise AttributeError(name)

    def __repr__(self):
        return f"<table {self.v._shape}>"


class _Const2(_Const):
    def any(self, *a, **k):
        return _Const2(self.b) if not a else self

    def all(self, *a, **k):
        return self

    def __bool__(self):
        return self.b


def atoms_of(p):
    from . import prover as Pr

    seen = {}
    Pr._collect(p, seen)
    return list(seen)


# ------------------------------------------------------------------ constructors
def _index(x, name=None, **k):
    if isinstance(x, SIndex):
        return SIndex(x.a, name if name is not None else x.name, x.uniq)
    if isinstance(x, Cols):
        return x
    if isinstance(x, SList):
        return Cols(x.n)
    if isinstance(x, (list, tuple)) and all(isinstance(y, str) for y in x):
        return Cols(len(x), list(x))
    return SIndex(as_arr(x), name)


CLASS_MODELS[pd.Index] = _index


def _from_arrays(arrays, names=None, sortorder=None):
    used("MultiIndex.from_arrays: row p is labelled (arrays[0][p], arrays[1][p])")
    a, b = [x if isinstance(x, SIndex) else SIndex(as_arr(x)) for x in arrays]
    if not E().decide(eq(a.a._shape[0], b.a._shape[0])):
        raise ValueError("all arrays must be same length")
    return SMulti(SIndex(a.a), SIndex(b.a))


MODELS[pd.MultiIndex.from_arrays] = _from_arrays


def _from_product(iterables, names=None, sortorder=None):
    x, y = iterables
    y = y if isinstance(y, SIndex) else SIndex(as_arr(y))
    if len(x) != 1:
        raise Unsupported("MultiIndex.from_product")
    used("MultiIndex.from_product([[id], times]): every time labelled with id")
    i = x[0]
    return SMulti(SIndex(M.np_full(y.a._shape[0], i, dtype=int)), SIndex(y.a))


MODELS[pd.MultiIndex.from_product] = _from_product


def _range(n):
    return SIndex(M.np_arange(mknum(P_(n), "int")))


def _frame(data=None, index=None, columns=None, _cls=pd.DataFrame, dtype=None, copy=None, **k):
    used(f"DataFrame/Series constructor: values, row and column labels as given")
    if isinstance(data, Tab):
        v, ix, cols = data.v, data.index, data.columns
        if v.ndim == 1:
            v = v[:, np.newaxis]
            cols = Cols(1, [data.name or 0])
        if index is not None or columns is not None:
            raise Unsupported("reindexing constructor")
        t = Tab(v, ix, cols, _cls)
        if "rows" in data.__dict__:
            t.__dict__["rows"] = data.__dict__["rows"]
        return t
    if isinstance(data, (float, int)) or data is None:
        n = M.m_len(index)
        c = cols_of(columns, 0)
        fill = SArr.from_fn((P_(n), c.n), lambda i: app("NaN", (), "R"), "float") if data is None or data != data else M.np_full((n, mknum(c.n, "int")), data)
        return Tab(fill, index, c, _cls)
    v = as_arr(data)
    if v.ndim == 1:
        v = v[:, np.newaxis]
    if index is None:
        index = _range(v._shape[0])
    elif not isinstance(index, (SIndex, SMulti)):
        index = SIndex(as_arr(index))
    n = index._vc_len()
    if not E().decide(eq(P_(n), v._shape[0])):
        raise ValueError("Shape of passed values does not match the index")
    cols = cols_of(columns, v._shape[1])
    if not E().decide(eq(cols.n, v._shape[1])):
        raise ValueError("Shape of passed values does not match the columns")
    return Tab(v, index, cols, _cls)


CLASS_MODELS[pd.DataFrame] = _frame


def _series(data=None, index=None, name=None, dtype=None, **k):
    used("DataFrame/Series constructor: values, row and column labels as given")
    if isinstance(data, Tab):
        data = data.v
    if isinstance(data, (float, int)) or data is None:
        n = M.m_len(index)
        data = SArr.from_fn((P_(n),), lambda i: app("NaN", (), "R"), "float")
    v = as_arr(data)
    if index is None:
        index = _range(v._shape[0])
    elif not isinstance(index, (SIndex, SMulti, Cols)):
        index = SIndex(as_arr(index))
    if not E().decide(eq(P_(index._vc_len()), v._shape[0])):
        raise ValueError("Length of values does not match length of index")
    return Tab(v, index, None, pd.Series, name=name)


CLASS_MODELS[pd.Series] = _series


def _collection(data=None, index=None, columns=None, fixed_delta=None, validate=True, **k):
    """TSCDataFrame(...): a DataFrame with the same labels that passed _validate (contract: C01)"""
    t = _frame(data, index=index, columns=columns)
    if not isinstance(t.index, SMulti):
        raise AttributeError("index must be of type pd.MultiIndex")
    t.__dict__["_vc_type"] = _tsc()
    if getattr(data, "perm", None) is not None:
        t.__dict__["perm"] = data.perm
    if isinstance(data, Tab) and "rows" in data.__dict__:
        t.__dict__["rows"] = data.__dict__["rows"]
    return t


def install():
    CLASS_MODELS[_tsc()] = _collection


def _sort_index(self, axis=0, level=None, **k):
    """rows permuted together with their labels, increasing labels"""
    used("sort_index: a permutation of the rows together with their labels")
    p = M.rng_permutation(mknum(self.v._shape[0], "int"))
    t = self._take((p, slice(None)) if self.v.ndim == 2 else p)
    t.__dict__["perm"] = p
    return t


Tab.sort_index = _sort_index


class Ragged:
    """laws of a well-formed collection stored row by row: pos(p) rank of row p in its series, len(p) its length"""


class Groups:
    """groupby(series): head / tail by the rank of a row in its series"""

    _vc_sym = True

    def __init__(self, t):
        self.t = t

    def head(self, n=5):
        used("groupby(ID).head(n) / tail(n): the first / last n rows of every series, in order")
        if "m" in self.t.__dict__:
            return self._block(P_(n), const(0, "I"))
        c = SArr.from_fn((self.t.v._shape[0],), lambda i: lt(self.t.rank(i[0]), P_(n)), "bool")
        return self.t._take((c, slice(None)))

    def tail(self, n=5):
        used("groupby(ID).head(n) / tail(n): the first / last n rows of every series, in order")
        if "m" in self.t.__dict__:
            return self._block(P_(n), P_(self.t.m) - P_(n))
        c = SArr.from_fn((self.t.v._shape[0],), lambda i: ge(self.t.rank(i[0]), self.t.length(i[0]) - P_(n)), "bool")
        return self.t._take((c, slice(None)))


def _block(self, n, first):
    """n rows from rank `first` of every series of a collection of equal length"""
    t = self.t
    if not E().decide(le(n, P_(t.m))):
        return t
    rows = SArr.from_fn((P_(t.K) * n,), lambda i: T.floordiv(i[0], n) * P_(t.m) + first + T.mod(i[0], n), "int")
    rows._inbounds = t.v._shape[0]
    r = t._take((rows, slice(None)))
    val = t.val
    r.index.l[0] = SIndex(SArr.from_fn((P_(t.K) * n,), lambda i: t.ids_.elem((T.floordiv(i[0], n),)), "int"))
    r.index.l[1] = SIndex(SArr.from_fn((P_(t.K) * n,), lambda i: t.times_.elem((first + T.mod(i[0], n),)), t.times_.dt))
    r.index.l[0].first, r.index.l[0].uniq = SIndex(t.ids_, "ID"), (t.ids_, SArr.from_fn((P_(t.K),), lambda i: n, "int"))
    return r


Groups._block = _block


def _groupby(self, by=None, axis=0, level=None, **k):
    if "rank" not in self.__dict__:
        raise Unsupported("groupby")
    return Groups(self)


Tab.groupby = _groupby


def _get_locs(self, seq):
    """rows whose time is one of the given ones (any order of the request)"""
    a, b = seq
    if not _full(a):
        raise Unsupported("get_locs")
    used("MultiIndex.get_locs([:, times]): the positions of the rows whose time is requested")
    return nonzero_mask(M.np_isin(self.l[1].a, M.np_atleast_1d(b)))


SMulti.get_locs = _get_locs


def _drop(self, labels=None, axis=0, **k):
    """drop(rows of a table taken from this one by position): the other rows, in order"""
    if axis == 1 and self.columns.labels is not None:
        ls = _labels(labels) or [labels]
        if any(x not in self.columns.labels for x in ls):
            raise KeyError(str(ls))
        return self._read((slice(None), [x for x in self.columns.labels if x not in ls]))
    raise Unsupported("drop")


Tab.drop = _drop


def _contains(self, x):
    x = num(x)[0]
    n = fresh_name("ct")
    f = T.forall(n, self.a._shape[0], fnot(eq(self.a.elem((var(n, "I"),)), x)))
    return E().decide(fnot(f))


SIndex.__contains__ = _contains


def _concat(objs, axis=0, sort=False, **k):
    objs = list(objs)
    if axis == 0:
        used("concat(axis=0): the rows of the tables one after the other")
        v = M.np_concatenate([o.v for o in objs], axis=0)
        ix = SMulti(M.np_concatenate([o.index.l[0].a for o in objs]), M.np_concatenate([o.index.l[1].a for o in objs]))
        return Tab(v, ix, objs[0].columns, objs[0]._vc_type)
    used("concat(axis=1): columns side by side for equal row labels")
    v = M.np_concatenate([o.v for o in objs], axis=1)
    ls = [_labels(o.columns) if o.columns is not None else None for o in objs]
    return Tab(v, objs[0].index, Cols(v._shape[1]) if any(l is None for l in ls) else cols_of([x for l in ls for x in l], v._shape[1]), objs[0]._vc_type, parts=objs)


MODELS[pd.concat] = _concat
MODELS[pd.isnull] = MODELS[pd.isna] = lambda x: False if isinstance(x, (SNum, Tab)) else pd.isnull(x)


def _types():
    import pandas.api.types as pt

    MODELS[pt.is_datetime64_dtype] = lambda x: False
    MODELS[pt.is_timedelta64_dtype] = lambda x: False


_types()


def np_resize(a, shape):
    a = as_arr(a).snapshot()
    n = a._shape[0]
    s = shape if not isinstance(shape, (tuple, list)) else shape[0]
    return SArr.from_fn((P_(s),), lambda i: a.elem((T.mod(i[0], n),)), a.dt)


MODELS[np.resize] = np_resize


# ------------------------------------------------------------------ collections handed to contracts
def tensor_collection(v, name="X", K=None, m=None, n=None, t0=None):
    """K series with the same m times, n features: row k m + r holds series k at time r"""
    K = v.int("K", 1) if K is None else K
    m = v.int("m", 1) if m is None else m
    n = v.int("n", 1) if n is None else n
    val = v.array(name, (K, m, n))
    ids, times = v.array("id", (K,), dt="int", nonneg=True), v.array("time", (m,), nonneg=True)
    i = var(v.e.name("i"), "I")
    v.assume_forall(K - 1, lambda k: ids[k] < ids[k + 1])
    v.assume_forall(m - 1, lambda r: times[r] < times[r + 1])
    c = grid(v, val, ids, times)
    return c


def grid(v, val, ids, times, columns=None):
    K, m, n = val._shape
    km = K * m
    l0 = SIndex(SArr.from_fn((km,), lambda i: ids.elem((T.floordiv(i[0], m),)), "int"))
    l1 = SIndex(SArr.from_fn((km,), lambda i: times.elem((T.mod(i[0], m),)), times.dt))
    l0.first = SIndex(ids, "ID")
    l0.uniq = (ids, SArr.from_fn((K,), lambda i: m, "int"))
    flat = SArr.from_fn((km, n), lambda i: val.elem((T.floordiv(i[0], m), T.mod(i[0], m), i[1])), "float")
    t = Tab(flat, SMulti(l0, l1, levels=[SLevel(ids, "ID"), SIndex(times, "time")]), columns, _tsc())
    t.__dict__.update(K=mknum(K, "int"), m=mknum(m, "int"), n=mknum(n, "int"), val=val, ids_=ids, times_=times)

    def rows(self, key):
        if isinstance(key, tuple) and len(key) == 2 and _full(key[0]):  # one time of every series
            r = SIndex(times).position(key[1])
            used("loc[(slice, t), :]: the rows labelled with time t, in order")
            sub = SArr.from_fn((K, n), lambda i: val.elem((i[0], r, i[1])), "float")
            return Tab(sub, SIndex(ids), self.columns)
        if isinstance(key, (SNum, int)):
            k = SIndex(ids).position(key)
            used("loc[id, :]: the rows of the series id, labelled with time")
            sub = SArr.from_fn((m, n), lambda i: val.elem((k, i[0], i[1])), "float")
            return Tab(sub, SIndex(times), self.columns)
        raise Unsupported(f"loc[{key!r}] of a collection")

    t.__dict__["rows"] = rows

    def itertimeseries(valid_tsc=False):
        used("itertimeseries: every (identifier, series) of the collection once")
        return SList(K, lambda k: (ids[k], rows(t, ids[k])))

    t.__dict__["itertimeseries"] = itertimeseries
    t.__dict__["rank"] = lambda p: T.mod(p, m)
    t.__dict__["length"] = lambda p: m
    return t


def rows_collection(v, name="X", n=None, N=None):
    """any well-formed collection, row by row: identifiers, times, rank of the row in its series, length of the series"""
    N = v.int("N", 1) if N is None else N
    n = v.int("n", 1) if n is None else n
    ids, times = v.array("id", (N,), dt="int", nonneg=True), v.array("time", (N,), nonneg=True)
    pos, ln = v.array("rank", (N,), dt="int", nonneg=True), v.array("len", (N,), dt="int", pos=True)
    val = v.array(name, (N, n))
    v.assume(pos[0] == 0)
    v.assume(pos[N - 1] == ln[N - 1] - 1)
    v.assume_forall(N, lambda p: pos[p] < ln[p])
    v.assume_forall(N - 1, lambda p: v.implies(ids[p + 1] == ids[p], v.and_(pos[p + 1] == pos[p] + 1, ln[p + 1] == ln[p], times[p] < times[p + 1])))
    v.assume_forall(N - 1, lambda p: v.implies(v.not_(ids[p + 1] == ids[p]), v.and_(pos[p + 1] == 0, pos[p] == ln[p] - 1)))
    t = Tab(val, SMulti(SIndex(ids), SIndex(times)), None, _tsc())
    t.__dict__.update(N=N, n=n, val=val, ids_=ids, times_=times, pos_=pos, len_=ln, rank=lambda p: pos.elem((p,)), length=lambda p: ln.elem((p,)))
    return t

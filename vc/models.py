"""Contract models of numpy / scipy / builtin functions on symbolic values (trusted base).

Every entry states what the library function returns in terms of its arguments.  Functions
whose result has no closed elementwise form (eig, lstsq, svd, argsort, ...) return opaque
arrays that are functions of the argument's normal form, together with the defining
equations of the library contract as rewrite rules or facts.
"""
import functools
import numbers
import operator

import numpy as np

from . import terms as T
from . import prover as P
from .arrays import *  # noqa
from .arrays import (
    SArr, SNum, SBool, Sym, V, P_, as_arr, mknum, mkbool, to_form, num, dim, E, Engine,
    elementwise2, ew1, bool2, matmul, reshape, squeeze, broadcast_shapes, bidx, simplify_scalar,
    dt_join, dt_name, sort_of, Template, Cell, real_p, imag_p, conj_p, abs_p, trunc_p, prod_dims,
    norm_index, REAL_FNS, COMPLEX_FNS, op_add, op_sub, op_mul, op_div, op_pow, op_max, op_min,
)
from .terms import *  # noqa

MODELS = {}
ARR_METHODS = {}
USED = set()  # names of library contracts relied upon in this run


def model(*fs):
    def deco(g):
        for f in fs:
            MODELS[f] = g
        return g

    return deco


# ------------------------------------------------------------------ symbolic sequences
class SList(Sym):
    """list / iterable of symbolic length"""

    def __init__(self, n, fn):
        self.n = P_(n)
        self.fn = fn

    def at(self, k):
        return self.fn(k)

    def __len__(self):
        v = self.n.as_int()
        if v is None:
            raise Unsupported("len() of a symbolic list outside instrumented code")
        return v

    def __getitem__(self, k):
        if isinstance(k, slice):
            from .arrays import norm_slice

            st, ln, step = norm_slice(k, self.n)
            return SList(ln, lambda i: self.fn(mknum(st + P_(i) * step, "int")))
        return self.fn(mknum(norm_index(k, self.n), "int"))

    def __iter__(self):
        v = self.n.as_int()
        if v is None:
            raise Unsupported("iteration over a symbolic list outside instrumented code")
        return iter([self.fn(i) for i in range(v)])

    def __add__(self, o):
        o = as_slist(o)
        n1 = self.n

        def f(k):
            k = P_(k)
            if E().entails(lt(k, n1)):
                return self.fn(mknum(k, "int"))
            if E().entails(ge(k, n1)):
                return o.fn(mknum(k - n1, "int"))
            return sym_ite(lt(k, n1), self.fn(mknum(k, "int")), o.fn(mknum(k - n1, "int")))

        return SList(n1 + o.n, f)

    def __radd__(self, o):
        return as_slist(o) + self

    def to_arr(self):
        nm = fresh_name("l")
        e = E()
        e.binders.append(nm)
        try:
            k = var(nm, "I")
            with hyp(ge(k, 0), lt(k, self.n)):
                item = self.fn(mknum(k, "int"))
                if isinstance(item, (str,)):
                    raise Unsupported("symbolic list of strings as array")
                it = as_arr(item)
                shape = it._shape
                if any(nm in s.fv for s in shape):
                    raise Unsupported("ragged list")
                tmpl = Template(len(shape), lambda idx: it.elem(idx))
        finally:
            e.binders.pop()
        return SArr.from_fn((self.n,) + tuple(shape), lambda idx: subst(tmpl.at(tuple(idx[1:])), {nm: idx[0]}), it.dt)

    def __repr__(self):
        return f"SList[{self.n!r}]"


class hyp:
    """temporary local hypotheses (bound variables of comprehensions / templates)"""

    def __init__(self, *fs):
        self.fs = [f for f in fs if f is not TRUE]

    def __enter__(self):
        e = E()
        self.n = len(e.pc)
        e.pc.extend(self.fs)
        e._ctx = None

    def __exit__(self, *a):
        e = E()
        # assumptions added inside the scope that do not mention the binder stay
        del e.pc[self.n:self.n + len(self.fs)]
        e._ctx = None


def as_slist(x):
    if isinstance(x, SList):
        return x
    if isinstance(x, (list, tuple)):
        lst = list(x)

        def f(k):
            v = P_(k).as_int()
            if v is None:
                if not lst:
                    raise Unsupported("index into empty list")
                r = lst[-1]
                for q in range(len(lst) - 2, -1, -1):
                    r = sym_ite(eq(P_(k), q), lst[q], r)
                return r
            return lst[v]

        return SList(len(lst), f)
    if isinstance(x, SArr):
        return SList(x._shape[0], lambda k: x[k])
    if isinstance(x, np.ndarray):
        return SList(len(x), lambda k: as_arr(x)[k])
    if isinstance(x, SRange):
        return SList(x.n, lambda k: x.start + k * x.step)
    raise Unsupported(f"sequence of type {type(x)}")


def sym_ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if isinstance(a, str) or isinstance(b, str):
        raise Unsupported("conditional string")
    A, B = as_arr(a), as_arr(b)
    shp = broadcast_shapes(A._shape, B._shape)
    return simplify_scalar(
        SArr.from_fn(shp, lambda i: ite(c, A.real_elem(bidx(A._shape, i, shp)), B.real_elem(bidx(B._shape, i, shp))), dt_join(A.dt, B.dt))
    )


class SRange(Sym):
    def __init__(self, start, n, step):
        self.start, self.n, self.step = start, P_(n), step

    def at(self, k):
        return self.start + k * self.step

    def __len__(self):
        v = self.n.as_int()
        if v is None:
            raise Unsupported("len of symbolic range")
        return v

    def __iter__(self):
        v = self.n.as_int()
        if v is None:
            raise Unsupported("iteration over a symbolic range outside instrumented code")
        return iter([self.at(k) for k in range(v)])

    def __getitem__(self, k):
        return self.at(k)

    def __repr__(self):
        return f"range({self.start}, +{self.n!r})"


# ------------------------------------------------------------------ builtins
@model(len)
def m_len(x):
    if isinstance(x, SArr):
        if x.ndim == 0:
            raise TypeError("len() of unsized object")
        return dim(x._shape[0])
    if isinstance(x, (SList, SRange)):
        return dim(x.n)
    h = getattr(x, "_vc_len", None)
    if h is not None:
        return h()
    return len(x)


@model(range)
def m_range(*a):
    if len(a) == 1:
        start, stop, step = 0, a[0], 1
    elif len(a) == 2:
        (start, stop), step = a, 1
    else:
        start, stop, step = a
    sv = P_(step).as_int()
    if sv in (None, 0):
        raise Unsupported("symbolic range step")
    d = (P_(stop) - P_(start)) if sv > 0 else (P_(start) - P_(stop))
    if d.as_int() is not None and P_(start).as_int() is not None:
        return range(P_(start).as_int(), P_(stop).as_int(), sv)
    e = E()
    if not e.entails(ge(d, 0)):
        if e.decide(lt(d, 0)):
            d = const(0, "I")
    if abs(sv) != 1:
        d = T.floordiv(d + (abs(sv) - 1), const(abs(sv), "I"))
    return SRange(start, d, sv)


@model(enumerate)
def m_enumerate(x, start=0):
    s = as_slist(x)
    return SList(s.n, lambda k: (k + start, s.at(k)))


@model(zip)
def m_zip(*xs, strict=False):
    ss = [as_slist(x) for x in xs]
    n = ss[0].n
    for s in ss[1:]:
        if s.n is not n:
            e = E()
            if e.decide(eq(s.n, n)):
                continue
            if e.decide(lt(s.n, n)):
                n = s.n
    return SList(n, lambda k: tuple(s.at(k) for s in ss))


@model(reversed)
def m_reversed(x):
    s = as_slist(x)
    return SList(s.n, lambda k: s.at(mknum(s.n - 1 - P_(k), "int")))


@model(list, tuple)
def m_list(x=()):
    if isinstance(x, (SArr, SRange)):
        s = as_slist(x)
        v = s.n.as_int()
        return [s.at(i) for i in range(v)] if v is not None else s
    if isinstance(x, SList):
        v = x.n.as_int()
        return [x.at(i) for i in range(v)] if v is not None else x
    return list(x)


MODELS[tuple] = lambda x=(): tuple(m_list(x)) if isinstance(m_list(x), list) else m_list(x)


@model(int)
def m_int(x=0, *a):
    if isinstance(x, SArr):
        x = x._scalar()
    if isinstance(x, SBool):
        return mknum(b2i(x.form), "int")
    if isinstance(x, SNum):
        return cast(x, "int")
    return int(x)


from .arrays import cast, floor_p  # noqa


@model(float)
def m_float(x=0.0):
    if isinstance(x, SArr):
        x = x._scalar()
    if isinstance(x, SNum):
        return mknum(T.with_sort(x.p, "R"), "float")
    return float(x)


@model(bool)
def m_bool(x=False):
    return bool(x)


@model(abs)
def m_abs(x):
    return abs(x)


@model(divmod)
def m_divmod(a, b):
    return a // b, a % b


@model(round)
def m_round(x, nd=None):
    if isinstance(x, SNum) and x.dt == "int":
        return x
    return np_round(x, nd or 0)


@model(max)
def m_max(*a, **k):
    return _minmax(op_max, a, k)


@model(min)
def m_min(*a, **k):
    return _minmax(op_min, a, k)


def _minmax(op, a, k):
    if k.get("key") is not None:
        raise Unsupported("min/max with key")
    if len(a) == 1:
        a = a[0]
        if isinstance(a, (SArr,)):
            return np_max(a) if op is op_max else np_min(a)
        a = list(a)
    r = a[0]
    for x in a[1:]:
        (p, d), (q, dd) = num(r), num(x)
        e = E()
        # keep python semantics: decide when possible
        if op is op_max:
            if e.entails(ge(p, q)):
                continue
            if e.entails(ge(q, p)):
                r = x
                continue
        else:
            if e.entails(le(p, q)):
                continue
            if e.entails(le(q, p)):
                r = x
                continue
        v, dt = op(p, q, d, dd)
        r = mknum(v, dt)
    return r


@model(sum)
def m_sum(x, start=0):
    if isinstance(x, (SList, SArr, SRange)):
        s = as_slist(x)
        v = s.n.as_int()
        if v is None:
            r = np_sum(SList(s.n, s.at).to_arr(), axis=0)
            return r + start
        x = [s.at(i) for i in range(v)]
    r = start
    for y in x:
        r = r + y
    return r


@model(all)
def m_all(x):
    if isinstance(x, SArr):
        return bool(np_all(x))
    if isinstance(x, SList):
        return bool(np_all(x.to_arr()))
    return all(x)


@model(any)
def m_any(x):
    if isinstance(x, SArr):
        return bool(np_any(x))
    if isinstance(x, SList):
        return bool(np_any(x.to_arr()))
    return any(x)


@model(sorted)
def m_sorted(x, **k):
    raise Unsupported("sorted of symbolic values")


@model(type)
def m_type(x):
    if isinstance(x, SArr):
        return x.pytype
    if isinstance(x, SNum):
        return {"int": int, "float": float, "bool": bool, "complex": complex}.get(x.dt, float)
    if isinstance(x, SBool):
        return bool
    h = getattr(x, "_vc_type", None)
    return h if h is not None else type(x)


@model(isinstance)
def m_isinstance(x, cls):
    ts = cls if isinstance(cls, tuple) else getattr(cls, "__args__", None) or (cls,)
    t = []
    for c in ts:
        t.extend(c if isinstance(c, tuple) else [c])
    if isinstance(x, SArr):
        import scipy.sparse as sp

        base = x.pytype if not x.sparse else x.sparse.pytype
        return any(isinstance(c, type) and issubclass(base, c) for c in t)
    if isinstance(x, SNum):
        py = {"int": (int, np.int64), "float": (float, np.float64), "complex": (complex, np.complex128)}.get(x.dt, (float,))
        return any(isinstance(c, type) and any(issubclass(p, c) for p in py) for c in t)
    if isinstance(x, SBool):
        return any(isinstance(c, type) and (issubclass(bool, c) or issubclass(np.bool_, c)) for c in t)
    if isinstance(x, SList):
        return any(isinstance(c, type) and issubclass(list, c) for c in t)
    if isinstance(x, SRange):
        return any(isinstance(c, type) and issubclass(range, c) for c in t)
    vt = getattr(x, "_vc_type", None)
    if vt is not None:
        return any(isinstance(c, type) and issubclass(vt, c) for c in t)
    return isinstance(x, cls)


@model(print)
def m_print(*a, **k):
    return None


@model(str, repr)
def m_str(x="", *a):
    return repr(x)


@model(hasattr)
def m_hasattr(x, n):
    return hasattr(x, n)


@model(getattr)
def m_getattr(x, n, *d):
    return getattr(x, n, *d)


@model(setattr)
def m_setattr(x, n, v):
    return setattr(x, n, v)


@model(callable)
def m_callable(x):
    return not isinstance(x, Sym) and callable(x)


@model(id)
def m_id(x):
    return id(x)


@model(slice)
def m_slice(*a):
    return slice(*a)


@model(dict)
def m_dict(*a, **k):
    return dict(*a, **k)


@model(iter)
def m_iter(x):
    return iter(x)


# ------------------------------------------------------------------ elementwise ufuncs
def _out(r, out):
    if out is None:
        return r
    if isinstance(out, tuple):
        out = out[0]
    if isinstance(out, SArr):
        out.assign_all(r)
        return out
    raise Unsupported(f"out= into {type(out).__name__}")


def _unary(f):
    def g(x, out=None, where=True, **k):
        if where is not True:
            raise Unsupported("ufunc where=")
        x = as_arr(x)
        return _out(ew1(f, x), out)

    return g


def _binary(f):
    def g(x, y, out=None, where=True, **k):
        if where is not True:
            raise Unsupported("ufunc where=")
        return _out(elementwise2(f, x, y), out)

    return g


def _fl(d):
    return d if d in ("float", "complex") else "float"


MODELS.update({
    np.exp: _unary(lambda p, d: (T.exp_(p), _fl(d))),
    np.log: _unary(lambda p, d: (T.log_(p), _fl(d))),
    np.sqrt: _unary(lambda p, d: (T.sqrt_(p), _fl(d))),
    np.square: _unary(lambda p, d: (p * p, d)),
    np.abs: _unary(lambda p, d: (abs_p(p, d), "float" if d == "complex" else d)),
    np.absolute: _unary(lambda p, d: (abs_p(p, d), "float" if d == "complex" else d)),
    np.negative: _unary(lambda p, d: (-p, d)),
    np.reciprocal: _unary(lambda p, d: (T.inverse(p), d) if d in ("float", "complex") else _uns("reciprocal of ints")),
    np.conj: _unary(lambda p, d: (conj_p(p, d), d)),
    np.conjugate: _unary(lambda p, d: (conj_p(p, d), d)),
    np.real: _unary(lambda p, d: (real_p(p, d), "float" if d == "complex" else d)),
    np.imag: _unary(lambda p, d: (imag_p(p, d), "float" if d == "complex" else d)),
    np.sin: _unary(lambda p, d: (app("sin", (T.with_sort(p, "R"),), "R"), _fl(d))),
    np.cos: _unary(lambda p, d: (app("cos", (T.with_sort(p, "R"),), "R"), _fl(d))),
    np.tanh: _unary(lambda p, d: (app("tanh", (T.with_sort(p, "R"),), "R"), _fl(d))),
    np.sign: _unary(lambda p, d: (ite(gt(p, 0), const(1, p.sort), ite(lt(p, 0), const(-1, p.sort), const(0, p.sort))), d)),
    np.isnan: _unary(lambda p, d: (_isnan(p), "bool")),
    np.isinf: _unary(lambda p, d: (fbool(_isinf_p(p)), "bool")),
    np.isfinite: _unary(lambda p, d: (fand(fnot(_isnan(p)), fbool(not _isinf_p(p))), "bool")),
    np.floor: _unary(lambda p, d: (floor_p(p), _fl(d))),
    np.ceil: _unary(lambda p, d: (-floor_p(-p), _fl(d))),
    np.logical_not: _unary(lambda p, d: (eq(p, 0), "bool")),
    np.add: _binary(op_add),
    np.subtract: _binary(op_sub),
    np.multiply: _binary(op_mul),
    np.divide: _binary(op_div),
    np.true_divide: _binary(op_div),
    np.power: _binary(lambda a, b, da, db: op_pow(a, b, da, db)),
    np.float_power: _binary(lambda a, b, da, db: op_pow(T.with_sort(a, 'R'), T.with_sort(b, 'R'), _fl(da), _fl(db))),
    np.maximum: _binary(op_max),
    np.minimum: _binary(op_min),
    np.mod: _binary(lambda a, b, da, db: (T.mod(a, b), dt_join(da, db))),
    np.floor_divide: _binary(lambda a, b, da, db: (T.floordiv(a, b), dt_join(da, db))),
})
for _op, _n in ((operator.add, "__add__"), (operator.sub, "__sub__"), (operator.mul, "__mul__")):
    MODELS[_op] = _op


def _rel(op):
    def g(a, b, out=None, where=True, **k):
        if where is not True:
            raise Unsupported("ufunc where=")
        return _out(op(as_any(a), b), out)

    return g


def _logic(f):
    def g(a, b, out=None, where=True, **k):
        if where is not True:
            raise Unsupported("ufunc where=")
        return _out(bool2(f, tob(a), tob(b)), out)

    return g


MODELS.update({np.less: _rel(operator.lt), np.greater: _rel(operator.gt), np.less_equal: _rel(operator.le), np.greater_equal: _rel(operator.ge),
               np.equal: _rel(operator.eq), np.not_equal: _rel(operator.ne),
               np.logical_or: _logic(lambda x, y: T._or([x, y])), np.logical_and: _logic(lambda x, y: fand(x, y))})


def as_any(a):
    return a if isinstance(a, Sym) else as_arr(a)


def tob(a):
    a = as_arr(a)
    return a if a.dt == "bool" else SArr.from_fn(a._shape, lambda i: ne(a.elem(i), 0), "bool")


def _uns(msg):
    raise Unsupported(msg)


def _isinf_p(p):
    from .arrays import _isinf

    return bool(_isinf(p))


def _isnan(p):
    """symbolic inputs are numbers; only arrays declared partial (nan-able) may be nan"""
    for a in p.atoms():
        if a.kind == "A" and a.args[0] in NAN_FNS:
            return T.pred("isnan_" + a.args[0], a.args[1])
        if a.kind == "A" and a.args[0] == "const_nan":
            return TRUE
    return FALSE


NAN_FNS = set()


@model(np.clip)
def np_clip(a, lo, hi, out=None):
    return _out(elementwise2(op_min, elementwise2(op_max, a, lo), hi), out)


@model(np.round, np.around)
def np_round(x, nd=0, out=None):
    nd = P_(nd).as_int()
    return ew1(lambda p, d: (p, d) if p.sort == "I" else (app(f"round{nd}", (p,), "R"), d), x)


@model(np.where)
def np_where(c, *ab):
    if not ab:
        c = tob(c)
        if c.ndim != 1:
            raise Unsupported("np.where on n-d")
        return (nonzero_mask(c),)
    a, b = ab
    c, a, b = tob(c), as_arr(a), as_arr(b)
    shp = broadcast_shapes(c._shape, a._shape, b._shape)
    return SArr.from_fn(
        shp,
        lambda i: ite(c.elem(bidx(c._shape, i, shp)), a.real_elem(bidx(a._shape, i, shp)), b.real_elem(bidx(b._shape, i, shp))),
        dt_join(a.dt, b.dt),
    )


# ------------------------------------------------------------------ opaque functions
_opaque_ids = {}


def norm_key(k, shape):
    """the element expression, simplified where its conditions are decided by the path and the index ranges"""
    if not isinstance(k, T.Poly) or not _has_ite(k):
        return k
    rng = [f for i, n in enumerate(shape) for f in (ge(var(f"%k.{i}", "I"), 0), lt(var(f"%k.{i}", "I"), n))]
    return P.Simp(E().ctx().child(*rng)).poly(k)


def _has_ite(k):
    seen = {}
    P._collect(k, seen)
    return any(a.kind == "I" for a in seen)


def opaque_key(arrs, extra=()):
    """(id, free variables): canonical identity of argument arrays"""
    bodies = []
    fv = set()
    for a in arrs:
        a = as_arr(a)
        s = a if a.view_ is None else a.snapshot()
        k = norm_key(s.cell.t.key(), a._shape)
        bodies.append((a._shape, k, a.dt == "complex"))
        fv |= {n for n in k.fv if not n.startswith("%k.")}
        for d in a._shape:
            fv |= set(d.fv)
    # only bound / loop variables become arguments, path-level constants are part of the key
    e = E()
    args = sorted(n for n in fv if "!" in n or n.startswith("k@") or n in e.binders or n.startswith("?") or n.startswith("%"))
    sub = {n: var(f"%f{i}", "I") for i, n in enumerate(args)}
    key = tuple((tuple(subst(d, sub).uid for d in shp), subst(k, sub).uid, c) for shp, k, c in bodies) + tuple(extra)
    i = _opaque_ids.setdefault(key, len(_opaque_ids))
    return i, tuple(var(n, "I") for n in args)


def opaque(fname, arrs, shape, dt="float", extra=(), real=True, nonneg=False):
    i, fv = opaque_key(arrs, extra)
    nm = f"{fname}#{i}"
    if dt == "complex":
        COMPLEX_FNS.add(nm)
    if nonneg:
        P.NONNEG_FNS.add(nm)
    shape = tuple(P_(s) for s in shape)
    if dt == "bool":
        a = SArr.from_fn(shape, lambda idx: T.pred(nm, fv + tuple(idx)), "bool")
    else:
        a = SArr.from_fn(shape, lambda idx: app(nm, fv + tuple(idx), sort_of(dt)), dt)
    a.fname = nm
    a.nfv = len(fv)
    a.fvars = fv
    return a


def nonzero_mask(c):
    """indices where the 1-d mask is true, in order (length and entries opaque)"""
    # trivially all-true / all-false masks
    n = c._shape[0]
    x = fresh_var("z")
    el = c.elem((x,))
    if el is TRUE:
        r = SArr.from_fn((n,), lambda i: i[0], "int")
        return r
    if n.as_int() is not None and n.as_int() <= 8:
        # concrete length: decide every entry
        keep = [k for k in range(n.as_int()) if E().decide(c.elem((const(k, "I"),)))]
        return as_arr(np.array(keep, dtype=int))
    if el is FALSE:
        return as_arr(np.zeros(0, dtype=int))
    if not E().spec and not E().binders and E().entails(T.forall(T.vname(x), n, el)):
        # the path condition says that every entry is true
        return SArr.from_fn((n,), lambda i: i[0], "int")
    i, fv = opaque_key([c])
    USED.add("boolean mask selects the positions of True entries in increasing order")
    cnt = app(f"nnz#{i}", fv, "I")
    nm = f"sel#{i}"
    P.NONNEG_FNS.add(nm)
    r = SArr.from_fn((cnt,), lambda idx: app(nm, fv + tuple(idx), "I"), "int")
    e = E()
    q, q2 = fresh_name("a"), fresh_name("b")
    vq = var(q, "I")
    s = app(nm, fv + (vq,), "I")
    e.assume(fand(ge(cnt, 0), le(cnt, n)))
    e.assume(T.forall(q, cnt, fand(ge(s, 0), lt(s, n), c.elem((s,)))))
    # position of a true index
    inv = app(f"pos#{i}", fv + (vq,), "I")
    e.assume(T.forall(q, n, T.implies(c.elem((vq,)), fand(ge(inv, 0), lt(inv, cnt), eq(app(nm, fv + (inv,), "I"), vq)))))
    v2 = var(q2, "I")
    s2 = app(nm, fv + (v2,), "I")
    e.assume(T.forall(q, cnt, T.forall(q2, cnt, T.implies(lt(vq, v2), lt(s, s2)))))
    r._inbounds = n
    r.mask = c
    r.pos = lambda p: mknum(app(f"pos#{i}", fv + (P_(p),), "I"), "int")
    return r


@model(np.nonzero)
def np_nonzero(a):
    a = as_arr(a)
    if a.ndim != 1:
        raise Unsupported("np.nonzero n-d")
    return (nonzero_mask(a if a.dt == "bool" else a != 0),)


@model(np.flatnonzero)
def np_flatnonzero(a):
    return np_nonzero(as_arr(a).ravel())[0]


# ------------------------------------------------------------------ construction
def _shape(s):
    if isinstance(s, (tuple, list)):
        return tuple(P_(x) for x in s)
    if isinstance(s, SArr):
        return tuple(P_(s[i]) for i in range(len(s)))
    return (P_(s),)


def _isdt(d, default="float"):
    return default if d is None else dt_name(d if not isinstance(d, np.dtype) else d)


@model(np.zeros)
def np_zeros(shape, dtype=None, order="C"):
    d = _isdt(dtype)
    return SArr.from_fn(_shape(shape), lambda i: FALSE if d == "bool" else const(0, sort_of(d)), d)


@model(np.ones)
def np_ones(shape, dtype=None, order="C"):
    d = _isdt(dtype)
    return SArr.from_fn(_shape(shape), lambda i: TRUE if d == "bool" else const(1, sort_of(d)), d)


@model(np.empty)
def np_empty(shape, dtype=None, order="C"):
    d = _isdt(dtype)
    nm = E().name("uninit")
    return SArr.from_fn(_shape(shape), lambda i: T.pred(nm, i) if d == "bool" else app(nm, i, sort_of(d)), d)


@model(np.full)
def np_full(shape, v, dtype=None, order="C"):
    p, d = num(v) if not (isinstance(v, SArr) and v.ndim) else _uns("np.full array")
    d = _isdt(dtype, d)
    if d == "bool":
        return SArr.from_fn(_shape(shape), lambda i: ne(p, 0), d)
    return SArr.from_fn(_shape(shape), lambda i: T.with_sort(p, "R") if sort_of(d) == "R" else p, d)


def _like(f):
    def g(a, dtype=None, **k):
        a = as_arr(a)
        return f(a._shape, dtype=dtype if dtype is not None else a.dtype)

    return g


MODELS[np.zeros_like] = _like(np_zeros)
MODELS[np.ones_like] = _like(np_ones)
MODELS[np.empty_like] = _like(np_empty)
MODELS[np.full_like] = lambda a, v, dtype=None, **k: np_full(as_arr(a)._shape, v, dtype or as_arr(a).dtype)


@model(np.eye)
def np_eye(n, m=None, k=0, dtype=float):
    m = n if m is None else m
    kk = P_(k)
    return SArr.from_fn((P_(n), P_(m)), lambda i: ite(eq(i[0] + kk, i[1]), const(1, "R"), const(0, "R")), _isdt(dtype))


@model(np.identity)
def np_identity(n, dtype=None):
    return np_eye(n, dtype=dtype or float)


@model(np.arange)
def np_arange(*a, dtype=None):
    if len(a) == 1:
        start, stop, step = 0, a[0], 1
    elif len(a) == 2:
        (start, stop), step = a, 1
    else:
        start, stop, step = a
    ps, ds = num(start)
    pe, de = num(stop)
    pt, dtp = num(step)
    if dt_join(ds, de, dtp) == "int":
        r = m_range(start, stop, step)
        if isinstance(r, range):
            r = SRange(r.start, len(r), r.step)
        st, sp = P_(r.start), P_(r.step)
        return SArr.from_fn((r.n,), lambda i: st + i[0] * sp, _isdt(dtype, "int"))
    # float arange: ceil((stop-start)/step) entries
    n = app("ceil_i", (T.with_sort((pe - ps) / pt, "R"),), "I")
    q = (T.with_sort(pe - ps, "R") / T.with_sort(pt, "R"))
    if q.sort == "R":
        qi = as_int_poly(q)
        if qi is not None:
            n = qi
    return SArr.from_fn((n,), lambda i: T.with_sort(ps, "R") + i[0] * T.with_sort(pt, "R"), _isdt(dtype, "float"))


def as_int_poly(q):
    """Int-sorted version of a real poly whose atoms are all ints with integer coefficients"""
    for m, c in q.t:
        if c.denominator != 1:
            return None
        for u, e in m:
            if T._atom_list[u].sort != "I" or e < 0:
                return None
    return T.mkpoly(q.t, "I")


@model(np.linspace)
def np_linspace(a, b, num_=50, **k):
    n = k.pop("num", num_)
    if k:
        raise Unsupported("linspace options")
    pa, pb, pn = num(a)[0], num(b)[0], P_(n)
    return SArr.from_fn((pn,), lambda i: T.with_sort(pa, "R") + i[0] * (T.with_sort(pb - pa, "R") / T.with_sort(pn - 1, "R")), "float")


@model(np.array)
def np_array(x, dtype=None, copy=True, ndmin=0, order=None, **k):
    if isinstance(x, SList):
        r = x.to_arr()
    else:
        r = as_arr(x).snapshot()
    if dtype is not None and dt_name(dtype) != r.dt:
        r = r.astype(dtype)
    while r.ndim < ndmin:
        r = r[None]
    return r


@model(np.asarray, np.asanyarray, np.ascontiguousarray)
def np_asarray(x, dtype=None, **k):
    if isinstance(x, SArr):
        if x.sparse:
            raise Unsupported("np.asarray of sparse")
        r = x
    elif isinstance(x, SList):
        r = x.to_arr()
    else:
        r = as_arr(x)
    if dtype is not None and dt_name(dtype) != r.dt:
        r = r.astype(dtype)
    return r


@model(np.copy)
def np_copy(x, **k):
    return as_arr(x).snapshot()


@model(np.atleast_1d)
def np_atleast_1d(x):
    x = as_arr(x)
    return reshape(x, (1,)) if x.ndim == 0 else x


@model(np.atleast_2d)
def np_atleast_2d(x):
    x = as_arr(x)
    if x.ndim == 0:
        return reshape(x, (1, 1))
    return x[None, :] if x.ndim == 1 else x


@model(np.atleast_3d)
def np_atleast_3d(x):
    x = as_arr(x)
    if x.ndim == 2:
        return x[:, :, None]
    if x.ndim == 1:
        return x[None, :, None]
    return x


# ------------------------------------------------------------------ structure
MODELS[np.reshape] = lambda a, s, order="C": reshape(as_arr(a), s, order)
MODELS[np.squeeze] = lambda a, axis=None: simplify_scalar(squeeze(a, axis))
MODELS[np.transpose] = lambda a, axes=None: as_arr(a).transpose(*([axes] if axes is not None else []))
MODELS[np.ravel] = lambda a, **k: as_arr(a).ravel()
MODELS[np.ndim] = lambda a: as_arr(a).ndim
MODELS[np.shape] = lambda a: as_arr(a).shape
MODELS[np.size] = lambda a, axis=None: as_arr(a).size if axis is None else dim(as_arr(a)._shape[axis])
MODELS[np.iscomplexobj] = lambda a: as_arr(a).dt == "complex"
MODELS[np.isrealobj] = lambda a: as_arr(a).dt != "complex"
MODELS[np.iscomplex] = lambda a: ew1(lambda p, d: (ne(imag_p(p, d), 0), "bool"), a)
MODELS[np.isscalar] = lambda a: isinstance(a, (SNum, SBool)) or np.isscalar(a)
MODELS[np.shares_memory] = lambda a, b: isinstance(a, SArr) and isinstance(b, SArr) and a.cell is b.cell
MODELS[np.issubdtype] = np.issubdtype
MODELS[np.result_type] = lambda *a: np.result_type(*[x.dtype if isinstance(x, Sym) else x for x in a])
MODELS[np.expand_dims] = lambda a, axis: as_arr(a)[tuple([slice(None)] * (axis % (as_arr(a).ndim + 1)) + [None] + [Ellipsis])]
MODELS[np.flip] = lambda a, axis=None: _flip(a, axis)
MODELS[np.fliplr] = lambda a: as_arr(a)[:, ::-1]
MODELS[np.flipud] = lambda a: as_arr(a)[::-1]
MODELS[np.swapaxes] = lambda a, i, j: as_arr(a).transpose(*_swap(as_arr(a).ndim, i, j))
MODELS[np.moveaxis] = lambda a, s, d: _moveaxis(as_arr(a), s, d)


def _flip(a, axis):
    a = as_arr(a)
    key = [slice(None)] * a.ndim
    for x in range(a.ndim) if axis is None else [axis]:
        key[x] = slice(None, None, -1)
    return a[tuple(key)]


def _swap(n, i, j):
    ax = list(range(n))
    ax[i], ax[j] = ax[j], ax[i]
    return ax


def _moveaxis(a, s, d):
    ax = list(range(a.ndim))
    x = ax.pop(s)
    d = d % a.ndim
    ax.insert(d, x)
    return a.transpose(*ax)


def concat(arrs, axis):
    nd = arrs[0].ndim
    axis %= nd
    if any(a.ndim != nd for a in arrs):
        raise ValueError("all the input array dimensions must match")
    shp = list(arrs[0]._shape)
    offs = [const(0, "I")]
    for a in arrs:
        offs.append(offs[-1] + a._shape[axis])
        for j in range(nd):
            if j != axis and a._shape[j] is not shp[j] and not E().decide(eq(a._shape[j], shp[j])):
                raise ValueError("all the input array dimensions except for the concatenation axis must match exactly")
    shp[axis] = offs[-1]
    d = dt_join(*[a.dt for a in arrs])
    snaps = [a.snapshot() for a in arrs]

    def f(idx):
        i = idx[axis]
        # last non-empty
        r = None
        for a, o in list(zip(snaps, offs))[::-1]:
            ii = list(idx)
            ii[axis] = i - o
            e = a.real_elem(tuple(ii))
            r = e if r is None else ite(lt(i, nxt), e, r)
            nxt = o
        return r

    def f2(idx):
        i = idx[axis]
        r = None
        for k in range(len(snaps) - 1, -1, -1):
            a = snaps[k]
            ii = list(idx)
            ii[axis] = i - offs[k]
            e = a.real_elem(tuple(ii))
            r = e if r is None else ite(lt(i, offs[k + 1]), e, r)
        return r

    out = SArr.from_fn(shp, f2, d)
    return out


def _seq(x):
    if isinstance(x, SArr):
        n = x._shape[0].as_int()
        if n is None:
            return None
        return [as_arr(x[i]) for i in range(n)]
    if isinstance(x, SList):
        v = x.n.as_int()
        if v is None:
            return None
        return [as_arr(x.at(i)) for i in range(v)]
    return [as_arr(y) for y in x]


@model(np.concatenate)
def np_concatenate(xs, axis=0, **k):
    s = _seq(xs)
    if s is None:
        return concat_sym(xs, axis)
    if axis is None:
        return concat([a.ravel() for a in s], 0)
    return concat(s, axis)


def concat_sym(xs, axis):
    """concatenation of a symbolic number of equally shaped blocks"""
    st = (xs if isinstance(xs, SList) else as_slist(xs)).to_arr()  # (n, ...)
    nd = st.ndim - 1
    if nd == 0:
        raise ValueError("zero-dimensional arrays cannot be concatenated")
    axis %= nd
    m = _moveaxis(st, 0, axis)  # n placed right before axis
    shp = list(st._shape[1:])
    shp[axis] = st._shape[0] * shp[axis]
    return reshape(m, tuple(shp))


@model(np.vstack, np.row_stack)
def np_vstack(xs, **k):
    s = _seq(xs)
    if s is None:
        a = as_slist(xs).to_arr()
        if a.ndim == 2:
            return a
        return concat_sym(xs, 0)
    return concat([np_atleast_2d(a) for a in s], 0)


@model(np.hstack)
def np_hstack(xs, **k):
    s = _seq(xs)
    if s is None:
        a = as_slist(xs).to_arr()
        return concat_sym(xs, 0 if a.ndim == 2 else 1)
    s = [np_atleast_1d(a) for a in s]
    return concat(s, 0 if s[0].ndim == 1 else 1)


@model(np.column_stack)
def np_column_stack(xs):
    s = _seq(xs)
    if s is None:
        a = as_slist(xs).to_arr()
        if a.ndim == 2:
            return a.T
        return concat_sym(xs, 1)
    return concat([a[:, None] if a.ndim == 1 else a for a in s], 1)


@model(np.stack)
def np_stack(xs, axis=0, **k):
    s = _seq(xs)
    if s is None:
        a = as_slist(xs).to_arr()
        return _moveaxis(a, 0, axis)
    shp0 = s[0]._shape
    for a in s[1:]:
        if a.ndim != len(shp0):
            raise ValueError("all input arrays must have the same shape")
        for p, q in zip(a._shape, shp0):
            if p is not q and not E().decide(eq(p, q)):
                raise ValueError("all input arrays must have the same shape")
    axis %= len(shp0) + 1
    d = dt_join(*[a.dt for a in s])
    snaps = [a.snapshot() for a in s]

    def f(idx):
        i = idx[axis]
        rest = tuple(idx[:axis]) + tuple(idx[axis + 1:])
        v = i.as_int()
        if v is not None and 0 <= v < len(snaps):
            return snaps[v].real_elem(rest)
        r = snaps[-1].real_elem(rest)
        for k in range(len(snaps) - 2, -1, -1):
            r = ite(eq(i, k), snaps[k].real_elem(rest), r)
        return r

    shp = list(shp0)
    shp.insert(axis, const(len(s), "I"))
    return SArr.from_fn(shp, f, d)


@model(np.append)
def np_append(a, b, axis=None):
    a, b = as_arr(a), as_arr(b)
    if axis is None:
        return concat([np_atleast_1d(a).ravel(), np_atleast_1d(b).ravel()], 0)
    return concat([a, b], axis)


@model(np.block)
def np_block(x):
    def depth(y):
        return 1 + depth(y[0]) if isinstance(y, list) else 0

    if depth(x) == 2:
        return np_vstack([np_hstack(r) for r in x])
    if depth(x) == 1:
        return np_hstack(x)
    raise Unsupported("np.block depth")


@model(np.tile)
def np_tile(a, reps):
    a = as_arr(a)
    if isinstance(reps, (tuple, list)):
        reps = [P_(r) for r in reps]
    else:
        reps = [P_(reps)]
    while len(reps) < a.ndim:
        reps.insert(0, const(1, "I"))
    while a.ndim < len(reps):
        a = a[None]
    s = a.snapshot()
    shp = [r * n for r, n in zip(reps, a._shape)]

    def f(idx):
        ii = []
        for i, r, n in zip(idx, reps, s._shape):
            if r.as_int() == 1:
                ii.append(i)
            elif n.as_int() == 1:
                ii.append(const(0, "I"))
            else:
                ii.append(T.mod(i, n))
        return s.elem(tuple(ii))

    return SArr.from_fn(shp, f, a.dt)


@model(np.repeat)
def np_repeat(a, reps, axis=None):
    a = as_arr(a)
    if axis is None:
        a = a.ravel() if a.ndim != 1 else a
        axis = 0
    if isinstance(reps, (SArr, np.ndarray, list)):
        raise Unsupported("np.repeat with array repeats")
    r = P_(reps)
    s = a.snapshot()
    shp = list(s._shape)
    shp[axis] = shp[axis] * r

    def f(idx):
        ii = list(idx)
        ii[axis] = T.floordiv(idx[axis], r)
        return s.elem(tuple(ii))

    return SArr.from_fn(shp, f, a.dt)


@model(np.diag)
def np_diag(v, k=0):
    v = as_arr(v)
    if k != 0:
        raise Unsupported("np.diag k")
    s = v.snapshot()
    if v.ndim == 1:
        n = v._shape[0]
        z = const(0, sort_of(v.dt))
        return SArr.from_fn((n, n), lambda i: ite(eq(i[0], i[1]), s.real_elem((i[0],)), z), v.dt)
    n = m_min(dim(v._shape[0]), dim(v._shape[1]))
    return SArr.from_fn((P_(n),), lambda i: s.elem((i[0], i[0])), v.dt)


MODELS[np.diagonal] = np_diag


@model(np.fill_diagonal)
def np_fill_diagonal(a, val, wrap=False):
    v = as_arr(val)
    c = v.real_elem(tuple(const(0, "I") for _ in v._shape)) if (v.ndim == 0 or prod_dims(v._shape).as_int() == 1) else None
    base_inv = a.view_.inv if a.view_ is not None else (lambda b: (TRUE, b))
    vs = v.snapshot()

    def w(b, old):
        cond, i = base_inv(b)
        new = c if c is not None else vs.real_elem((i[0],))
        cc = fand(cond, eq(i[0], i[1]))
        if isinstance(old, Form):
            return T.ite_form(cc, ne(new, 0), old)
        return ite(cc, T.with_sort(new, old.sort) if old.sort == "R" else new, old)

    a.cell.write(w)


@model(np.outer)
def np_outer(a, b, out=None):
    a, b = as_arr(a).ravel(), as_arr(b).ravel()
    return _out(elementwise2(op_mul, a[:, None], b[None, :]), out)


@model(np.dot)
def np_dot(a, b, out=None):
    A, B = as_arr(a), as_arr(b)
    r = elementwise2(op_mul, A, B) if (A.ndim == 0 or B.ndim == 0) else matmul(A, B)
    return _out(r, out)


@model(np.matmul)
def np_matmul(a, b, out=None, **k):
    return _out(matmul(a, b), out)


MODELS[np.inner] = lambda a, b: matmul(a, as_arr(b).T)
MODELS[np.vdot] = lambda a, b: matmul(as_arr(a).conj().ravel(), as_arr(b).ravel())


@model(np.einsum)
def np_einsum(spec, *ops, out=None, **k):
    if not isinstance(spec, str):
        raise Unsupported("einsum sublist form")
    ops = [as_arr(o) for o in ops]
    spec = spec.replace(" ", "")
    if "->" in spec:
        ins, outs = spec.split("->")
    else:
        ins = spec
        allc = ins.replace(",", "")
        outs = "".join(sorted(c for c in set(allc) if allc.count(c) == 1))
    ins = ins.split(",")
    if "." in spec:
        raise Unsupported("einsum ellipsis")
    dims = {}
    for s, o in zip(ins, ops):
        if len(s) != o.ndim:
            raise ValueError("einstein sum subscripts string contains too many subscripts for operand")
        for c, d in zip(s, o._shape):
            if c in dims:
                if dims[c] is not d and not E().decide(eq(dims[c], d)):
                    raise ValueError("operand has a mismatch in its core dimension")
            else:
                dims[c] = d
    summed = [c for c in dims if c not in outs]

    def f(idx):
        env = dict(zip(outs, idx))
        names = {}
        for c in summed:
            names[c] = fresh_name("e")
            env[c] = var(names[c], "I")
        r = const(1, "I")
        for s, o in zip(ins, ops):
            r = r * o.real_elem(tuple(env[c] for c in s))
        for c in summed:
            r = T.Sum(names[c], dims[c], r)
        return r

    return _out(simplify_scalar(SArr.from_fn([dims[c] for c in outs], f, dt_join(*[o.dt for o in ops]))), out)


@model(np.diff)
def np_diff(a, n=1, axis=-1, prepend=None, append=None):
    a = as_arr(a)
    if prepend is not None or append is not None:
        if a.ndim != 1:
            raise Unsupported("np.diff(prepend) n-d")
        one = lambda x: [np_atleast_1d(x)] if x is not None else []
        a = np_concatenate(one(prepend) + [a] + one(append))
    for _ in range(P_(n).as_int()):
        lo = [slice(None)] * a.ndim
        hi = [slice(None)] * a.ndim
        lo[axis] = slice(None, -1)
        hi[axis] = slice(1, None)
        a = a[tuple(hi)] - a[tuple(lo)]
    return a


@model(np.delete)
def np_delete(a, k, axis=None):
    a = as_arr(a)
    if axis is None:
        a, axis = a.ravel(), 0
    if not isinstance(k, (int, np.integer, SNum)):
        return delete_many(a, as_arr(k), axis)
    kk = norm_index(k, a._shape[axis])
    s = a.snapshot()
    shp = list(s._shape)
    shp[axis] = shp[axis] - 1

    def f(idx):
        ii = list(idx)
        ii[axis] = ite(lt(idx[axis], kk), idx[axis], idx[axis] + 1)
        return s.elem(tuple(ii))

    return SArr.from_fn(shp, f, a.dt)


def prefix_facts(ps):
    """sums of the same non-negative entries grow with the number of entries: S(a) <= S(b) for a <= b, S(a) >= 0"""
    sums, out = [], []
    seen = {}
    for p in ps:
        P._collect(p, seen)
    for a in list(seen):
        if a.kind != "S" or len(a.args[0]) != 1:
            continue
        base, mono, b0 = a.args
        key = subst(mkpoly({mono: ONE}, T._mono_sort(mono)), {f"@{b0}": var("%pf", "I")})
        s = P.sign(key)
        if s not in ("+", "0+"):
            continue
        bound = base[0]
        t = mkpoly({((a.uid, 1),): ONE}, a.sort)
        out.append(ge(t, 0))
        if s == "+" and a.sort == "I":
            out.append(T.implies(ge(bound, 0), ge(t, bound)))
        for k2, b2, t2 in sums:
            if k2 is key:
                out += [T.implies(le(bound, b2), le(t, t2)), T.implies(le(b2, bound), le(t2, t))]
                if s == "+":
                    if key.sort == "I":
                        for lo, hi, tl, th in ((bound, b2, t, t2), (b2, bound, t2, t)):
                            out.append(T.implies(fand(ge(lo, 0), lt(lo, hi)), le(tl + subst(key, {"%pf": lo}) + (hi - lo - 1), th)))
                        out += [T.implies(fand(ge(bound, 0), le(bound, b2)), le(b2 - bound, t2 - t)), T.implies(fand(ge(b2, 0), le(b2, bound)), le(bound - b2, t - t2))]
                    out += [T.implies(fand(ge(bound, 0), lt(bound, b2)), lt(t, t2)), T.implies(fand(ge(b2, 0), lt(b2, bound)), lt(t2, t))]
                for lo, hi, tl, th in ((bound, b2, t, t2), (b2, bound, t2, t)):
                    out.append(T.implies(fand(ge(lo, 0), lt(lo, hi)), le(tl + subst(key, {"%pf": hi - 1}), th)))
                d = (b2 - bound).as_int()
                if d is not None and 0 < abs(d) <= 3:
                    lo, tl, th = (bound, t, t2) if d > 0 else (b2, t2, t)
                    out.append(T.implies(ge(lo, 0), eq(th, tl + sum((subst(key, {"%pf": lo + q}) for q in range(abs(d))), const(0, "I")))))
        sums.append((key, bound, t))
    return out


def surely(f):
    """entailed, with the full prover"""
    e = E()
    if e.entails(f):
        return True
    h = [e.norm(x) for x in list(e.pc) + prefix_facts(P.form_polys(f) if hasattr(P, "form_polys") else T.form_polys(f))]
    return P.prove(e.norm(f), h, e.rules, e.zfacts, timeout=3000).status == "proved"


def delete_many(a, k, axis):
    """remove the positions k[0] < k[1] < ...: entry p of the result is entry p + s, s = number of removed positions before it"""
    if k.dt != "int" or k.ndim != 1:
        raise Unsupported("np.delete with this index")
    USED.add("np.delete(a, idx): the entries of a whose position is not in idx, in order")
    e = E()
    c, n = k._shape[0], a._shape[axis]
    k = k.snapshot()
    x = fresh_var("de")
    el = k.elem((x,))
    with hyp(ge(x, 0), lt(x, c)):
        if not surely(fand(ge(el, 0), lt(el, n))):
            raise Unsupported(f"np.delete: positions not known to be in range {el!r} {n!r}")
    with hyp(ge(x, 0), lt(x, c - 1)):
        if not surely(lt(el, k.elem((x + 1,)))):
            raise Unsupported("np.delete: positions not known to be increasing")
    step, first = P.linear_in(el, x.as_atom().args[0])
    s = a.snapshot()
    shp = list(s._shape)
    shp[axis] = n - c
    if step is None:
        # symbolic distance: el = first + x * step
        d = k.elem((x + 1,)) - el
        f0 = k.elem((const(0, "I"),))
        if x.as_atom().args[0] not in d.fv and el is f0 + x * d:
            step, first = d, f0
    if step is not None and (isinstance(step, Poly) or step > 1):
        st = lift(step)

        def shift(p):
            # (p - first) // (step - 1) + 1 positions were removed before entry p
            q = T.floordiv(p - first + (st - 1), st - 1)
            q = ite(lt(p, first), const(0, "I"), q) if not e.entails(eq(first, st - 1)) else T.floordiv(p, st - 1)
            return q if e.entails(eq(c * st, n)) else ite(lt(q, c), q, c)
    elif step is not None and e.entails(eq(first + c, n)):
        return s[tuple([slice(None)] * axis + [slice(None, mknum(first, "int"))])]
    else:
        cnt = opaque("removed_before", [k], (n - c,), "int", nonneg=True)

        def law(p, j):
            kj = k.elem((j,))
            kp = k.elem((j - 1,))
            return T.implies(fand(ge(j, 0), le(j, c), T._or([eq(j, 0), le(kp - (j - 1), p)]), T._or([eq(j, c), lt(p, kj - j)])), eq(cnt.elem((p,)), j))

        law.arity = 2
        e.laws.append(law)

        def shift(p):
            return cnt.elem((p,))

    def f(idx):
        ii = list(idx)
        ii[axis] = idx[axis] + shift(idx[axis])
        return s.elem(tuple(ii))

    return SArr.from_fn(shp, f, a.dt)


@model(np.meshgrid)
def np_meshgrid(*xs, indexing="xy", **k):
    if len(xs) != 2:
        raise Unsupported("meshgrid")
    x, y = as_arr(xs[0]).snapshot(), as_arr(xs[1]).snapshot()
    if indexing == "xy":
        shp = (y._shape[0], x._shape[0])
        return [SArr.from_fn(shp, lambda i: x.elem((i[1],)), x.dt), SArr.from_fn(shp, lambda i: y.elem((i[0],)), y.dt)]
    shp = (x._shape[0], y._shape[0])
    return [SArr.from_fn(shp, lambda i: x.elem((i[0],)), x.dt), SArr.from_fn(shp, lambda i: y.elem((i[1],)), y.dt)]


# ------------------------------------------------------------------ reductions
def _axes(a, axis):
    if axis is None:
        return list(range(a.ndim))
    if isinstance(axis, (tuple, list)):
        return [int(x) % a.ndim for x in axis]
    ax = int(axis)
    if ax >= a.ndim or ax < -a.ndim:
        raise np.AxisError(ax, a.ndim) if hasattr(np, "AxisError") else ValueError("axis")
    return [ax % a.ndim]


def reduce_(a, axis, keepdims, f, dt):
    """f(names, bounds, element) -> Poly/Form"""
    a = as_arr(a)
    axes = _axes(a, axis)
    keep = [i for i in range(a.ndim) if i not in axes]
    shp = [const(1, "I") if i in axes else a._shape[i] for i in range(a.ndim)] if keepdims else [a._shape[i] for i in keep]
    s = a.snapshot()

    def g(idx):
        full = [None] * s.ndim
        for j, i in enumerate(keep):
            full[i] = idx[i] if keepdims else idx[j]
        names = []
        for i in axes:
            nm = fresh_name("r")
            names.append((nm, s._shape[i]))
            full[i] = var(nm, "I")
        return f(names, s.elem(tuple(full)), s, full)

    return simplify_scalar(SArr.from_fn(shp, g, dt))


@model(np.sum)
def np_sum(a, axis=None, keepdims=False, dtype=None, out=None, **k):
    a = as_arr(a)

    def f(names, e, s, full):
        p = b2i(e) if isinstance(e, Form) else e
        for nm, n in reversed(names):
            p = T.Sum(nm, n, p)
        return p

    r = reduce_(a, axis, keepdims, f, "int" if a.dt == "bool" else a.dt)
    if a.sparse and isinstance(r, SArr):
        # scipy.sparse: sums are (1,n)/(n,1) matrices
        r2 = r[None, :] if axis in (0, -2) else r[:, None]
        return r2
    return _out(r, out)


@model(np.mean)
def np_mean(a, axis=None, keepdims=False, **k):
    a = as_arr(a)
    s = np_sum(a, axis, keepdims)
    n = prod_dims([a._shape[i] for i in _axes(a, axis)])
    return s / mknum(n, "int")


@model(np.average)
def np_average(a, axis=None, weights=None, **k):
    a = as_arr(a)
    if weights is None:
        return np_mean(a, axis)
    w = as_arr(weights)
    if w.ndim == a.ndim:
        return np_sum(a * w, axis) / np_sum(w, axis)
    ax = _axes(a, axis)[0]
    shp = [const(1, "I")] * a.ndim
    shp[ax] = w._shape[0]
    wb = reshape(w, tuple(shp))
    return np_sum(a * wb, axis) / np_sum(w)


@model(np.std)
def np_std(a, axis=None, ddof=0, keepdims=False, **k):
    return MODELS[np.sqrt](np_var(a, axis, ddof, keepdims))


@model(np.var)
def np_var(a, axis=None, ddof=0, keepdims=False, **k):
    a = as_arr(a)
    m = np_mean(a, axis, keepdims=True)
    n = prod_dims([a._shape[i] for i in _axes(a, axis)])
    d = a - m
    return np_sum(d * d, axis, keepdims) / mknum(n - P_(ddof), "int")


@model(np.all)
def np_all(a, axis=None, keepdims=False, **k):
    a = tob(a)

    def f(names, e, s, full):
        for nm, n in reversed(names):
            e = T.forall(nm, n, e)
        return e

    return reduce_(a, axis, keepdims, f, "bool")


@model(np.any)
def np_any(a, axis=None, keepdims=False, **k):
    a = tob(a)

    def f(names, e, s, full):
        e = fnot(e)
        for nm, n in reversed(names):
            e = T.forall(nm, n, e)
        return fnot(e)

    return reduce_(a, axis, keepdims, f, "bool")


@model(np.count_nonzero)
def np_count_nonzero(a, axis=None, **k):
    return np_sum(tob(a), axis)


def _extreme(name, is_max):
    def red(a, axis=None, keepdims=False, initial=None, out=None, **k):
        a = as_arr(a)
        axes = _axes(a, axis)
        if len(axes) == 1 and a._shape[axes[0]].as_int() is not None and 0 < a._shape[axes[0]].as_int() <= 6:
            ax = axes[0]
            sel = [slice(None)] * a.ndim
            r = None
            for q in range(a._shape[ax].as_int()):
                sel[ax] = q
                x = a[tuple(sel)]
                r = x if r is None else elementwise2(op_max if is_max else op_min, r, x)
            return r
        USED.add(f"np.{name}: a bound that is attained")
        e = E()
        s = a.snapshot()
        keep = [i for i in range(a.ndim) if i not in axes]
        shp = [s._shape[i] for i in keep]
        n_red = prod_dims([s._shape[i] for i in axes])
        if not e.entails(gt(n_red, 0)):
            if e.decide(le(n_red, 0)):
                raise ValueError("zero-size array to reduction operation which has no identity")
        r = opaque(name, [s], shp, s.dt, extra=(tuple(axes),))
        # facts: bound and attained (witness opaque)
        names = [fresh_name("x") for _ in range(s.ndim)]
        vs = [var(x, "I") for x in names]
        el = s.real_elem(tuple(vs))
        m = r.elem(tuple(vs[i] for i in keep))
        f = ge(m, el) if is_max else le(m, el)
        wit = {}
        nm = r.fname
        for i in axes:
            wit[i] = app(f"{nm}@{i}", r.fvars + tuple(vs[j] for j in keep), "I")
        el2 = s.real_elem(tuple(wit.get(i, vs[i]) for i in range(s.ndim)))
        g = fand(eq(m, el2), *[fand(ge(wit[i], 0), lt(wit[i], s._shape[i])) for i in axes])
        for i in reversed(range(s.ndim)):
            f = T.forall(names[i], s._shape[i], f)
        for i in reversed(keep):
            g = T.forall(names[i], s._shape[i], g)
        e.assume(f)
        e.assume(g)
        if keepdims:
            return reshape(r, tuple(const(1, "I") if i in axes else s._shape[i] for i in range(s.ndim)))
        return simplify_scalar(r)

    return red


np_max = _extreme("max", True)
np_min = _extreme("min", False)
MODELS[np.max] = MODELS[np.amax] = np_max
MODELS[np.min] = MODELS[np.amin] = np_min


def _opaque_reduce(name):
    def red(a, axis=None, keepdims=False, **k):
        a = as_arr(a)
        axes = _axes(a, axis)
        keep = [i for i in range(a.ndim) if i not in axes]
        USED.add(f"np.{name}: a function of its argument only")
        kk = tuple(sorted((x, str(y)) for x, y in k.items()))
        r = opaque(name, [a], [a._shape[i] for i in keep], "float", extra=(tuple(axes), kk))
        return simplify_scalar(r)

    return red


for _f in (np.median, np.prod, np.nanmean, np.ptp):
    MODELS[_f] = _opaque_reduce(_f.__name__)


@model(np.quantile, np.percentile)
def np_quantile(a, q, axis=None, **k):
    return _opaque_reduce("quantile")(a, axis, q=q)


@model(np.cumsum)
def np_cumsum(a, axis=None, **k):
    a = as_arr(a)
    if axis is None:
        a, axis = a.ravel(), 0
    s = a.snapshot()

    def f(idx):
        nm = fresh_name("c")
        ii = list(idx)
        v = ii[axis] = var(nm, "I")
        body = s.elem(tuple(ii))
        if isinstance(body, Form):
            body = b2i(body)
        at = body.as_atom()
        if at is not None and at.kind == "I" and at.args[0] is le(v, 0):
            # a first entry put in front of the others
            return T.subst(at.args[1], {nm: const(0, "I")}) + T.Sum(nm, idx[axis], T.subst(at.args[2], {nm: v + 1}))
        return T.Sum(nm, idx[axis] + 1, body)

    return SArr.from_fn(s._shape, f, "int" if a.dt == "bool" else a.dt)


@model(np.linalg.norm)
def np_norm(a, ord=None, axis=None, keepdims=False, check_finite=True, overwrite_a=False):
    a = as_arr(a)
    if axis is not None and isinstance(axis, (tuple, list)) or (axis is None and a.ndim > 1 and ord not in (None, "fro")):
        raise Unsupported("matrix norm")
    if ord in (None, 2, "fro"):
        if a.dt == "complex":
            sq = ew1(lambda p, d: (abs_p(p, d) * abs_p(p, d), "float"), a)
        else:
            sq = a * a
        return MODELS[np.sqrt](np_sum(sq, axis, keepdims))
    if ord == 1:
        return np_sum(abs(a), axis, keepdims)
    if ord == np.inf:
        return np_max(abs(a), axis, keepdims)
    raise Unsupported("norm order")


# ------------------------------------------------------------------ order / search
@model(np.argsort)
def np_argsort(a, axis=-1, kind=None, **k):
    a = as_arr(a)
    if a.ndim != 1:
        raise Unsupported("argsort n-d")
    s = a.snapshot()
    n = s._shape[0]
    USED.add("np.argsort: the permutation that sorts its argument increasingly")
    r = opaque("argsort", [s], (n,), "int")
    P.NONNEG_FNS.add(r.fname)
    perm_facts(r, n)
    e = E()
    i, j = fresh_name("a"), fresh_name("b")
    vi, vj = var(i, "I"), var(j, "I")
    if s.dt != "complex":
        e.assume(T.forall(i, n, T.forall(j, n, T.implies(le(vi, vj), le(s.real_elem((r.elem((vi,)),)), s.real_elem((r.elem((vj,)),)))))))
    r._inbounds = n
    return r


def rng_permutation(n):
    """some permutation of 0..n-1 (which one is unknown)"""
    USED.add("Generator.permutation(n): an arbitrary permutation of 0..n-1")
    nm = E().name("rngperm")
    P.NONNEG_FNS.add(nm)
    n = P_(n)
    r = SArr.from_fn((n,), lambda i: app(nm, tuple(i), "I"), "int")
    r.fname, r.fvars = nm, ()
    perm_facts(r, n)
    r._inbounds = n
    return r


def _sk_models():
    from sklearn.utils import validation as skv

    def m_check_scalar(x, name, target_type, *, min_val=None, max_val=None, include_boundaries="both"):
        tt = target_type if isinstance(target_type, tuple) else (target_type,)
        if not m_isinstance(x, tt):
            raise TypeError(f"{name} must be an instance of {target_type}")
        if min_val is not None:
            low = x < min_val if include_boundaries in ("left", "both") else x <= min_val
            if low:
                raise ValueError(f"{name} too small")
        if max_val is not None:
            high = x > max_val if include_boundaries in ("right", "both") else x >= max_val
            if high:
                raise ValueError(f"{name} too large")
        return x

    MODELS[skv.check_scalar] = m_check_scalar
    from sklearn.linear_model import LinearRegression

    METHOD_MODELS[LinearRegression.fit] = sk_linear_regression_fit


def perm_facts(r, n):
    e = E()
    i = fresh_name("p")
    v = var(i, "I")
    x = r.elem((v,))
    inv = app(r.fname + "^-1", r.fvars + (v,), "I")
    e.assume(T.forall(i, n, fand(ge(x, 0), lt(x, n), eq(app(r.fname + "^-1", r.fvars + (x,), "I"), v))))
    e.assume(T.forall(i, n, fand(ge(inv, 0), lt(inv, n), eq(r.elem((inv,)), v))))


@model(np.sort)
def np_sort(a, axis=-1, **k):
    a = as_arr(a)
    if a.ndim != 1:
        if a.ndim != 2 or axis not in (-1, 1):
            raise Unsupported("np.sort n-d")
        return _row_sort(a)
    if getattr(a, "pos", None) is not None:  # positions of True entries increase
        r = a.copy()
        r.pos, r._inbounds = a.pos, a._inbounds
        return r
    if a.dt != "complex":
        # sorted already: sorting changes nothing
        n, x = a._shape[0], fresh_var("so")
        with hyp(ge(x, 0), lt(x, n - 1)):
            if E().entails(le(a.real_elem((x,)), a.real_elem((x + 1,)))):
                return a.copy()
    p = np_argsort(a)
    r = a[p]
    r.perm, r.unperm = p, (lambda x: mknum(app(p.fname + "^-1", p.fvars + (P_(x),), "I"), "int"))
    return r


def _row_sort(a):
    """row-wise sort: r[i, k] = a[i, p(i, k)] with increasing values"""
    USED.add("np.sort / np.partition along rows: order statistics of the row")
    s = a.snapshot()
    i_, fv = opaque_key([s])
    nm = f"rowsort#{i_}"
    P.NONNEG_FNS.add(nm)
    n, m = s._shape
    r = SArr.from_fn((n, m), lambda i: s.elem((i[0], app(nm, fv + tuple(i), "I"))), s.dt)
    a1, b1 = fresh_name("rs"), fresh_name("rs")
    u, w = var(a1, "I"), var(b1, "I")
    E().assume(T.forall(a1, n, T.forall(b1, m, fand(ge(app(nm, fv + (u, w), "I"), 0), lt(app(nm, fv + (u, w), "I"), m)))))
    E().assume(T.forall(a1, n, T.forall(b1, m - 1, le(r.real_elem((u, w)), r.real_elem((u, w + 1))))))
    return r


@model(np.partition)
def np_partition(a, kth, axis=-1, **k):
    a = as_arr(a)
    if a.ndim == 2 and axis in (-1, 1):
        s = np_sort(a, axis=1)
    elif a.ndim == 1:
        s = np_sort(a)
    else:
        raise Unsupported("np.partition n-d")
    kk = P_(kth)
    o = opaque("partition_rest", [a.snapshot()], a._shape, a.dt, extra=(kk.uid,))
    return SArr.from_fn(a._shape, lambda i: ite(eq(i[-1], kk), s.real_elem(i), o.real_elem(i)), a.dt)


@model(np.argmax)
def np_argmax(a, axis=None, **k):
    return _arg("argmax", a, axis, True)


@model(np.argmin)
def np_argmin(a, axis=None, **k):
    return _arg("argmin", a, axis, False)


def _arg(name, a, axis, is_max):
    a = as_arr(a)
    if a.ndim != 1:
        raise Unsupported("argmax n-d")
    if a.dt == "bool":
        raise Unsupported("argmax of bools")
    USED.add(f"np.{name}: an index where the extremum is attained")
    s = a.snapshot()
    n = s._shape[0]
    r = opaque(name, [s], (), "int")
    p = r.elem(())
    e = E()
    i = fresh_name("a")
    v = var(i, "I")
    e.assume(fand(ge(p, 0), lt(p, n)))
    x, y = s.real_elem((p,)), s.real_elem((v,))
    e.assume(T.forall(i, n, ge(x, y) if is_max else le(x, y)))
    return mknum(p, "int")


@model(np.unique)
def np_unique(a, return_counts=False, **k):
    if k:
        raise Unsupported("np.unique options")
    if return_counts:
        u = getattr(a, "uniq", None)
        if u is None:
            raise Unsupported("np.unique(return_counts=True) of an arbitrary array")
        USED.add("np.unique(return_counts=True): the sorted distinct labels and how often each occurs")
        return u
    a = as_arr(a).ravel()
    s = a.snapshot()
    USED.add("np.unique: the sorted distinct entries")
    i, fv = opaque_key([s])
    cnt = app(f"nunique#{i}", fv, "I")
    e = E()
    e.assume(fand(ge(cnt, 0), le(cnt, s._shape[0]), T.implies(gt(s._shape[0], 0), gt(cnt, 0))))
    r = opaque("unique", [s], (cnt,), s.dt)
    q = fresh_name("u")
    v = var(q, "I")
    z = var(fresh_name("u"), "I")
    x, y = s.elem((v,)), s.elem((z,))
    distinct = T.forall(q, s._shape[0], T.forall(z.as_atom().args[0], s._shape[0], T.implies(lt(v, z), ne(x, y))))
    constant = T.forall(q, s._shape[0], eq(x, s.elem((const(0, "I"),))))
    e.assume(fand(T.implies(eq(cnt, s._shape[0]), distinct), T.implies(distinct, eq(cnt, s._shape[0]))))
    e.assume(T.implies(gt(s._shape[0], 0), fand(T.implies(eq(cnt, 1), constant), T.implies(constant, eq(cnt, 1)))))
    w = app(f"uniqpos#{i}", fv + (v,), "I")
    e.assume(T.forall(q, s._shape[0], fand(ge(w, 0), lt(w, cnt), eq(r.elem((w,)), s.elem((v,))))))
    w2 = app(f"uniqsrc#{i}", fv + (v,), "I")
    e.assume(T.forall(q, cnt, fand(ge(w2, 0), lt(w2, s._shape[0]), eq(s.elem((w2,)), r.elem((v,))))))
    q2 = fresh_name("u")
    v2 = var(q2, "I")
    e.assume(T.forall(q, cnt, T.forall(q2, cnt, T.implies(lt(v, v2), lt(r.elem((v,)), r.elem((v2,)))))))
    return r


@model(np.allclose)
def np_allclose(a, b, rtol=1e-5, atol=1e-8, **k):
    """|a-b| <= atol + rtol*|b| elementwise"""
    a, b = as_arr(a), as_arr(b)
    d = abs(a - b)
    return np_all(d <= (abs(b) * rtol + atol))


@model(np.isclose)
def np_isclose(a, b, rtol=1e-5, atol=1e-8, **k):
    return abs(as_arr(a) - b) <= (abs(as_arr(b)) * rtol + atol)


@model(np.array_equal)
def np_array_equal(a, b, **k):
    a, b = as_arr(a), as_arr(b)
    if a.ndim != b.ndim:
        return False
    for x, y in zip(a._shape, b._shape):
        if x is not y and not E().decide(eq(x, y)):
            return False
    return np_all(a == b)


@model(np.testing.assert_array_equal)
def np_assert_array_equal(x, y, *a, **k):
    if not np_array_equal(x, y):
        raise AssertionError("arrays are not equal")


@model(np.isin, np.in1d)
def np_isin(a, b, **k):
    a, b = as_arr(a), as_arr(b)
    bf = b.ravel().snapshot() if b.ndim != 1 else b.snapshot()

    def f(idx):
        nm = fresh_name("in")
        return fnot(T.forall(nm, bf._shape[0], fnot(eq(a.elem(idx), bf.elem((var(nm, "I"),))))))

    return simplify_scalar(SArr.from_fn(a._shape, f, "bool"))


@model(np.array_split)
def np_array_split(a, k, axis=0):
    raise Unsupported("array_split")


@model(np.trace)
def np_trace(a, **k):
    return np_sum(np_diag(a))


@model(np.triu)
def np_triu(a, k=0):
    a = as_arr(a).snapshot()
    return SArr.from_fn(a._shape, lambda i: ite(le(i[0] + P_(k), i[1]), a.real_elem(i), const(0, sort_of(a.dt))), a.dt)


@model(np.tril)
def np_tril(a, k=0):
    a = as_arr(a).snapshot()
    return SArr.from_fn(a._shape, lambda i: ite(ge(i[0] + P_(k), i[1]), a.real_elem(i), const(0, sort_of(a.dt))), a.dt)


def _np_errstate():
    pass


# methods ---------------------------------------------------------------------
ARR_METHODS.update(
    sum=np_sum, mean=np_mean, std=np_std, var=np_var, all=np_all, any=np_any, max=np_max, min=np_min,
    argsort=np_argsort, argmax=np_argmax, argmin=np_argmin, cumsum=np_cumsum, diagonal=np_diag,
    repeat=np_repeat, trace=np_trace, prod=MODELS[np.prod], round=np_round, swapaxes=MODELS[np.swapaxes],
    clip=np_clip,
    nonzero=lambda a: (nonzero_mask(tob(a)),),
)


# ------------------------------------------------------------------ linear algebra
def contraction(matchers, build):
    """rule factory: exactly these atoms depend on the contracted index.

    matchers: list of (fn name, nargs free prefix, position of index, conj flag)"""

    def rule(name, bound, dep, ctx):
        if len(dep) != len(matchers):
            return None
        used = [None] * len(matchers)
        for a, ex in dep:
            if ex != 1 or a.kind != "A":
                return None
            at = a
            cj = False
            if at.args[0] == "conj":
                at = at.args[1][0].as_atom()
                cj = True
                if at is None or at.kind != "A":
                    return None
            hit = False
            for k, (fn, pos, mc) in enumerate(matchers):
                if used[k] is None and at.args[0] == fn and cj == mc:
                    for ps in (pos, 1 - pos) if fn in T.SYM_FNS else (pos,):
                        xa = at.args[1][ps].as_atom()
                        if xa is None or xa.kind != "V" or xa.args[0] != name:
                            continue
                        others = at.args[1][:ps] + at.args[1][ps + 1:]
                        if any(name in o.fv for o in others):
                            continue
                        used[k] = others
                        hit = True
                        break
                    if hit:
                        break
            if not hit:
                return None
        return build(bound, *used)

    return rule


def square_dims(a):
    a = as_arr(a)
    if a.ndim != 2:
        raise np.linalg.LinAlgError("2-dimensional array required")
    if a._shape[0] is not a._shape[1] and not E().decide(eq(a._shape[0], a._shape[1])):
        raise np.linalg.LinAlgError("Last 2 dimensions of the array must be square")
    return a, a._shape[0]


def base_name(a):
    """(function name, arg layout) if the array is exactly an input/opaque atom F(i,j) or F(j,i)"""
    a = as_arr(a)
    x, y = var("%bi", "I"), var("%bj", "I")
    at = a.elem((x, y)).as_atom()
    if at is None or at.kind != "A":
        return None
    args = at.args[1]
    try:
        i = [k for k, p in enumerate(args) if p is x]
        j = [k for k, p in enumerate(args) if p is y]
    except Exception:
        return None
    if len(i) != 1 or len(j) != 1:
        return None
    return at.args[0], i[0], j[0]


@model(np.linalg.inv)
def np_inv(a):
    import scipy.linalg

    a, n = square_dims(a)
    USED.add("linalg.inv: inv(A) @ A = A @ inv(A) = I")
    r = opaque("inv", [a], (n, n), a.dt if a.dt == "complex" else "float")
    inv_rules(r, a, n)
    return r


def inv_rules(r, a, n):
    b = base_name(a)
    if b is None:
        return
    fn, pi, pj = b
    e = E()
    f = len(r.fvars)
    delta = lambda i, j: ite(eq(i, j), const(1, "R"), const(0, "R"))
    # sum_k inv[i,k] A[k,j] = delta(i,j)
    e.rules.append(contraction([(r.fname, f + 1, False), (fn, pi, False)], lambda bd, o1, o2: delta(o1[-1], [x for x in o2][_rest(pi, pj)])))
    e.rules.append(contraction([(r.fname, f, False), (fn, pj, False)], lambda bd, o1, o2: delta([x for x in o2][_rest(pj, pi)], o1[-1])))
    e._ctx = None


def _rest(removed, want):
    """index of argument `want` after `removed` was removed"""
    return want - 1 if want > removed else want


@model(np.linalg.pinv)
def np_pinv(a, *args, **k):
    a = as_arr(a)
    USED.add("linalg.pinv: a function of its argument (Moore-Penrose inverse)")
    m, n = a._shape
    r = opaque("pinv", [a], (n, m), a.dt if a.dt == "complex" else "float")
    return r


@model(np.linalg.solve)
def np_solve(a, b, **k):
    """solve(A, B) = inv(A) @ B"""
    a, n = square_dims(a)
    b = as_arr(b)
    if b._shape[0] is not n and not E().decide(eq(b._shape[0], n)):
        raise ValueError("solve: dimension mismatch")
    if getattr(E(), "normal_equations", False) and b.ndim == 2:
        USED.add("linalg.solve(A, B): A @ solve(A, B) = B (A is invertible)")
        k = b._shape[1]
        x = opaque("solve_x", [a, b], (n, k), dt_join(a.dt, b.dt))
        l = matmul(a, x)

        def instance(i, j):
            pre = fand(ge(i, 0), lt(i, n), ge(j, 0), lt(j, k))
            body = eq(l.elem((i, j)), b.elem((i, j)))
            return body if E().entails(pre) else T.implies(pre, body)

        E().laws.append(instance)
        return x
    USED.add("linalg.solve(A, B) = inv(A) @ B")
    return matmul(np_inv(a), b)


@model(np.linalg.lstsq)
def np_lstsq(a, b, rcond="warn", **k):
    a, b = as_arr(a), as_arr(b)
    if a.ndim != 2:
        raise np.linalg.LinAlgError("2-dim required")
    if a._shape[0] is not b._shape[0] and not E().decide(eq(a._shape[0], b._shape[0])):
        raise np.linalg.LinAlgError("Incompatible dimensions")
    USED.add("linalg.lstsq(A, B): the minimal-norm least-squares solution pinv(A) @ B")
    # the solution is linear in B: pinv_rcond(A) @ B
    rc = "default" if rcond in ("warn", None) else repr(rcond)
    m, n = a._shape
    if getattr(E(), "normal_equations", False) and a.dt != "complex" and b.dt != "complex" and b.ndim == 2:
        x = lsq_normal(a, b, rc)
    else:
        pin = opaque("lsq_pinv", [a], (n, m), a.dt if a.dt == "complex" else "float", extra=(rc,))
        x = matmul(pin, b)
    rank = opaque("rank", [a], (), "int", extra=(rc,))
    sv = opaque("svals", [a], (P_(m_min(dim(m), dim(n))),), "float")
    res = opaque("residuals", [a, b], (b._shape[1] if b.ndim == 2 else const(1, "I"),), "float")
    return x, res, simplify_scalar(rank), sv


def lsq_normal(a, b, rc):
    """the solution as an opaque array that satisfies the normal equations A^T A x = A^T B"""
    USED.add("linalg.lstsq(A, B): the solution satisfies the normal equations A^T A x = A^T B (no singular value is cut off by rcond)")
    (m, n), k = a._shape, b._shape[1]
    x = opaque("lsq_x", [a, b], (n, k), "float", extra=(rc,))
    l, r = matmul(matmul(a.T, a), x), matmul(a.T, b)

    def instance(i, j):
        pre = fand(ge(i, 0), lt(i, n), ge(j, 0), lt(j, k))
        body = eq(l.elem((i, j)), r.elem((i, j)))
        return body if E().entails(pre) else T.implies(pre, body)

    E().laws.append(instance)
    return x


def sk_linear_regression_fit(self, X, y, sample_weight=None):
    """LinearRegression(fit_intercept=False).fit(A, B).coef_ = lstsq(A, B).T"""
    if self.fit_intercept or self.positive or sample_weight is not None:
        raise Unsupported("LinearRegression with intercept, positivity or weights")
    USED.add("sklearn LinearRegression(fit_intercept=False).fit(A, B): coef_ = lstsq(A, B).T, rank_ = rank(A)")
    x, _, rank, sv = np_lstsq(X, y)
    self.coef_ = x.T
    self.rank_ = rank
    self.singular_ = sv
    self.intercept_ = 0.0
    return self


METHOD_MODELS = {}



@model(np.linalg.eig)
def np_eig(a, **k):
    a, n = square_dims(a)
    USED.add("linalg.eig: A @ V = V @ diag(w)")
    b = base_name(a)
    dt = "complex"
    if b is not None and b[0] in T.SYM_FNS:
        USED.add("linalg.eig of a real symmetric matrix: real values and vectors")
        dt = "float"
    w = opaque("eigw", [a], (n,), dt)
    Vv = opaque("eigV", [a], (n, n), dt)
    eig_rules(a, w, Vv)
    return w, Vv


def eig_rules(a, w, Vv, left=None):
    b = base_name(a)
    e = E()
    f = len(Vv.fvars)
    if b is not None:
        fn, pi, pj = b
        # sum_k A[i,k] V[k,j] = V[i,j] w[j]
        e.rules.append(
            contraction(
                [(fn, pj, False), (Vv.fname, f, False)],
                lambda bd, o1, o2: app(Vv.fname, Vv.fvars + (o1[_rest(pj, pi)], o2[-1]), "R") * app(w.fname, w.fvars + (o2[-1],), "R"),
            )
        )
        e._ctx = None


@model(np.linalg.eigh)
def np_eigh(a, **k):
    a, n = square_dims(a)
    USED.add("linalg.eigh: A @ V = V @ diag(w), V orthonormal, w increasing")
    w = opaque("eighw", [a], (n,), "float")
    Vv = opaque("eighV", [a], (n, n), "float")
    eig_rules(a, w, Vv)
    ortho_rules(Vv)
    return w, Vv


def ortho_rules(Vv):
    """columns of V are orthonormal"""
    e = E()
    f = len(Vv.fvars)
    delta = lambda i, j: ite(eq(i, j), const(1, "R"), const(0, "R"))
    e.rules.append(contraction([(Vv.fname, f, False), (Vv.fname, f, False)], lambda bd, o1, o2: delta(o1[-1], o2[-1])))

    def sq(name, bound, dep, ctx):
        # sum_k V[k,j]^2 = 1
        if len(dep) == 1 and dep[0][1] == 2 and dep[0][0].kind == "A" and dep[0][0].args[0] == Vv.fname:
            x = dep[0][0].args[1][f].as_atom()
            if x is not None and x.kind == "V" and x.args[0] == name:
                return const(1, "R")
        return None

    e.rules.append(sq)
    e._ctx = None


@model(np.linalg.svd)
def np_svd(a, full_matrices=True, compute_uv=True, **k):
    a = as_arr(a)
    m, n = a._shape
    if full_matrices:
        raise Unsupported("full svd")
    r = P_(m_min(dim(m), dim(n)))
    USED.add("linalg.svd: A = U diag(s) Vh")
    U = opaque("svdU", [a], (m, r), a.dt if a.dt == "complex" else "float")
    s = opaque("svdS", [a], (r,), "float", nonneg=True)
    Vh = opaque("svdVh", [a], (r, n), a.dt if a.dt == "complex" else "float")
    svd_rules(a, U, s, Vh)
    return U, s, Vh


def svd_rules(a, U, s, Vh):
    """sum_k A[i,k] Vh[j,k] = U[i,j] s[j] (real matrices)"""
    b = base_name(a)
    if b is None or a.dt == "complex":
        return
    fn, pi, pj = b
    f = len(Vh.fvars)
    E().rules.append(
        contraction(
            [(fn, pj, False), (Vh.fname, f + 1, False)],
            lambda bd, o1, o2: app(U.fname, U.fvars + (o1[_rest(pj, pi)], o2[f]), "R") * app(s.fname, s.fvars + (o2[f],), "R"),
        )
    )
    E()._ctx = None


@model(np.linalg.eigvals)
def np_eigvals(a):
    return np_eig(a)[0]


@model(np.linalg.matrix_power)
def np_matrix_power(a, n):
    a, d = square_dims(a)
    p = P_(n)
    v = p.as_int()
    if v is not None and 0 <= v <= 4:
        r = np_eye(dim(d))
        for _ in range(v):
            r = matmul(a, r)
        return r
    USED.add("linalg.matrix_power: A^0 = I, A^(k+1) = A A^k")
    i, fv = opaque_key([a])
    nm = f"matpow#{i}"
    return SArr.from_fn((d, d), lambda idx: app(nm, fv + (p,) + tuple(idx), "R"), a.dt)


@model(np.linalg.cond)
def np_cond(a, *k):
    return simplify_scalar(opaque("cond", [as_arr(a)], (), "float"))


@model(np.linalg.matrix_rank)
def np_rank(a, *k, **kw):
    return simplify_scalar(opaque("rank", [as_arr(a)], (), "int"))


def _register_scipy():
    import scipy.linalg
    import scipy.sparse
    import scipy.spatial.distance as sd

    MODELS[scipy.linalg.inv] = np_inv
    MODELS[scipy.linalg.pinv] = np_pinv
    MODELS[scipy.linalg.solve] = np_solve
    MODELS[scipy.linalg.lstsq] = lambda a, b, cond=None, **k: np_lstsq(a, b, rcond=cond)
    MODELS[scipy.linalg.eigh] = np_eigh
    MODELS[scipy.linalg.svd] = np_svd
    MODELS[scipy.linalg.norm] = np_norm

    def m_eig(a, b=None, left=False, right=True, **k):
        if b is not None:
            raise Unsupported("generalised eig")
        a, n = square_dims(a)
        USED.add("linalg.eig: A @ V = V @ diag(w), vl^H @ A = diag(w) @ vl^H")
        w = opaque("eigw", [a], (n,), "complex")
        Vv = opaque("eigV", [a], (n, n), "complex")
        eig_rules(a, w, Vv)
        out = [w]
        if left:
            L = opaque("eigL", [a], (n, n), "complex")
            out.append(L)
        if right:
            out.append(Vv)
        return tuple(out) if len(out) > 1 else w

    MODELS[scipy.linalg.eig] = m_eig

    import scipy.sparse.linalg as ssl

    def krylov(name, opts, symmetric):
        def f(A, k=6, **kw):
            a, n = square_dims(A)
            extra = set(kw) - opts
            if extra:
                raise Unsupported(f"{name} options {sorted(extra)}")
            kk = P_(k)
            USED.add(f"scipy.sparse.linalg.{name}(A, k): k pairs with A @ V = V @ diag(w) (which ones: left to the bounded check)")
            w = opaque(name + "w", [a], (kk,), "float" if symmetric else "complex")
            Vv = opaque(name + "V", [a], (n, kk), "float" if symmetric else "complex")
            eig_rules(a, w, Vv)
            return w, Vv
        return f

    MODELS[ssl.eigsh] = krylov("eigsh", {"which", "v0", "tol", "sigma", "mode"}, True)
    MODELS[ssl.eigs] = krylov("eigs", {"which", "v0", "tol", "sigma"}, False)

    def m_svds(A, k=6, which="LM", random_state=None):
        a = as_arr(A)
        kk = P_(k)
        USED.add("scipy.sparse.linalg.svds(A, k): k triplets with A @ Vh^T = U @ diag(s) (which ones: left to the bounded check)")
        U, s_, Vh = opaque("svdsU", [a], (a._shape[0], kk), "float"), opaque("svdsS", [a], (kk,), "float", nonneg=True), opaque("svdsVh", [a], (kk, a._shape[1]), "float")
        svd_rules(a, U, s_, Vh)
        return U, s_, Vh

    MODELS[ssl.svds] = m_svds

    def m_expm(a):
        a = as_arr(a)
        a, n = square_dims(a)
        USED.add("scipy.linalg.expm: a function of its argument (matrix exponential)")
        return opaque("expm", [a], (n, n), a.dt)

    def m_logm(a, **k):
        a, n = square_dims(a)
        USED.add("scipy.linalg.logm: a function of its argument")
        return opaque("logm", [a], (n, n), "complex")

    def m_fmp(a, t):
        a, n = square_dims(a)
        p = num(t)[0]
        USED.add("scipy.linalg.fractional_matrix_power(A, t): a function of A and t, A^1 = A")
        i, fv = opaque_key([a])
        nm = f"matfpow#{i}"
        COMPLEX_FNS.add(nm)
        return SArr.from_fn((n, n), lambda idx: app(nm, fv + (T.with_sort(p, "R"),) + tuple(idx), "R"), "complex" if a.dt == "complex" else "float")

    MODELS[scipy.linalg.expm] = m_expm

    def m_dare(a, b, q, r, e=None, s=None, balanced=True):
        if e is not None or s is not None:
            raise Unsupported("generalised Riccati equation")
        a, b, q, r = [as_arr(x) for x in (a, b, q, r)]
        n = a._shape[0]
        USED.add("scipy.linalg.solve_discrete_are: a function of its four arguments (the stabilising solution of the Riccati equation)")
        return opaque("dare", [a, b, q, r], (n, n), "float")

    MODELS[scipy.linalg.solve_discrete_are] = m_dare
    MODELS[scipy.linalg.logm] = m_logm
    MODELS[scipy.linalg.fractional_matrix_power] = m_fmp

    # sparse -------------------------------------------------------------
    issp = lambda x: isinstance(x, SArr) and bool(x.sparse)
    MODELS[scipy.sparse.issparse] = issp
    MODELS[scipy.sparse.isspmatrix] = issp
    MODELS[scipy.sparse.isspmatrix_csr] = lambda x: issp(x) and x.sparse.fmt == "csr"

    def m_diags(d, offsets=0, shape=None, format=None, dtype=None):
        if offsets != 0 or (shape is not None):
            raise Unsupported("sparse.diags options")
        if isinstance(d, (list, tuple)) and len(d) == 1:
            d = d[0]
        d = as_arr(d)
        if d.ndim == 2:
            d = d[0] if d._shape[0].as_int() == 1 else _uns("diags 2d")
        r = np_diag(d)
        r.sparse = Sparse("dia")
        s = d.snapshot()
        r.sparse.diag = s
        return r

    MODELS[scipy.sparse.diags] = m_diags

    def m_spdiags(data, diags, m=None, n=None, format=None):
        if diags != 0:
            raise Unsupported("spdiags offset")
        d = as_arr(data)
        if d.ndim == 2:
            d = d[0]
        # entry j of data on column j
        mm, nn = P_(m), P_(n)
        s = d.snapshot()
        r = SArr.from_fn((mm, nn), lambda i: ite(fand(eq(i[0], i[1]), lt(i[1], s._shape[0])), s.real_elem((i[1],)), const(0, "R")), d.dt)
        r.sparse = Sparse("dia")
        return r

    MODELS[scipy.sparse.spdiags] = m_spdiags

    def m_eye(n, *a, **k):
        r = np_eye(n)
        r.sparse = Sparse("dia")
        return r

    MODELS[scipy.sparse.eye] = m_eye
    MODELS[scipy.sparse.identity] = m_eye

    def m_csr(x, *a, **k):
        x = as_arr(x)
        r = x.snapshot()
        r.sparse = Sparse("csr")
        return r

    MODELS[scipy.sparse.csr_matrix] = m_csr

    # concrete sparse matrix @ symbolic array
    base = scipy.sparse._base._spbase

    def _mm(name, f):
        org = getattr(base, name)

        def g(self, other):
            return f(self.toarray(), other) if isinstance(other, SArr) else org(self, other)

        setattr(base, name, g)

    _mm("__matmul__", lambda a, b: matmul(as_arr(a), b))
    _mm("__rmatmul__", lambda a, b: matmul(b, as_arr(a)))

    # numexpr --------------------------------------------------------------
    def m_ne(ex, local_dict=None, global_dict=None, out=None, **kw):
        import ast
        import operator as op

        if kw:
            raise Unsupported("numexpr options")
        if local_dict is None:
            raise Unsupported("numexpr without local_dict")
        USED.add("numexpr.evaluate: elementwise evaluation of the expression with numpy semantics (true division)")
        fns = {n: getattr(np, n) for n in ("exp", "sqrt", "log", "sin", "cos", "tan", "abs", "log1p", "expm1", "arctan2", "where")}
        ops = {ast.Add: op.add, ast.Sub: op.sub, ast.Mult: op.mul, ast.Div: op.truediv, ast.Pow: op.pow, ast.Lt: op.lt, ast.LtE: op.le,
               ast.Gt: op.gt, ast.GtE: op.ge}
        from .runtime import call

        def ev(n):
            if isinstance(n, ast.Expression):
                return ev(n.body)
            if isinstance(n, ast.Constant):
                return n.value
            if isinstance(n, ast.Name):
                return local_dict[n.id] if n.id in local_dict else global_dict[n.id]
            if isinstance(n, ast.BinOp):
                return ops[type(n.op)](ev(n.left), ev(n.right))
            if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
                return -ev(n.operand)
            if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.UAdd):
                return ev(n.operand)
            if isinstance(n, ast.Call) and n.func.id in fns:
                return call(fns[n.func.id], *[ev(a) for a in n.args])
            if isinstance(n, ast.Compare) and len(n.ops) == 1:
                return ops[type(n.ops[0])](ev(n.left), ev(n.comparators[0]))
            raise Unsupported("numexpr expression " + ex)

        return _out(ev(ast.parse(ex, mode="eval")), out)

    try:
        import numexpr

        MODELS[numexpr.evaluate] = m_ne
    except ImportError:
        pass

    # distances ------------------------------------------------------------
    def m_cdist(X, Y, metric="euclidean", out=None, **k):
        X, Y = as_arr(X), as_arr(Y)
        if X._shape[1] is not Y._shape[1] and not E().decide(eq(X._shape[1], Y._shape[1])):
            raise ValueError("XA and XB must have the same number of columns")
        USED.add(f"scipy cdist({metric!r}): the metric between every pair of rows")
        return _out(SArr.from_fn((X._shape[0], Y._shape[0]), lambda i: metric_(metric, X, Y, i[0], i[1], k), "float"), out)

    MODELS[sd.cdist] = m_cdist

    def m_pdist(X, metric="euclidean", out=None, **k):
        X = as_arr(X)
        USED.add(f"scipy pdist({metric!r}) + squareform: the metric between every pair of rows")
        n = X._shape[0]
        c = SCondensed(n, lambda i, j: metric_(metric, X, X, i, j, k))
        return c

    MODELS[sd.pdist] = m_pdist
    MODELS[sd.squareform] = lambda c, **k: c.square() if isinstance(c, SCondensed) else _uns("squareform")


class Sparse:
    def __init__(self, fmt, diag=None):
        import scipy.sparse as sp

        self.fmt = fmt
        self.diag = diag
        self.pytype = {"csr": sp.csr_matrix, "dia": sp.dia_matrix, "coo": sp.coo_matrix, "csc": sp.csc_matrix}[fmt]

    def __bool__(self):
        return True


def sparse_result(f, a, b, r):
    from .arrays import op_add, op_sub

    if f in (op_add, op_sub) and not (a.sparse and b.sparse) and a.ndim == 2 and b.ndim == 2:
        return r  # sparse +- dense is dense
    r.sparse = a.sparse or b.sparse
    return r


class SCondensed(Sym):
    """result of pdist: condensed upper triangle (only elementwise maps and squareform)"""

    def __init__(self, n, fn):
        self.n, self.fn = n, fn

    def square(self):
        return SArr.from_fn((self.n, self.n), lambda i: ite(eq(i[0], i[1]), const(0, "R"), self.fn(i[0], i[1])), "float")

    def _map(self, f):
        g = self.fn
        return SCondensed(self.n, lambda i, j: f(g(i, j)))


def metric_(metric, X, Y, i, j, kw):
    nm = fresh_name("d")
    k = var(nm, "I")
    n = X._shape[1]
    x, y = X.real_elem((i, k)), Y.real_elem((j, k))
    if callable(metric):
        raise Unsupported("callable metric")
    m = metric.lower()
    if m in ("sqeuclidean",):
        return T.Sum(nm, n, (x - y) * (x - y))
    if m in ("euclidean", "l2"):
        return T.sqrt_(T.Sum(nm, n, (x - y) * (x - y)))
    if m in ("cityblock", "l1", "manhattan"):
        return T.Sum(nm, n, T.abs_(x - y))
    fn = app("metric_" + m, (X.real_elem((i, const(0, "I"))), Y.real_elem((j, const(0, "I")))), "R")
    raise Unsupported(f"metric {metric}")


_register_scipy()


def _pandas():
    import pandas as pd
    import pandas.api.types as pt

    def by(fn):
        return lambda a: fn(a.dtype) if isinstance(a, Sym) or hasattr(type(a), "_vc_sym") else fn(a)

    for nm in ("is_timedelta64_dtype", "is_datetime64_dtype", "is_integer_dtype", "is_numeric_dtype", "is_bool_dtype", "is_float_dtype",
               "is_datetime64_any_dtype", "is_object_dtype", "is_string_dtype", "is_complex_dtype"):
        f = getattr(pt, nm)
        MODELS[f] = by(f)


_pandas()


_sk_models()

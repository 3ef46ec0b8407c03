"""Symbolic values: scalars (SNum, SBool) and n-dimensional arrays (SArr)."""
import numbers

import numpy as np

from . import terms as T
from .engine import E, Engine, PathEnd
from .terms import *  # noqa

DT = {"bool": np.dtype(bool), "int": np.dtype(np.int64), "float": np.dtype(float), "complex": np.dtype(complex), "object": np.dtype(object)}
_ORDER = ["bool", "int", "float", "complex", "object"]


def dt_name(dtype):
    if dtype is None:
        return "float"
    if isinstance(dtype, str) and dtype in _ORDER:
        return dtype
    if dtype is object:
        return "object"
    d = np.dtype(dtype)
    if d == bool:
        return "bool"
    if np.issubdtype(d, np.integer):
        return "int"
    if np.issubdtype(d, np.floating):
        return "float"
    if np.issubdtype(d, np.complexfloating):
        return "complex"
    if d == object:
        return "object"
    raise Unsupported(f"dtype {dtype}")


def dt_join(*ds):
    return _ORDER[max(_ORDER.index(d) for d in ds)]


def sort_of(dt):
    return "I" if dt in ("int", "bool") else "R"


class Sym:
    """base of all symbolic proxies"""

    __array_ufunc__ = None
    __array_priority__ = 1000.0

    def __array__(self, *a, **k):
        raise Unsupported("conversion of a symbolic value to a concrete ndarray")


# ------------------------------------------------------------------ scalars
class SBool(Sym):
    def __init__(self, form):
        self.form = form

    def __bool__(self):
        return E().decide(self.form)

    def __and__(self, o):
        if isinstance(o, SArr):
            return NotImplemented
        return mkbool(fand(self.form, to_form(o)))

    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, SArr):
            return NotImplemented
        return mkbool(T._or([self.form, to_form(o)]))

    __ror__ = __or__

    def __invert__(self):
        return mkbool(fnot(self.form))

    def __eq__(self, o):
        if isinstance(o, (bool, np.bool_, SBool)):
            g = to_form(o)
            return mkbool(T._or([fand(self.form, g), fand(fnot(self.form), fnot(g))]))
        if isinstance(o, (numbers.Number, SNum)):
            return mknum(b2i(self.form), "int") == o
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return mkbool(fnot(to_form(r)))

    def __hash__(self):
        return hash(self.form)

    def __mul__(self, o):
        return mknum(b2i(self.form), "int") * o

    __rmul__ = __mul__

    def __add__(self, o):
        return mknum(b2i(self.form), "int") + o

    __radd__ = __add__

    def all(self, *a, **k):
        return self

    any = all

    def __repr__(self):
        return f"SBool({self.form!r})"

    ndim = 0
    shape = ()


def mkbool(f):
    if f is TRUE:
        return True
    if f is FALSE:
        return False
    return SBool(f)


def to_form(x):
    if isinstance(x, SBool):
        return x.form
    if isinstance(x, (bool, np.bool_)):
        return fbool(bool(x))
    if isinstance(x, Form):
        return x
    if isinstance(x, SArr) and x.ndim == 0:
        return x.elem(()) if x.dt == "bool" else ne(x.elem(()), 0)
    if isinstance(x, SNum):
        return ne(x.p, 0)
    if isinstance(x, numbers.Number):
        return fbool(bool(x))
    raise Unsupported(f"not a boolean: {type(x)}")


class SNum(Sym):
    """symbolic scalar"""

    def __init__(self, p, dt):
        self.p, self.dt = p, dt

    # numpy scalar protocol
    ndim = 0
    shape = ()
    size = 1

    @property
    def dtype(self):
        return DT[self.dt]

    @property
    def T(self):
        return self

    @property
    def real(self):
        return real_(self)

    @property
    def imag(self):
        return mknum(imag_p(self.p, self.dt), "float")

    def item(self):
        return self

    def astype(self, dt, *a, **k):
        return cast(self, dt_name(dt))

    def _bin(self, o, f, r=False, name=""):
        if isinstance(o, SArr) or isinstance(o, np.ndarray) and o.ndim > 0:
            return elementwise2(f, o if r else self, self if r else o, name) if isinstance(o, np.ndarray) else NotImplemented
        try:
            q, dt = num(o)
        except (Unsupported, TypeError):
            return NotImplemented
        a, b = (q, self.p) if r else (self.p, q)
        da, db = (dt, self.dt) if r else (self.dt, dt)
        p, d = f(a, b, da, db)
        return mknum(p, d) if isinstance(p, Poly) else mkbool(p)

    def __add__(self, o):
        return self._bin(o, op_add)

    def __radd__(self, o):
        return self._bin(o, op_add, True)

    def __sub__(self, o):
        return self._bin(o, op_sub)

    def __rsub__(self, o):
        return self._bin(o, op_sub, True)

    def __mul__(self, o):
        if isinstance(o, (list, tuple)):
            return repeat_list(o, self)
        return self._bin(o, op_mul)

    def __rmul__(self, o):
        if isinstance(o, (list, tuple)):
            return repeat_list(o, self)
        return self._bin(o, op_mul, True)

    def __truediv__(self, o):
        return self._bin(o, op_div)

    def __rtruediv__(self, o):
        return self._bin(o, op_div, True)

    def __floordiv__(self, o):
        return self._bin(o, op_floordiv)

    def __rfloordiv__(self, o):
        return self._bin(o, op_floordiv, True)

    def __mod__(self, o):
        return self._bin(o, op_mod)

    def __rmod__(self, o):
        return self._bin(o, op_mod, True)

    def __pow__(self, o):
        return self._bin(o, op_pow)

    def __rpow__(self, o):
        return self._bin(o, op_pow, True)

    def __neg__(self):
        return mknum(-self.p, self.dt)

    def __pos__(self):
        return self

    def __abs__(self):
        return mknum(abs_p(self.p, self.dt), "float" if self.dt == "complex" else self.dt)

    def __lt__(self, o):
        return self._bin(o, op_lt)

    def __le__(self, o):
        return self._bin(o, op_le)

    def __gt__(self, o):
        return self._bin(o, op_gt)

    def __ge__(self, o):
        return self._bin(o, op_ge)

    def __eq__(self, o):
        if o is None or isinstance(o, (str, tuple, list, dict)):
            return False
        return self._bin(o, op_eq)

    def __ne__(self, o):
        if o is None or isinstance(o, (str, tuple, list, dict)):
            return True
        return self._bin(o, op_ne)

    def __hash__(self):
        return hash(("SNum", self.p.uid))

    def __bool__(self):
        return E().decide(ne(self.p, 0))

    def _conc(self):
        v = self.p.const_value()
        if v is None:
            # maybe determined by the path
            raise Unsupported(f"symbolic number {self.p!r} used where a concrete one is needed")
        return v

    def __index__(self):
        return int(self._conc())

    def __int__(self):
        return int(self._conc())

    def __float__(self):
        return float(self._conc())

    def __complex__(self):
        return complex(float(self._conc()))

    def conj(self):
        return mknum(conj_p(self.p, self.dt), self.dt)

    conjugate = conj

    def __repr__(self):
        return f"<{self.p!r}>"

    def __format__(self, spec):
        return repr(self)

    def __getitem__(self, k):
        return as_arr(self)[k]

    def is_integer(self):
        return mkbool(eq(trunc_p(self.p), self.p))

    def __copy__(self):
        return self

    def __deepcopy__(self, m):
        return self

    def all(self, *a, **k):
        return mkbool(ne(self.p, 0))

    any = all

    def sum(self, *a, **k):
        return self

    def ravel(self):
        return as_arr(self).ravel()

    def flatten(self):
        return as_arr(self).ravel()

    def copy(self):
        return self


def repeat_list(lst, n):
    nn = n.p.as_int()
    if nn is not None:
        return lst * nn
    from .models import SList

    if len(lst) == 1:
        return SList(n.p, lambda k: lst[0])

    def entry(k):
        r = floormod(k)
        out, dt = num(lst[-1])
        for q in range(len(lst) - 2, -1, -1):
            x, d = num(lst[q])
            out, dt = ite(eq(r, const(q, "I")), x, out), dt_join(dt, d)
        return mknum(out, dt)

    def floormod(k):
        return T.mod(P_(k), const(len(lst), "I"))

    return SList(n.p * len(lst), entry)


def mknum(p, dt):
    v = p.const_value()
    if v is not None:
        if dt in ("int", "bool"):
            return int(v) if v.denominator == 1 else float(v)
        f = float(v)
        if T.Fraction(repr(f)) == v or T.Fraction(f) == v:
            return f if dt != "complex" else complex(f)
        return SNum(T.with_sort(p, "R"), dt)
    return SNum(p, dt)


def num(x):
    """(poly, dtype name) of a python/numpy/symbolic scalar"""
    if isinstance(x, SNum):
        return x.p, x.dt
    if isinstance(x, SBool):
        return b2i(x.form), "bool"
    if isinstance(x, SArr) and x.ndim == 0:
        e = x.elem(())
        return (b2i(e) if isinstance(e, Form) else e), x.dt
    if isinstance(x, (bool, np.bool_)):
        return const(int(x), "I"), "bool"
    if isinstance(x, (int, np.integer)):
        return const(int(x), "I"), "int"
    if isinstance(x, (float, np.floating)):
        return T.const_float(float(x)), "float"
    if isinstance(x, T.Fraction):
        return const(x, "R"), "float"
    if isinstance(x, (complex, np.complexfloating)):
        z = complex(x)
        r = T.const_float(z.real)
        if z.imag:
            r = r + T.const_float(z.imag) * app("I_unit", (), "R")
        return r, "complex"
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return num(x.item())
    if isinstance(x, Poly):
        return x, "int" if x.sort == "I" else "float"
    raise Unsupported(f"not a scalar: {type(x)}")


# scalar operations: (poly, poly, dt, dt) -> (poly|form, dt)
def _r(p):
    return T.with_sort(p, "R")


def op_add(a, b, da, db):
    return a + b, dt_join(da, db, "int")


def op_sub(a, b, da, db):
    return a - b, dt_join(da, db, "int")


def op_mul(a, b, da, db):
    return a * b, dt_join(da, db)


def op_div(a, b, da, db):
    return _r(a) / _r(b), dt_join(da, db, "float")


def op_floordiv(a, b, da, db):
    return T.floordiv(a, b), dt_join(da, db)


def op_mod(a, b, da, db):
    return T.mod(a, b), dt_join(da, db)


def op_pow(a, b, da, db):
    d = dt_join(da, db)
    r = T.pow_(a, b)
    return r, d


def op_max(a, b, da, db):
    return ite(ge(a, b), a, b), dt_join(da, db)


def op_min(a, b, da, db):
    return ite(le(a, b), a, b), dt_join(da, db)


def op_lt(a, b, da, db):
    return cmp_inf("<", a, b), "bool"


def op_le(a, b, da, db):
    return cmp_inf("<=", a, b), "bool"


def op_gt(a, b, da, db):
    return cmp_inf("<", b, a), "bool"


def op_ge(a, b, da, db):
    return cmp_inf("<=", b, a), "bool"


def op_eq(a, b, da, db):
    if _isinf(a) != _isinf(b):
        return FALSE, "bool"
    return eq(a, b), "bool"


def op_ne(a, b, da, db):
    f, _ = op_eq(a, b, da, db)
    return fnot(f), "bool"


def _isinf(p):
    """+1/-1 for the constants +-inf, else 0 (symbolic reals are finite)"""
    if len(p.t) == 1 and abs(p.t[0][1]) == 1 and len(p.t[0][0]) == 1:
        a = T._atom_list[p.t[0][0][0][0]]
        if a.kind == "A" and a.args[0] == "const_inf":
            return 1 if p.t[0][1] > 0 else -1
    return 0


def cmp_inf(op, a, b):
    ia, ib = _isinf(a), _isinf(b)
    if ia or ib:
        if ia == ib:
            return fbool(op == "<=")
        return fbool(ia < ib)
    return T.cmp0(op, a - b)


def conj_p(p, dt):
    if dt != "complex":
        return p

    def f(a):
        if a.kind == "A" and a.args[0] in REAL_FNS or a.kind == "V":
            return None
        if a.kind == "A":
            if a.args[0] == "conj":
                return a.args[1][0]
            if a.args[0] == "I_unit":
                return -T.atom_poly(a)
            if a.args[0] in ("exp",):
                return T.exp_(conj_p(a.args[1][0], dt))
            if a.args[0] == "pow":
                return T.pow_(conj_p(a.args[1][0], dt), a.args[1][1])
            if a.args[0] in ("log", "sqrt", "abs", "re", "im"):
                return None
            return app("conj", (T.atom_poly(a),), "R") if a.args[0] in COMPLEX_FNS else None
        if a.kind == "S":
            bs, m = T.open_sum(a)
            q = conj_p(T.mkpoly({m: T.ONE}, T._mono_sort(m)), dt)
            for n, b in reversed(bs):
                q = T.Sum(n, b, q)
            return q
        if a.kind == "P":
            return conj_p(a.args[0], dt)
        if a.kind == "I":
            c, x, y = a.args
            return ite(c, conj_p(x, dt), conj_p(y, dt))
        return None

    return T.map_atoms(p, f)


REAL_FNS = set()
COMPLEX_FNS = set()


def _is_real_poly(p):
    """syntactically free of complex atoms"""
    for a in p.atoms():
        if a.kind == "A":
            if a.args[0] in ("re", "im", "abs"):
                continue
            if a.args[0] in COMPLEX_FNS or a.args[0] in ("I_unit", "conj"):
                return False
            if a.args[0] in ("exp", "pow", "log", "sqrt") and not all(_is_real_poly(x) for x in a.args[1]):
                return False
        elif a.kind == "S":
            if not _is_real_poly(T.mkpoly({a.args[1]: T.ONE}, "R")):
                return False
        elif a.kind == "P":
            if not _is_real_poly(a.args[0]):
                return False
        elif a.kind == "I":
            if not (_is_real_poly(a.args[1]) and _is_real_poly(a.args[2])):
                return False
    return True


def real_p(p, dt):
    if dt != "complex" or _is_real_poly(p):
        return p
    return app("re", (p,), "R")


def imag_p(p, dt):
    if dt != "complex" or _is_real_poly(p):
        return const(0, "R")
    return app("im", (p,), "R")


def abs_p(p, dt):
    if dt == "complex" and not _is_real_poly(p):
        return app("abs", (p,), "R")
    return T.abs_(p)


def real_(x):
    if isinstance(x, SNum):
        return mknum(real_p(x.p, x.dt), "float" if x.dt == "complex" else x.dt)
    return x


def trunc_p(p):
    if p.sort == "I":
        return p
    v = p.const_value()
    if v is not None:
        return const(int(v), "I")
    w, rest = int_part(p)
    if not rest.t:
        return w
    return app("trunc", (p,), "I")


def int_part(p):
    """p = (integer valued terms) + rest"""
    w, r = {}, {}
    for m, c in p.t:
        (w if c.denominator == 1 and T._mono_sort(m) == "I" else r)[m] = c
    return T.mkpoly(w, "I"), T.mkpoly(r, "R")


def floor_p(p):
    if p.sort == "I":
        return p
    w, r = int_part(p)
    v = r.const_value()
    if v is not None:
        return _r(w + (v.numerator // v.denominator))
    f = app("floorI", (r,), "I")
    if not any(x[0] in "%@" for x in r.fv):
        from .engine import E
        E().assume(fand(le(_r(f), r), lt(r, _r(f) + 1)))
    return _r(w + f)


def cast(x, dt):
    p, d = num(x)
    if dt == d:
        return x
    if dt == "bool":
        return mkbool(ne(p, 0))
    if dt == "int" and d in ("float",):
        return mknum(trunc_p(p), "int")
    if dt == "float" and d == "complex":
        return mknum(real_p(p, d), "float")
    return mknum(_r(p) if dt in ("float", "complex") else p, dt)


# ------------------------------------------------------------------ arrays
_depth = [0]


class Template:
    """elementwise definition of an array over placeholder index variables"""

    __slots__ = ("names", "body", "_key", "_memo")

    def __init__(self, ndim, fn):
        d = _depth[0]
        _depth[0] += 1
        try:
            self.names = [f"%{d}.{i}" for i in range(ndim)]
            self.body = fn(tuple(var(n, "I") for n in self.names))
        finally:
            _depth[0] -= 1
        assert isinstance(self.body, (Poly, Form)), self.body
        self._key = None
        self._memo = {}

    def at(self, idx):
        r = self._memo.get(idx)
        if r is None:
            r = subst(self.body, dict(zip(self.names, idx)))
            self._memo[idx] = r
        return r

    def key(self):
        if self._key is None:
            self._key = subst(self.body, {n: var(f"%k.{i}", "I") for i, n in enumerate(self.names)})
        return self._key


class Cell:
    """mutable storage of an array"""

    def __init__(self, tmpl, dt, shape):
        self.t = tmpl
        self.dt = dt
        self.shape = shape
        self.t0 = tmpl
        self.writes = 0
        e = Engine.cur
        self.id = e.cells if e else -1
        if e:
            e.cells += 1
            e.cell_reg[self.id] = self

    def write(self, fn):
        old = self.t
        self.t = Template(len(self.shape), lambda idx: fn(idx, old.at(idx)))
        self.writes += 1
        e = Engine.cur
        if e:
            for lp in e.loop_stack:
                lp.on_write(self, old)


def P_(x):
    """dimension / index as Poly"""
    if isinstance(x, Poly):
        return x
    p, dt = num(x)
    if dt == "float":
        v = p.const_value()
        if v is not None and v.denominator == 1:
            raise TypeError("'float' object cannot be interpreted as an integer")
        raise Unsupported("float used as dimension/index")
    return p


def dim(x):
    return mknum(x, "int")


class SArr(Sym):
    """symbolic ndarray (possibly a view on a shared cell)"""

    sparse = None

    def __init__(self, cell, shape, view=None, writable=True):
        self.cell = cell
        self._shape = tuple(shape)
        self.view_ = view  # None or View
        self.writable = writable
        self.pytype = np.ndarray

    # construction ---------------------------------------------------
    @staticmethod
    def from_fn(shape, fn, dt):
        shape = tuple(P_(s) for s in shape)
        t = Template(len(shape), fn)
        if dt == "bool":
            if isinstance(t.body, Poly):
                b = t.body
                t.body = ne(b, 0)
        elif isinstance(t.body, Form):
            t.body = b2i(t.body)
        if dt in ("float", "complex", "object") and isinstance(t.body, Poly):
            t.body = T.with_sort(t.body, "R")
        return SArr(Cell(t, dt, shape), shape)

    def elem(self, idx):
        idx = tuple(lift(i) for i in idx)
        if self.view_ is not None:
            idx = self.view_.fwd(idx)
        return self.cell.t.at(idx)

    def real_elem(self, idx):
        e = self.elem(idx)
        return b2i(e) if isinstance(e, Form) else e

    def snapshot(self):
        """immutable copy"""
        if self.view_ is None:
            t = self.cell.t
            a = SArr(Cell(t, self.cell.dt, self._shape), self._shape)
        else:
            a = SArr.from_fn(self._shape, self.elem, self.dt)
        a.sparse = self.sparse
        return a

    def key(self):
        a = self if self.view_ is None else self.snapshot()
        return (tuple(s.uid for s in self._shape), a.cell.t.key().uid, self.dt if self.dt == "complex" else "")

    # attributes -----------------------------------------------------
    @property
    def dt(self):
        return self.cell.dt

    @property
    def shape(self):
        return tuple(dim(s) for s in self._shape)

    @property
    def ndim(self):
        return len(self._shape)

    @property
    def size(self):
        r = const(1, "I")
        for s in self._shape:
            r = r * s
        return dim(r)

    @property
    def dtype(self):
        return DT[self.dt]

    @property
    def T(self):
        return self.transpose()

    @property
    def real(self):
        return ew1(lambda p, d: (real_p(p, d), "float" if d == "complex" else d), self)

    @property
    def imag(self):
        return ew1(lambda p, d: (imag_p(p, d), "float" if d == "complex" else d), self)

    @property
    def nnz(self):
        raise Unsupported("nnz")

    def __len__(self):
        v = self._shape[0].as_int()
        if v is None:
            raise Unsupported("len() of a symbolic array outside instrumented code")
        return v

    def __hash__(self):
        return id(self)

    def __repr__(self):
        return f"SArr{list(self._shape)}:{self.dt}"

    def __format__(self, s):
        return repr(self)

    def __bool__(self):
        if self.ndim == 0 or all(s.as_int() == 1 for s in self._shape):
            e = self.elem(tuple(const(0, "I") for _ in self._shape))
            return E().decide(e if isinstance(e, Form) else ne(e, 0))
        raise ValueError("The truth value of an array with more than one element is ambiguous.")

    def _scalar(self):
        if all(s.as_int() == 1 for s in self._shape):
            e = self.elem(tuple(const(0, "I") for _ in self._shape))
            return mkbool(e) if isinstance(e, Form) else mknum(e, self.dt)
        raise TypeError("only length-1 arrays can be converted to Python scalars")

    def __float__(self):
        return float(self._scalar())

    def __int__(self):
        return int(self._scalar())

    def __index__(self):
        return self._scalar().__index__()

    def item(self):
        return self._scalar()

    def __iter__(self):
        n = self._shape[0].as_int()
        if n is None:
            raise Unsupported("iteration over a symbolic axis outside instrumented code")
        return iter([self[i] for i in range(n)])

    def __contains__(self, x):
        raise Unsupported("in symbolic array")

    # arithmetic -----------------------------------------------------
    def _bin(self, o, f, r=False):
        if o is None or isinstance(o, (str, dict)):
            return NotImplemented
        if not isinstance(o, (SArr, SNum, SBool, np.ndarray, numbers.Number, np.generic, list, tuple)):
            return NotImplemented
        return elementwise2(f, o if r else self, self if r else o)

    def __add__(self, o):
        return self._bin(o, op_add)

    def __radd__(self, o):
        return self._bin(o, op_add, True)

    def __sub__(self, o):
        return self._bin(o, op_sub)

    def __rsub__(self, o):
        return self._bin(o, op_sub, True)

    def __mul__(self, o):
        return self._bin(o, op_mul)

    def __rmul__(self, o):
        return self._bin(o, op_mul, True)

    def __truediv__(self, o):
        return self._bin(o, op_div)

    def __rtruediv__(self, o):
        return self._bin(o, op_div, True)

    def __floordiv__(self, o):
        return self._bin(o, op_floordiv)

    def __mod__(self, o):
        return self._bin(o, op_mod)

    def __pow__(self, o):
        return self._bin(o, op_pow)

    def __rpow__(self, o):
        return self._bin(o, op_pow, True)

    def __neg__(self):
        return ew1(lambda p, d: (-p, d), self)

    def __pos__(self):
        return self

    def __abs__(self):
        return ew1(lambda p, d: (abs_p(p, d), "float" if d == "complex" else d), self)

    def __lt__(self, o):
        return self._bin(o, op_lt)

    def __le__(self, o):
        return self._bin(o, op_le)

    def __gt__(self, o):
        return self._bin(o, op_gt)

    def __ge__(self, o):
        return self._bin(o, op_ge)

    def __eq__(self, o):
        if o is None or isinstance(o, str):
            return False
        return self._bin(o, op_eq)

    def __ne__(self, o):
        if o is None or isinstance(o, str):
            return True
        return self._bin(o, op_ne)

    def __invert__(self):
        if self.dt != "bool":
            raise Unsupported("~ on non-bool")
        return SArr.from_fn(self._shape, lambda i: fnot(self.elem(i)), "bool")

    def __and__(self, o):
        return bool2(lambda a, b: fand(a, b), self, o)

    __rand__ = __and__

    def __or__(self, o):
        return bool2(lambda a, b: T._or([a, b]), self, o)

    __ror__ = __or__

    def __matmul__(self, o):
        if not isinstance(o, (SArr, np.ndarray, list)):
            return NotImplemented
        return matmul(self, o)

    def __rmatmul__(self, o):
        return matmul(o, self)

    def _inplace(self, r):
        if isinstance(r, type(NotImplemented)):
            return r
        self.assign_all(r)
        return self

    def __iadd__(self, o):
        return self._inplace(self._bin(o, op_add))

    def __isub__(self, o):
        return self._inplace(self._bin(o, op_sub))

    def __imul__(self, o):
        return self._inplace(self._bin(o, op_mul))

    def __itruediv__(self, o):
        if self.dt == "int":
            raise TypeError("Cannot cast ufunc 'divide' output from dtype('float64') to dtype('int64')")
        return self._inplace(self._bin(o, op_div))

    def __ipow__(self, o):
        return self._inplace(self._bin(o, op_pow))

    def assign_all(self, r):
        """self[...] = r"""
        self[tuple(slice(None) for _ in self._shape)] = r

    # structure ------------------------------------------------------
    def transpose(self, *axes):
        if self.ndim < 2:
            return self
        if len(axes) == 1 and isinstance(axes[0], (tuple, list)):
            axes = tuple(axes[0])
        if not axes or axes == (None,):
            axes = tuple(reversed(range(self.ndim)))
        axes = tuple(int(a) % self.ndim for a in axes)
        shp = tuple(self._shape[a] for a in axes)

        def fwd(idx):
            r = [None] * len(axes)
            for i, a in enumerate(axes):
                r[a] = idx[i]
            return tuple(r)

        def inv(b):
            return TRUE, tuple(b[a] for a in axes)

        return self._mkview(shp, fwd, inv)

    def _mkview(self, shape, fwd, inv):
        v = self.view_
        if v is None:
            nv = View(fwd, inv)
        else:
            def f2(idx, fwd=fwd, v=v):
                return v.fwd(fwd(idx))

            def i2(b, inv=inv, v=v):
                if inv is None or v.inv is None:
                    raise Unsupported("write through this view")
                c1, m = v.inv(b)
                c2, k = inv(m)
                return fand(c1, c2), k

            nv = View(f2, i2)
        a = SArr(self.cell, shape, nv, self.writable)
        a.sparse = self.sparse
        return a

    def view(self, *a, **k):
        return self._mkview(self._shape, lambda i: i, lambda b: (TRUE, b))

    def copy(self, *a, **k):
        return self.snapshot()

    def __copy__(self):
        return self.snapshot()

    def __deepcopy__(self, memo):
        return self.snapshot()

    def astype(self, dtype, *a, **k):
        d = dt_name(dtype)
        if d == self.dt:
            return self.snapshot() if k.get("copy", True) else self
        src = self.snapshot()

        def f(i):
            e = src.elem(i)
            p = b2i(e) if isinstance(e, Form) else e
            if d == "bool":
                return ne(p, 0)
            if d == "int" and src.dt == "float":
                return trunc_p(p)
            if d == "float" and src.dt == "complex":
                return real_p(p, "complex")
            return p

        return SArr.from_fn(self._shape, f, d)

    def ravel(self, *a, **k):
        if self.ndim == 1:
            return self
        return reshape(self, (-1,))

    def flatten(self, *a, **k):
        return reshape(self, (-1,)).snapshot()

    def reshape(self, *shape, **k):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        return reshape(self, shape, **k)

    def squeeze(self, axis=None):
        return squeeze(self, axis)

    def conj(self):
        return ew1(lambda p, d: (conj_p(p, d), d), self)

    conjugate = conj

    @property
    def data(self):
        d = self.sparse.diag if self.sparse else None
        if d is None:
            raise Unsupported("data of a symbolic array")
        return SArr.from_fn((1, d._shape[0]), lambda i: d.real_elem((i[1],)), d.dt)

    def fill(self, v):
        self.assign_all(v)

    def tolist(self):
        n = self._shape[0].as_int()
        if n is None or self.ndim != 1:
            raise Unsupported("tolist of symbolic array")
        return [self[i] for i in range(n)]

    def dot(self, o, out=None):
        r = matmul(self, o)
        if out is not None:
            out.assign_all(r)
            return out
        return r

    def __array_function__(self, func, types, args, kwargs):
        from .runtime import call

        return call(func, *args, **kwargs)

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        from .models import ARR_METHODS

        m = ARR_METHODS.get(name)
        if m is None:
            raise (Unsupported if hasattr(np.ndarray, name) else AttributeError)(f"ndarray.{name} on a symbolic array")
        return lambda *a, **k: m(self, *a, **k)

    # indexing -------------------------------------------------------
    def __getitem__(self, key):
        return getitem(self, key)

    def __setitem__(self, key, val):
        setitem(self, key, val)


class View:
    __slots__ = ("fwd", "inv")

    def __init__(self, fwd, inv):
        self.fwd, self.inv = fwd, inv


# ------------------------------------------------------------------ conversions
def concrete_arr(x):
    """constant table as SArr"""
    x = np.asarray(x)
    dt = dt_name(x.dtype)
    shp = x.shape
    if x.size > 4096:
        raise Unsupported("large concrete array mixed with symbolic values")
    flat = x.ravel()
    if dt == "object":
        # may hold symbolic scalars
        vals = [num(v) for v in flat]
        dt = dt_join(*[d for _, d in vals]) if vals else "float"
        polys = [p for p, _ in vals]
    else:
        polys = [num(v)[0] for v in flat]
    srt = sort_of(dt)
    polys = [T.with_sort(p, "R") if srt == "R" else p for p in polys]
    if polys and all(p is polys[0] for p in polys):
        return SArr.from_fn(shp, lambda i: polys[0], dt)

    def f(idx):
        # linear position
        def rec(axis, off, stride):
            if axis == len(shp):
                return polys[off]
            n = shp[axis]
            st = stride // n
            iv = idx[axis].as_int()
            if iv is not None:
                return rec(axis + 1, off + (iv % n) * st, st)
            r = rec(axis + 1, off + (n - 1) * st, st)
            for k in range(n - 2, -1, -1):
                r = ite(eq(idx[axis], k), rec(axis + 1, off + k * st, st), r)
            return r

        if x.size == 0:
            return const(0, srt)
        return rec(0, 0, x.size)

    return SArr.from_fn(shp, f, dt)


def as_arr(x):
    if isinstance(x, SArr):
        return x
    if isinstance(x, (SNum, SBool)) or isinstance(x, numbers.Number) or isinstance(x, np.generic):
        if isinstance(x, SBool):
            return SArr.from_fn((), lambda i: x.form, "bool")
        p, d = num(x)
        return SArr.from_fn((), lambda i: p, d)
    if isinstance(x, np.ndarray):
        return concrete_arr(x)
    if isinstance(x, (list, tuple)):
        if not x:
            return concrete_arr(np.asarray(x))
        items = [as_arr(y) for y in x]
        from .models import np_stack

        return np_stack(items, axis=0)
    h = getattr(x, "_vc_values", None)
    if h is not None:
        return h()
    from .models import SList

    if isinstance(x, SList):
        return x.to_arr()
    raise Unsupported(f"cannot view {type(x)} as an array")


def simplify_scalar(a):
    """0-d SArr -> scalar"""
    if isinstance(a, SArr) and a.ndim == 0:
        e = a.elem(())
        return mkbool(e) if isinstance(e, Form) else mknum(e, a.dt)
    return a


# ------------------------------------------------------------------ elementwise
def broadcast_dims(s1, s2):
    """result dimension of two dims (forks / raises as numpy does)"""
    if s1 is s2:
        return s1
    if s1.as_int() == 1:
        return s2
    if s2.as_int() == 1:
        return s1
    e = E()
    if e.decide(eq(s1, s2)):
        return s1
    if e.decide(eq(s1, 1)):
        return s2
    if e.decide(eq(s2, 1)):
        return s1
    raise ValueError(f"operands could not be broadcast together with dims {s1!r} {s2!r}")


def broadcast_shapes(*shapes):
    n = max(len(s) for s in shapes)
    out = []
    for k in range(n):
        d = None
        for s in shapes:
            j = k - (n - len(s))
            if j < 0:
                continue
            d = s[j] if d is None else broadcast_dims(d, s[j])
        out.append(d)
    return tuple(out)


def bidx(shape, idx, full):
    """index into an operand of `shape` for result index idx"""
    off = len(idx) - len(shape)
    r = []
    for j, s in enumerate(shape):
        i = idx[off + j]
        fd = full[off + j]
        if s is fd:
            r.append(i)
        elif s.as_int() == 1:
            r.append(const(0, "I"))
        elif E().entails(eq(s, fd)):
            r.append(i)
        elif E().entails(eq(s, 1)):
            r.append(const(0, "I"))
        else:
            raise Unsupported("broadcast of undetermined dimension")
    return tuple(r)


def elementwise2(f, a, b, name=""):
    a, b = as_arr(a), as_arr(b)
    shp = broadcast_shapes(a._shape, b._shape)
    dts = []

    def g(idx):
        x = a.real_elem(bidx(a._shape, idx, shp))
        y = b.real_elem(bidx(b._shape, idx, shp))
        p, d = f(x, y, a.dt, b.dt)
        dts.append(d)
        return p

    t = Template(len(shp), g)
    r = SArr(Cell(t, dts[0], shp), shp)
    if dts[0] in ("float", "complex") and isinstance(t.body, Poly):
        t.body = T.with_sort(t.body, "R")
    if dts[0] == "bool" and isinstance(t.body, Poly):
        t.body = ne(t.body, 0)
    sp = [getattr(x, "sparse", None) for x in (a, b)]
    if any(sp):
        from .models import sparse_result

        r = sparse_result(f, a, b, r)
    return simplify_scalar(r)


def ew1(f, a):
    a = as_arr(a)
    shp = a._shape
    dts = []

    def g(idx):
        p, d = f(a.real_elem(idx), a.dt)
        dts.append(d)
        return p

    t = Template(len(shp), g)
    if dts[0] in ("float", "complex") and isinstance(t.body, Poly):
        t.body = T.with_sort(t.body, "R")
    r = SArr(Cell(t, dts[0], shp), shp)
    if a.sparse:
        r.sparse = a.sparse
    return simplify_scalar(r)


def bool2(f, a, b):
    a, b = as_arr(a), as_arr(b)
    if a.dt != "bool" or b.dt != "bool":
        raise Unsupported("bitwise op on non-bool arrays")
    shp = broadcast_shapes(a._shape, b._shape)
    return simplify_scalar(
        SArr.from_fn(shp, lambda i: f(a.elem(bidx(a._shape, i, shp)), b.elem(bidx(b._shape, i, shp))), "bool")
    )


def matmul(a, b):
    a, b = as_arr(a), as_arr(b)
    if a.ndim == 0 or b.ndim == 0:
        if a.sparse or b.sparse:
            return elementwise2(op_mul, a, b)
        raise ValueError("matmul: Input operand does not have enough dimensions")
    va, vb = a.ndim == 1, b.ndim == 1
    na = a._shape[-1]
    nb = b._shape[0] if vb else b._shape[-2]
    if na is not nb and not E().decide(eq(na, nb)):
        raise ValueError(f"matmul: dimension mismatch {na!r} != {nb!r}")
    d = dt_join(a.dt, b.dt)
    ba = a._shape[:-2] if not va else ()
    bb = b._shape[:-2] if not vb else ()
    batch = broadcast_shapes(ba, bb) if (ba or bb) else ()
    shp = batch + (() if va else (a._shape[-2],)) + (() if vb else (b._shape[-1],))
    nbt = len(batch)

    def f(idx):
        bi = idx[:nbt]
        rest = list(idx[nbt:])
        ia = bidx(ba, bi, batch) + ((rest.pop(0),) if not va else ())
        ib = bidx(bb, bi, batch)
        nm = fresh_name("m")
        k = var(nm, "I")
        x = a.real_elem(ia + (k,))
        y = b.real_elem(ib + (k,) + ((rest.pop(0),) if not vb else ()))
        return T.Sum(nm, na, x * y)

    r = SArr.from_fn(shp, f, d)
    if a.sparse and b.sparse:
        r.sparse = a.sparse
    return simplify_scalar(r)


# ------------------------------------------------------------------ reshape / squeeze
def prod_dims(ds):
    r = const(1, "I")
    for d in ds:
        r = r * d
    return r


def reshape(a, shape, order="C"):
    a = as_arr(a)
    if not isinstance(shape, (tuple, list)):
        shape = (shape,)
    if order not in ("C", "F", "A"):
        raise Unsupported("reshape order")
    shp = [P_(s) for s in shape]
    if order == "F":
        # F-order reshape = transpose . C-order reshape of transposes
        r = reshape(a.transpose(), tuple(reversed(shp)))
        return r.transpose()
    neg = [i for i, s in enumerate(shp) if s.as_int() == -1]
    tot = prod_dims(a._shape)
    if neg:
        known = prod_dims([s for i, s in enumerate(shp) if i not in neg])
        q = div_exact(tot, known)
        if q is None:
            q = div_exact(E().norm(eq(tot, 0)).a if False else _nm(tot), _nm(known))
        if q is None:
            raise Unsupported(f"reshape -1: {tot!r} / {known!r}")
        shp[neg[0]] = q
    if not E().decide(eq(prod_dims(shp), tot)):
        raise ValueError("cannot reshape array")
    src = a
    nz_src = [i for i, s in enumerate(a._shape) if s.as_int() != 1]
    nz_dst = [i for i, s in enumerate(shp) if s.as_int() != 1]
    if len(nz_src) == len(nz_dst) and all(
        a._shape[i] is shp[j] or E().entails(eq(a._shape[i], shp[j])) for i, j in zip(nz_src, nz_dst)
    ):
        # only unit axes change: a view
        def fwd(idx):
            r = [const(0, "I")] * a.ndim
            for i, j in zip(nz_src, nz_dst):
                r[i] = idx[j]
            return tuple(r)

        def inv(b):
            r = [const(0, "I")] * len(shp)
            for i, j in zip(nz_src, nz_dst):
                r[j] = b[i]
            return TRUE, tuple(r)

        return a._mkview(tuple(shp), fwd, inv)
    snap = src.snapshot()

    def f(idx):
        # match trailing/leading groups of axes exactly
        return snap.real_elem(unravel(ravel_index(idx, shp), snap._shape, idx, shp))

    r = SArr.from_fn(shp, f, a.dt)
    r.writable = False
    return r


def _nm(p):
    e = E()
    e.ctx()
    return subst(p, e._sub) if e._sub else p


def div_exact(a, b):
    """polynomial quotient when every monomial is divisible"""
    if b.as_int() == 1:
        return a
    if len(b.t) != 1:
        # try a == k*b
        if len(a.t) % max(1, len(b.t)) == 0 and b.t:
            # (x*b)/b with single-monomial x
            for m, c in a.t:
                for m2, c2 in b.t[:1]:
                    d = dict(m)
                    ok = True
                    for u, e in m2:
                        if d.get(u, 0) < e:
                            ok = False
                            break
                        d[u] -= e
                        if d[u] == 0:
                            del d[u]
                    if ok:
                        x = T.mkpoly({tuple(sorted(d.items())): c / c2}, "I")
                        if x * b is a:
                            return x
        return None
    (mb, cb), = b.t
    out = {}
    for m, c in a.t:
        d = dict(m)
        for u, e in mb:
            if d.get(u, 0) < e:
                return None
            d[u] -= e
            if d[u] == 0:
                del d[u]
        q = c / cb
        if q.denominator != 1:
            return None
        out[tuple(sorted(d.items()))] = q
    return T.mkpoly(out, "I")


def ravel_index(idx, shp):
    r = const(0, "I")
    for i, s in zip(idx, shp):
        r = r * s + i
    return r


def unravel(lin, shape, idx, shp):
    """multi-index in `shape` of the linear index of idx in shp, structurally if possible"""
    shape, idx, shp = list(shape), list(idx), list(shp)
    out = {}
    lo_s, lo_d = 0, 0
    hi_s, hi_d = len(shape), len(shp)
    e = E()

    def same(x, y):
        return x is y or e.entails(eq(x, y))

    # peel equal leading axes (and unit axes)
    while lo_s < hi_s and lo_d < hi_d:
        if shape[lo_s].as_int() == 1:
            out[lo_s] = const(0, "I")
            lo_s += 1
        elif shp[lo_d].as_int() == 1:
            lo_d += 1
        elif same(shape[lo_s], shp[lo_d]):
            out[lo_s] = idx[lo_d]
            lo_s += 1
            lo_d += 1
        else:
            break
    while lo_s < hi_s and lo_d < hi_d:
        if shape[hi_s - 1].as_int() == 1:
            out[hi_s - 1] = const(0, "I")
            hi_s -= 1
        elif shp[hi_d - 1].as_int() == 1:
            hi_d -= 1
        elif same(shape[hi_s - 1], shp[hi_d - 1]):
            out[hi_s - 1] = idx[hi_d - 1]
            hi_s -= 1
            hi_d -= 1
        else:
            break
    rest_s = shape[lo_s:hi_s]
    rest_d = list(zip(idx[lo_d:hi_d], shp[lo_d:hi_d]))
    if rest_s:
        lin = const(0, "I")
        for i, s in rest_d:
            lin = lin * s + i
        if len(rest_s) == 1:
            out[lo_s] = lin
        else:
            for k in range(hi_s - 1, lo_s - 1, -1):
                if k == lo_s:
                    out[k] = lin
                else:
                    q, r = divmod_struct(lin, shape[k])
                    out[k] = r
                    lin = q
    return tuple(out[k] for k in range(len(shape)))


def divmod_struct(lin, n):
    nv = n.as_int()
    if nv == 1:
        return lin, const(0, "I")
    # lin = q*n + r with 0<=r<n provable, structural
    q = {}
    r = {}
    for m, c in lin.t:
        x = div_exact(T.mkpoly({m: c}, "I"), n)
        if x is not None:
            for mm, cc in x.t:
                q[mm] = q.get(mm, 0) + cc
        else:
            r[m] = c
    Q, R = T.mkpoly(q, "I"), T.mkpoly(r, "I")
    return T.floordiv(lin, n), T.mod(lin, n)


def squeeze(a, axis=None):
    a = as_arr(a)
    if axis is not None:
        axes = [int(x) % a.ndim for x in (axis if isinstance(axis, (tuple, list)) else [axis])]
        for x in axes:
            if not E().decide(eq(a._shape[x], 1)):
                raise ValueError("cannot select an axis to squeeze out which has size not equal to one")
    else:
        axes = [i for i, s in enumerate(a._shape) if s.as_int() == 1 or (s.as_int() is None and E().decide(eq(s, 1)))]
    keep = [i for i in range(a.ndim) if i not in axes]
    shp = tuple(a._shape[i] for i in keep)

    def fwd(idx):
        r = [const(0, "I")] * a.ndim
        for j, i in enumerate(keep):
            r[i] = idx[j]
        return tuple(r)

    def inv(b):
        return TRUE, tuple(b[i] for i in keep)

    return a._mkview(shp, fwd, inv)


# ------------------------------------------------------------------ indexing
def norm_index(i, n, what="index"):
    """integer index -> Poly in [0,n); raises IndexError on the out-of-bounds path"""
    p = P_(i)
    v = p.as_int()
    if v is not None and v < 0:
        p = n + v
    elif v is None and E().spec:
        return p
    elif v is None:
        e = E()
        if not e.entails(ge(p, 0)):
            inb = any(b in p.fv for b in e.binders)
            if inb:
                raise Unsupported(f"index sign of {p!r} undetermined")
            if e.decide(lt(p, 0)):
                p = n + p
    e = E()
    if e.spec:
        return p
    f = fand(ge(p, 0), lt(p, n))
    if not e.entails(f):
        if any(b in f.fv for b in e.binders):
            raise Unsupported(f"index {p!r} not provably in bounds [0,{n!r})")
        if not e.decide(f):
            raise IndexError(f"index {p!r} is out of bounds for axis with size {n!r}")
    return p


def clip_bound(x, n):
    e = E()
    p = P_(x)
    v = p.as_int()
    if v is not None and v < 0:
        p = n + v
    elif v is None and not e.entails(ge(p, 0)):
        if e.decide(lt(p, 0)):
            p = n + p
    if p.as_int() == 0:
        return p
    if not e.entails(ge(p, 0)):
        if e.decide(lt(p, 0)):
            return const(0, "I")
    if not e.entails(le(p, n)):
        if e.decide(gt(p, n)):
            return n
    return p


def norm_slice(s, n):
    """(start, length, step) of a slice on an axis of length n"""
    step = 1 if s.step is None else P_(s.step).as_int()
    if step == 0:
        raise ValueError("slice step cannot be zero")
    e = E()
    if step is None:
        step = P_(s.step)
        if not e.entails(ge(step, 1)):
            raise Unsupported("slice step of unknown sign")
        start = const(0, "I") if s.start is None else clip_bound(s.start, n)
        stop = n if s.stop is None else clip_bound(s.stop, n)
        ln = stop - start
        if not e.entails(ge(ln, 0)) and e.decide(lt(ln, 0)):
            ln = const(0, "I")
        return start, T.floordiv(ln + step - 1, step), step
    if step > 0:
        start = const(0, "I") if s.start is None else clip_bound(s.start, n)
        stop = n if s.stop is None else clip_bound(s.stop, n)
        ln = stop - start
        if not e.entails(ge(ln, 0)):
            if e.decide(lt(ln, 0)):
                ln = const(0, "I")
        if step != 1:
            ln = T.floordiv(ln + (step - 1), const(step, "I"))
        return start, ln, step
    if s.start is None and s.stop is None:
        if step == -1:
            return n - 1, n, -1
        ln = T.floordiv(n + (-step - 1), const(-step, "I"))
        return n - 1, ln, step
    # negative step with bounds
    if s.start is None:
        start = n - 1
    else:
        start = P_(s.start)
        if start.as_int() is not None and start.as_int() < 0:
            start = n + start
        if not e.entails(lt(start, n)) and e.decide(ge(start, n)):
            start = n - 1
    if s.stop is None:
        stop = const(-1, "I")
    else:
        stop = P_(s.stop)
        if stop.as_int() is not None and stop.as_int() < 0:
            stop = n + stop
    ln = start - stop
    if not e.entails(ge(ln, 0)) and e.decide(lt(ln, 0)):
        ln = const(0, "I")
    if step != -1:
        ln = T.floordiv(ln + (-step - 1), const(-step, "I"))
    return start, ln, step


def expand_key(a, key):
    if not isinstance(key, tuple):
        key = (key,)
    key = list(key)
    out = []
    nax = sum(
        (k.ndim if _is_boolarr(k) else 1)
        for k in key
        if k is not None and k is not Ellipsis
    )
    if not any(k is Ellipsis for k in key):
        key.append(Ellipsis)
    seen = False
    for k in key:
        if k is Ellipsis:
            if seen:
                raise IndexError("an index can only have a single ellipsis")
            seen = True
            out.extend([slice(None)] * (a.ndim - nax))
        else:
            out.append(k)
    if nax > a.ndim:
        raise IndexError("too many indices for array")
    return out


def _is_boolarr(k):
    if isinstance(k, SArr):
        return k.dt == "bool"
    if isinstance(k, np.ndarray):
        return k.dtype == bool
    if isinstance(k, list):
        return bool(k) and all(isinstance(x, (bool, np.bool_)) for x in k)
    return False


def _is_intlike(k):
    return isinstance(k, (int, np.integer, SNum)) and not isinstance(k, (bool, np.bool_)) or (
        isinstance(k, (SArr, np.ndarray)) and k.ndim == 0 and not _is_boolarr(k)
    )


def getitem(a, key):
    if isinstance(key, (str,)):
        raise IndexError("only integers, slices...")
    key = expand_key(a, key)
    if all(k is None or isinstance(k, slice) or _is_intlike(k) for k in key):
        return basic_view(a, key)
    return advanced(a, key)


def basic_view(a, key):
    maps = []  # per source axis: ('i', poly) or ('s', start, step, dst)
    shp = []
    ax = 0
    for k in key:
        if k is None:
            shp.append(const(1, "I"))
        elif isinstance(k, slice):
            n = a._shape[ax]
            if k.start is None and k.stop is None and k.step in (None, 1):
                maps.append(("s", const(0, "I"), 1, len(shp)))
                shp.append(n)
            else:
                st, ln, step = norm_slice(k, n)
                maps.append(("s", st, step, len(shp)))
                shp.append(ln)
            ax += 1
        else:
            if isinstance(k, (SArr, np.ndarray)):
                k = simplify_scalar(as_arr(k))
            maps.append(("i", norm_index(k, a._shape[ax])))
            ax += 1

    def fwd(idx):
        return tuple(m[1] if m[0] == "i" else (m[1] + idx[m[3]] * m[2]) for m in maps)

    def inv(b):
        cond = TRUE
        r = [const(0, "I")] * len(shp)
        for m, bi in zip(maps, b):
            if m[0] == "i":
                cond = fand(cond, eq(bi, m[1]))
            else:
                if isinstance(m[2], Poly):
                    cond = fand(cond, eq(T.mod(bi - m[1], m[2]), 0))
                    j = T.floordiv(bi - m[1], m[2])
                elif m[2] == 1:
                    j = bi - m[1]
                elif m[2] == -1:
                    j = m[1] - bi
                else:
                    d = (bi - m[1]) if m[2] > 0 else (m[1] - bi)
                    stp = abs(m[2])
                    cond = fand(cond, eq(T.mod(d, const(stp, "I")), 0))
                    j = T.floordiv(d, const(stp, "I"))
                cond = fand(cond, ge(j, 0), lt(j, shp[m[3]]))
                r[m[3]] = j
        return cond, tuple(r)

    r = a._mkview(tuple(shp), fwd, inv)
    return simplify_scalar(r)


def index_arr(k):
    """advanced index as integer SArr"""
    k = as_arr(np.asarray(k) if isinstance(k, (list, range)) and not any(isinstance(x, Sym) for x in k) else k)
    if k.dt == "bool":
        raise Unsupported("bool as int index")
    if k.dt != "int":
        if prod_dims(k._shape).as_int() == 0:
            return SArr.from_fn(k._shape, lambda i: const(0, "I"), "int")
        raise IndexError("arrays used as indices must be of integer (or boolean) type")
    return k


def advanced(a, key):
    # split into per-axis items; masks become selections
    from .models import nonzero_mask

    items = []
    ax = 0
    for k in key:
        if k is None:
            items.append(("n",))
        elif isinstance(k, slice):
            items.append(("s", k, ax))
            ax += 1
        elif _is_boolarr(k):
            k = as_arr(np.asarray(k) if isinstance(k, list) else k)
            if k.ndim == 1:
                n = a._shape[ax]
                if n is not k._shape[0] and not E().decide(eq(n, k._shape[0])):
                    raise IndexError("boolean index did not match indexed array")
                items.append(("a", nonzero_mask(k), ax))
                ax += 1
            else:
                raise Unsupported("multi-dimensional boolean mask read")
        elif _is_intlike(k):
            items.append(("a", as_arr(k), ax))
            ax += 1
        else:
            items.append(("a", index_arr(k), ax))
            ax += 1
    advs = [it for it in items if it[0] == "a"]
    bshape = broadcast_shapes(*[it[1]._shape for it in advs])
    pos = [i for i, it in enumerate(items) if it[0] == "a"]
    contiguous = pos == list(range(pos[0], pos[-1] + 1))
    src = a.snapshot()
    # first apply slices -> axes
    shp = []
    plan = []  # for each source axis
    badded = False
    bpos = 0
    if not contiguous:
        shp.extend(bshape)
        bpos = 0
        badded = True
    for it in items:
        if it[0] == "n":
            shp.append(const(1, "I"))
        elif it[0] == "s":
            st, ln, step = norm_slice(it[1], src._shape[it[2]])
            plan.append(("s", st, step, len(shp)))
            shp.append(ln)
        else:
            if not badded:
                bpos = len(shp)
                shp.extend(bshape)
                badded = True
            plan.append(("a", it[1], src._shape[it[2]]))
    nb = len(bshape)
    # bounds: prove/raise generically
    e = E()
    for pl in plan:
        if pl[0] == "a" and not getattr(pl[1], "_inbounds", None) is pl[2]:
            check_inbounds(pl[1], pl[2])

    def f(idx):
        r = []
        b = tuple(idx[bpos:bpos + nb])
        for pl in plan:
            if pl[0] == "s":
                r.append(pl[1] + idx[pl[3]] * pl[2])
            else:
                v = pl[1].elem(bidx(pl[1]._shape, b, bshape))
                r.append(wrap_neg(v, pl[2]))
        return src.elem(tuple(r))

    return simplify_scalar(SArr.from_fn(shp, f, a.dt))


class spec_mode:
    """specification terms: indices are mathematical (no negative wrap, no bounds forks)"""

    def __enter__(self):
        E().spec += 1

    def __exit__(self, *a):
        E().spec -= 1


def wrap_neg(v, n):
    c = v.as_int()
    if c is not None:
        return v if c >= 0 else n + c
    if E().entails(ge(v, 0)):
        return v
    # is a generic element known to be non-negative?
    s = __import__("vc.prover", fromlist=["x"]).sign(v)
    if s in ("+", "0+"):
        return v
    a = v.as_atom()
    if a is not None and a.kind in ("A", "I") or True:
        return ite(lt(v, 0), n + v, v)


def check_inbounds(k, n):
    """every entry of integer array k lies in [-n, n)"""
    e = E()
    shp = k._shape
    names = [fresh_name("ib") for _ in shp]
    vs = tuple(var(nm, "I") for nm in names)
    el = k.elem(vs)
    body = fand(ge(el, -n), lt(el, n))
    hyp = []
    for v, s in zip(vs, shp):
        hyp += [ge(v, 0), lt(v, s)]
    from . import prover as Pr

    if body is TRUE:
        return
    r = Pr.prove(e.norm(body), [e.norm(h) for h in e.pc + hyp], e.rules, e.zfacts, timeout=2000)
    if r.status == "proved":
        return
    g = body
    for nm, s in zip(reversed(names), reversed(shp)):
        g = forall(nm, s, g)
    if not e.decide(g):
        raise IndexError("index array out of bounds")


def drop_inbounds(c, b, shape):
    """cells are only read at valid indices: conditions that merely say so are dropped"""
    if c is TRUE or c is FALSE:
        return c
    inb = set()
    for x, n in zip(b, shape):
        inb.add(ge(x, 0))
        inb.add(lt(x, n))
    if c.k == "&":
        return fand(*[f for f in c.a if f not in inb])
    return TRUE if c in inb else c


def setitem(a, key, val):
    if a.writable is False:
        raise Unsupported("write through a reshaped view")
    key = expand_key(a, key)
    if isinstance(val, (SNum, SBool, SArr)):
        v = as_arr(val).snapshot() if isinstance(val, SArr) else as_arr(val)
    else:
        v = as_arr(val)
    dt = a.dt

    def conv(e):
        if dt == "bool":
            return e if isinstance(e, Form) else ne(e, 0)
        p = b2i(e) if isinstance(e, Form) else e
        if dt == "int" and v.dt in ("float", "complex"):
            return trunc_p(p)
        if dt == "float" and v.dt == "complex":
            return real_p(p, "complex")
        return T.with_sort(p, "R") if dt in ("float", "complex", "object") else p

    base_inv = a.view_.inv if a.view_ is not None else (lambda b: (TRUE, b))

    if all(k is None or isinstance(k, slice) or _is_intlike(k) for k in key):
        tgt = basic_view(a, key)
        if not isinstance(tgt, SArr):
            # scalar element: rebuild as 0-d view
            tgt = _scalar_view(a, key)
        full = tgt._shape
        vs = v
        while vs.ndim > len(full):
            if vs._shape[0].as_int() == 1 or E().decide(eq(vs._shape[0], 1)):
                vs = vs[0] if isinstance(vs[0], SArr) else as_arr(vs[0])
            else:
                raise ValueError("could not broadcast input array")
        for j in range(1, vs.ndim + 1):
            s, t = vs._shape[-j], full[-j]
            if s is t or s.as_int() == 1:
                continue
            if not E().decide(eq(s, t)):
                if E().decide(eq(s, 1)):
                    continue
                raise ValueError(f"could not broadcast input array from shape {vs._shape} into shape {full}")
        inv = tgt.view_.inv if tgt.view_ is not None else (lambda b: (TRUE, b))
        if inv is None:
            raise Unsupported("write through this view")

        def w(b, old):
            c, idx = inv(b)
            if c is FALSE:
                return old
            c = drop_inbounds(c, b, a.cell.shape)
            new = conv(vs.elem(bidx(vs._shape, idx, full)))
            if isinstance(new, Form):
                return T.ite_form(c, new, old)
            return ite(c, new, old)

        a.cell.write(w)
        return
    # boolean mask of full shape
    nonslice = [(i, k) for i, k in enumerate(key) if not (isinstance(k, slice) and k == slice(None))]
    if len(nonslice) == 1 and _is_boolarr(nonslice[0][1]):
        pos, m = nonslice[0]
        m = as_arr(np.asarray(m) if isinstance(m, list) else m).snapshot()
        if v.ndim == 0 or all(s.as_int() == 1 for s in v._shape):
            c0 = conv(v.elem(tuple(const(0, "I") for _ in v._shape)))

            def w(b, old):
                c, idx = base_inv(b)
                mi = tuple(idx[pos:pos + m.ndim])
                cc = fand(c, m.elem(mi))
                return T.ite_form(cc, c0, old) if isinstance(c0, Form) else ite(cc, c0, old)

            a.cell.write(w)
            return
        if m.ndim == 1 and v.ndim == 1 and a.ndim == 1:
            from .models import nonzero_mask

            sel = nonzero_mask(m)
            if sel._shape[0] is not v._shape[0] and not E().decide(eq(sel._shape[0], v._shape[0])):
                raise ValueError("NumPy boolean array indexing assignment: shape mismatch")
            k0 = sel._shape[0].as_atom()
            if k0 is None or not k0.args[0].startswith("nnz#"):
                raise Unsupported("masked assignment with this mask")
            nm = k0.args[0][4:]
            fv = k0.args[1]

            def w(b, old):
                c, idx = base_inv(b)
                x = idx[0]
                rk = var(fresh_name("rk"), "I")
                T.APP_RW[("sel#" + nm, rk.uid)] = x
                try:
                    e1 = v.elem((rk,))
                finally:
                    T.APP_RW.pop(("sel#" + nm, rk.uid))
                new = T.subst(conv(e1), {rk.as_atom().args[0]: app("pos#" + nm, fv + (x,), "I")})
                cc = fand(c, m.elem((x,)))
                return T.ite_form(cc, new, old) if isinstance(new, Form) else ite(cc, new, old)

            a.cell.write(w)
            return
        raise Unsupported("masked assignment of an array")
    if len(nonslice) >= 2 and sum(1 for _, k in nonslice if _is_boolarr(k)) == 1 and all(_is_boolarr(k) or _is_intlike(k) for _, k in nonslice):
        # integers select a view, the mask acts on it
        view = basic_view(a, [k if _is_intlike(k) else slice(None) for k in key])
        return setitem(view, tuple(k for k in key if not _is_intlike(k)), val)
    # one integer index array on one axis: injective?
    if len(nonslice) >= 1 and all(not isinstance(k, slice) for _, k in nonslice) and len(nonslice) <= 2:
        ints = [(i, index_arr(k) if not _is_intlike(k) else k) for i, k in nonslice]
        arrs = [(i, k) for i, k in ints if isinstance(k, SArr) and k.ndim > 0]
        if len(arrs) == 2 and all(k.ndim == 1 for _, k in arrs):
            # paired index (diagonal style): both must be the identity arange
            (i0, k0), (i1, k1) = arrs
            x = var("%%", "I")
            if k0.elem((x,)) is x and k1.elem((x,)) is x:
                def w(b, old):
                    c, idx = base_inv(b)
                    cc = fand(c, eq(idx[i0], idx[i1]), lt(idx[i0], k0._shape[0]))
                    new = conv(v.elem(bidx(v._shape, (idx[i0],), (k0._shape[0],))))
                    return ite(cc, new, old)

                a.cell.write(w)
                return
        if len(arrs) == 1 and arrs[0][1].ndim == 1 and len(ints) == 1:
            ax, k = arrs[0]
            nlen = k._shape[0].as_int()
            if nlen is not None and nlen <= 64:
                for q in range(nlen):
                    kk = list(key)
                    kk[ax] = mknum(k.elem((const(q, "I"),)), "int")
                    vv = v
                    if v.ndim > 0:
                        # the value axis that corresponds to `ax` in the result
                        off = len(key) - v.ndim
                        if ax - off >= 0:
                            sel = [slice(None)] * v.ndim
                            sel[ax - off] = 0 if v._shape[ax - off].as_int() == 1 else q
                            vv = v[tuple(sel)]
                    setitem(a, tuple(kk), vv)
                return
            # permutation-like / full-range writes
            x = var("%%", "I")
            el = k.elem((x,))
            coef, rest = __import__("vc.prover", fromlist=["x"]).linear_in(el, "%%")
            if coef in (1, -1) and "%%" not in rest.fv:
                full = tuple(k._shape[0] if i == ax else s for i, s in enumerate(a._shape))

                def w(b, old):
                    c, idx = base_inv(b)
                    j = (idx[ax] - rest) if coef == 1 else (rest - idx[ax])
                    ii = list(idx)
                    ii[ax] = j
                    new = conv(v.elem(bidx(v._shape, tuple(ii), full)))
                    cc = fand(c, ge(j, 0), lt(j, k._shape[0]))
                    return ite(cc, new, old)

                a.cell.write(w)
                return
            if v.ndim == 0 or all(s.as_int() == 1 for s in v._shape):
                # one value for all listed positions
                from .models import surely

                mask = getattr(k, "mask", None)
                if mask is not None and E().entails(eq(mask._shape[0], a._shape[ax])):
                    c0 = conv(v.elem(tuple(const(0, "I") for _ in v._shape)))

                    def w(b, old):
                        c, idx = base_inv(b)
                        cc = fand(c, mask.elem((idx[ax],)))
                        return T.ite_form(cc, c0, old) if isinstance(c0, Form) else ite(cc, c0, old)

                    a.cell.write(w)
                    return
                k = k.snapshot()
                q = fresh_name("st")
                vq = var(q, "I")
                n = a._shape[ax]
                if not surely(T.forall(q, k._shape[0], ge(k.elem((vq,)), 0))):
                    raise Unsupported("store at positions not known to be non-negative")
                if not E().decide(T.forall(q, k._shape[0], lt(k.elem((vq,)), n))):
                    raise IndexError("index out of bounds")
                c0 = conv(v.elem(tuple(const(0, "I") for _ in v._shape)))

                def w(b, old):
                    c, idx = base_inv(b)
                    nm = fresh_name("st")
                    cc = fand(c, fnot(T.forall(nm, k._shape[0], fnot(eq(k.elem((var(nm, "I"),)), idx[ax])))))
                    return T.ite_form(cc, c0, old) if isinstance(c0, Form) else ite(cc, c0, old)

                a.cell.write(w)
                return
    raise Unsupported("advanced assignment")


def _scalar_view(a, key):
    fixed = []
    ax = 0
    for k in key:
        if isinstance(k, (SArr, np.ndarray)):
            k = simplify_scalar(as_arr(k))
        fixed.append(norm_index(k, a._shape[ax]))
        ax += 1

    def fwd(idx):
        return tuple(fixed)

    def inv(b):
        return fand(*[eq(x, y) for x, y in zip(b, fixed)]), ()

    return a._mkview((), fwd, inv)


# ------------------------------------------------------------------ contract API
class V:
    """handed to contracts: creates symbolic inputs, states assumptions and obligations"""

    def __init__(self, eng):
        self.e = eng

    # inputs
    def int(self, name, lo=None, hi=None):
        p = var(self.e.name(name), "I")
        if lo is not None:
            self.e.assume(ge(p, P_(lo)))
        if hi is not None:
            self.e.assume(le(p, P_(hi)))
        return SNum(p, "int")

    def real(self, name, pos=False, nonneg=False):
        p = var(self.e.name(name), "R")
        if pos:
            self.e.assume(T.gt(p, const(0, "R")))
        if nonneg:
            self.e.assume(ge(p, const(0, "R")))
        return SNum(p, "float")

    def num(self, x):
        """a literal as symbolic number"""
        return SNum(const(x, "R"), "float")

    def bool(self, name):
        return SBool(T.pred(self.e.name(name), ()))

    def array(self, name, shape, dt="float", nonneg=False, pos=False):
        nm = self.e.name(name)
        shape = tuple(P_(s) for s in (shape if isinstance(shape, (tuple, list)) else (shape,)))
        from . import prover as Pr

        if dt == "complex":
            COMPLEX_FNS.add(nm)
        if nonneg:
            Pr.NONNEG_FNS.add(nm)
        if pos:
            Pr.POS_FNS.add(nm)
        if dt == "bool":
            a = SArr.from_fn(shape, lambda i: T.pred(nm, i), "bool")
        else:
            a = SArr.from_fn(shape, lambda i: app(nm, i, sort_of(dt)), dt)
        a.fname = nm
        return a

    def symmetric(self, name, n, diag=None, nonneg=False, pos=False):
        """symmetric matrix (with constant diagonal)"""
        T.SYM_FNS[name] = diag
        a = self.array(name, (n, n), nonneg=nonneg, pos=pos)
        if a.fname != name:
            T.SYM_FNS[a.fname] = diag
            a = SArr.from_fn((n, n), lambda i: app(a.fname, i, "R"), "float")
            a.fname = name
        return a

    def unless(self, exc, fn):
        """fn() on the executions that do not raise exc (a documented refusal stated elsewhere)"""
        try:
            return fn()
        except exc:
            raise PathEnd()

    def arr_fn(self, shape, fn, dt="float"):
        """specification array from an elementwise function on SNum indices"""
        def g(idx):
            from .models import hyp

            with hyp(*[f for i, s in zip(idx, shape) for f in (ge(i, 0), lt(i, s))]), spec_mode():
                r = fn(*[SNum(i, "int") if i.as_int() is None else i.as_int() for i in idx])
                if isinstance(r, (SBool, bool, np.bool_)) and dt == "bool":
                    return to_form(r)
                return num(r)[0]

        shape = tuple(P_(s) for s in shape)
        return SArr.from_fn(shape, g, dt)

    # spec helpers
    def sum(self, n, fn):
        from .models import hyp

        nm = fresh_name("sp")
        n = P_(n)
        k = var(nm, "I")
        with hyp(ge(k, 0), lt(k, n)), spec_mode():
            body, dt = num(fn(SNum(k, "int")))
        return mknum(T.Sum(nm, n, body), dt)

    def rec(self, name, base, step):
        """specification function X(s, *args) with X(0, *a) = base(*a), X(s+1, *a) = step(s, *a)"""
        from . import prover as Pr

        nm = self.e.name(name)

        def num_(i):
            v = i.as_int()
            return SNum(i, "int") if v is None else v

        def b(*a):
            with spec_mode():
                return T.with_sort(num(base(*[num_(x) for x in a]))[0], "R")

        def st(s, *a):
            with spec_mode():
                return T.with_sort(num(step(num_(s), *[num_(x) for x in a]))[0], "R")

        Pr.REC[nm] = (b, st)
        return lambda *a: mknum(app(nm, tuple(P_(x) for x in a), "R"), "float")

    def ite(self, c, a, b):
        (x, dx), (y, dy) = num(a), num(b)
        return mknum(ite(to_form(c), x, y), dt_join(dx, dy))

    def and_(self, *cs):
        return mkbool(fand(*[to_form(c) for c in cs]))

    def or_(self, *cs):
        return mkbool(T._or([to_form(c) for c in cs]))

    def not_(self, c):
        return mkbool(fnot(to_form(c)))

    def implies(self, a, b):
        return mkbool(T.implies(to_form(a), to_form(b)))

    def iff(self, a, b):
        a, b = to_form(a), to_form(b)
        return mkbool(fand(T.implies(a, b), T.implies(b, a)))

    def forall(self, n, fn):
        from .models import hyp

        nm = fresh_name("fa")
        k = var(nm, "I")
        n = P_(n)
        with hyp(ge(k, 0), lt(k, n)), spec_mode():
            b = to_form(fn(SNum(k, "int")))
        return mkbool(T.forall(nm, n, b))

    def fn(self, name, *args, dt="float"):
        return mknum(app(name, tuple(num(a)[0] for a in args), sort_of(dt)), dt)

    def exp(self, x):
        return mknum(T.exp_(num(x)[0]), "float")

    def sqrt(self, x):
        return mknum(T.sqrt_(num(x)[0]), "float")

    def log(self, x):
        return mknum(T.log_(num(x)[0]), "float")

    def pow(self, x, y):
        return mknum(T.pow_(num(x)[0], num(y)[0]), "float")

    # logic
    def assume(self, c):
        self.e.assume(to_form(c))

    def assume_forall(self, n, fn):
        """universally quantified precondition (given to z3 as a quantified fact)"""
        f = to_form(self.forall(n, fn))
        self.e.assume(f)

    def instantiate(self, *idx):
        """use the laws of the library results (models.lsq_normal, ...) at these indices"""
        for f in self.e.laws:
            if getattr(f, "arity", len(idx)) != len(idx):
                continue
            self.e.assume(f(*[P_(i) for i in idx]))

    def eigen(self, A, lam, V):
        """assume A V = V diag(lam)"""
        from .models import eig_rules

        for x in (A, lam, V):
            if not hasattr(x, 'fvars') or x.fvars is None:
                x.fvars = ()
        eig_rules(A, lam, V)

    def rule(self, r):
        self.e.rules.append(r)
        self.e._ctx = None

    def entailed(self, c):
        return self.e.entails(to_form(c))

    def split(self, c):
        return self.e.decide(to_form(c))

    def prove(self, name, c):
        return self.e.oblige(name, to_form(c))

    def mention(self, *xs):
        """use quantified facts at these indices (id is the identity function)"""
        for x in xs:
            p = P_(x)
            self.e.assume(le(app("id", (p,), "I"), p))

    def lemma(self, name, c):
        """an obligation that later steps may use"""
        from . import models
        f = to_form(c)
        ok = models.surely(f)
        self.e.record("lemma " + name, "proved" if ok else "unknown", "prefix sums", "" if ok else repr(f)[:600])
        self.e.assume(f)

    def prove_eq(self, name, got, want, upto=None):
        """equal shapes and equal elements for every index"""
        if isinstance(got, (SArr, np.ndarray)) or isinstance(want, (SArr, np.ndarray)):
            g, w = as_arr(got), as_arr(want)
            if g.ndim != w.ndim:
                self.e.record(name + ":ndim", "refuted", "shape", f"ndim {g.ndim} != {w.ndim}")
                return False
            ok = True
            for i, (a, b) in enumerate(zip(g._shape, w._shape)):
                if a is not b:
                    ok &= self.e.oblige(f"{name}:shape[{i}]", eq(a, b))
            if not ok:
                return False
            vs = tuple(var(self.e.name(f"?{ 'ijklmn'[k] }"), "I") for k in range(g.ndim))
            hyp = [f for v, s in zip(vs, w._shape) for f in (ge(v, 0), lt(v, s))]
            x, y = g.elem(vs), w.elem(vs)
            if isinstance(x, Form) or isinstance(y, Form):
                x = x if isinstance(x, Form) else ne(x, 0)
                y = y if isinstance(y, Form) else ne(y, 0)
                goal = fand(T.implies(x, y), T.implies(y, x))
            else:
                goal = eq(x, y)
            return self.e.oblige(f"{name}:elements", goal, hyp)
        if isinstance(got, (SNum, SBool, numbers.Number)) and isinstance(want, (SNum, SBool, numbers.Number)):
            return self.e.oblige(name, eq(num(got)[0], num(want)[0]))
        ok = got == want
        if isinstance(ok, bool):
            self.e.record(name, "proved" if ok else "refuted", "concrete", f"{got!r} vs {want!r}")
            return ok
        return self.prove(name, ok)

    def fact(self, name, ok, info=""):
        """obligation whose truth is concrete on this path"""
        self.e.record(name, "proved" if ok else "refuted", "path", info)
        return ok

    def frame(self, name, *arrs):
        """the arrays have the content they had on entry"""
        for k, a in enumerate(arrs):
            c = a.cell
            if c.t is c.t0 or c.t.key() is c.t0.key():
                self.e.record(f"{name}[{k}]", "proved", "frame", "no write reaches the cell")
                continue
            vs = tuple(var(self.e.name("?f"), "I") for _ in c.shape)
            hyp = [f for v, s in zip(vs, c.shape) for f in (ge(v, 0), lt(v, s))]
            x, y = c.t.at(vs), c.t0.at(vs)
            goal = eq(x, y) if isinstance(x, Poly) else fand(T.implies(x, y), T.implies(y, x))
            self.e.oblige(f"{name}[{k}]:unchanged", goal, hyp)

    def raises(self, name, exc, cond, fn):
        """fn() raises exc iff cond; returns its value otherwise (ends the path after a legal raise)"""
        try:
            r = fn()
        except exc as ex:
            self.e.oblige(f"{name}:raise-only-if", to_form(cond) if cond is not None else FALSE, [])
            self.e.live_paths += 1
            raise PathEnd()
        if cond is not None:
            self.e.oblige(f"{name}:returns-only-if", fnot(to_form(cond)), [])
        return r

    def end(self):
        raise PathEnd()

    def stub(self, obj, attr, fn):
        """modular verification: replace a datafold function by its contract on this path"""
        old = obj.__dict__.get(attr, _MISSING) if hasattr(obj, "__dict__") else _MISSING
        setattr(obj, attr, fn)

        def undo():
            if old is _MISSING:
                try:
                    delattr(obj, attr)
                except AttributeError:
                    pass
            else:
                setattr(obj, attr, old)

        self.e.undo.append(undo)

    def model(self, f, g):
        """contract of a library function on this path (its precondition is known to hold)"""
        from .models import MODELS

        old = MODELS[f]
        MODELS[f] = g
        self.e.undo.append(lambda: MODELS.__setitem__(f, old))

    def use(self, term, value):
        """rewrite an application by an equal term (proved before)"""
        a = P_(term).as_atom()
        if a is None or a.kind != "A" or len(a.args[1]) != 1:
            return
        if not self.e.entails(eq(P_(term), P_(value))):
            raise Unsupported("use: not known to be equal")
        key = (a.args[0], a.args[1][0].uid)
        T.APP_RW[key] = P_(value)
        self.e.undo.append(lambda: T.APP_RW.pop(key, None))

    def lib(self, f, *args, **kw):
        """library function by its contract (same model the code under contract uses)"""
        from .runtime import call

        return call(f, *args, **kw)

    def is_arr(self, name, a, ndim=None):
        ok = isinstance(a, SArr) and (ndim is None or a.ndim == ndim)
        return self.fact(name, ok, type(a).__name__)

    def inv(self, *cands):
        """candidate closed forms for loop-carried state (see loops.py)"""
        self.e.loop_candidates = list(getattr(self.e, "loop_candidates", [])) + list(cands)


_MISSING = object()

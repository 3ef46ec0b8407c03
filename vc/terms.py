"""Term language of the verifier.

Scalars are *normal forms*: a :class:`Poly` is a finite map from monomials to rational
coefficients; a monomial is a product of integer powers of interned atoms.  Atoms are
variables, applications of uninterpreted functions (array elements, exp, ...), conditional
terms, inverses of non-monomial polynomials and finite sums with symbolic bounds.  Sums are
kept in a canonical multi-index form (constant factors pulled out, nested sums merged,
independent factors split, bound variables canonically renamed), so that identities of
matrix algebra are decided by comparing normal forms.

Formulas (:class:`Form`) are boolean combinations of ``poly <= 0``, ``poly < 0``,
``poly == 0`` and uninterpreted predicates.

Numbers are mathematical: ints are Z, floats are treated as elements of a field (R).
"""
from fractions import Fraction
from itertools import permutations, count

ZERO = Fraction(0)
ONE = Fraction(1)


class Unsupported(Exception):
    """Construct outside the reach of the verifier (never silently ignored)."""


# ------------------------------------------------------------------ atoms
_atoms = {}
_atom_list = []


class Atom:
    __slots__ = ("kind", "args", "sort", "uid", "fv", "lvl", "_opened")

    def __repr__(self):
        k = self.kind
        if k == "V":
            return self.args[0]
        if k == "A":
            return f"{self.args[0]}({', '.join(map(repr, self.args[1]))})"
        if k == "I":
            return f"ite({self.args[0]!r}, {self.args[1]!r}, {self.args[2]!r})"
        if k == "P":
            return f"[{self.args[0]!r}]"
        if k == "S":
            names = [f"@{self.args[2] + i}" for i in range(len(self.args[0]))]
            rng = ",".join(f"{n}<{b!r}" for n, b in zip(names, self.args[0]))
            return f"SUM[{rng}]({mono_repr(self.args[1])})"
        return "?"


def _mk(kind, args, sort, fv, lvl):
    key = (kind, args, sort)
    a = _atoms.get(key)
    if a is None:
        a = Atom()
        a.kind, a.args, a.sort = kind, args, sort
        a.fv, a.lvl = fv, lvl
        a.uid = len(_atom_list)
        _atom_list.append(a)
        _atoms[key] = a
        a._opened = None
    return a


def mono_repr(m):
    if not m:
        return "1"
    return "*".join(
        repr(_atom_list[u]) + ("" if e == 1 else f"^{e}") for u, e in m
    )


# ------------------------------------------------------------------ polys
_polys = {}


class Poly:
    __slots__ = ("t", "sort", "uid", "fv", "lvl")

    def __repr__(self):
        if not self.t:
            return "0"
        out = []
        for m, c in self.t:
            if not m:
                out.append(str(c))
            elif c == 1:
                out.append(mono_repr(m))
            else:
                out.append(f"{c}*{mono_repr(m)}")
        return " + ".join(out)

    def __hash__(self):
        return self.uid

    def __eq__(self, o):
        return self is o

    # algebra
    def __add__(self, o):
        o = lift(o)
        if not o.t:
            return self if self.sort == "R" or o.sort == "I" else with_sort(self, "R")
        if not self.t:
            return o if o.sort == "R" or self.sort == "I" else with_sort(o, "R")
        d = dict(self.t)
        for m, c in o.t:
            n = d.get(m, ZERO) + c
            if n == 0:
                d.pop(m, None)
            else:
                d[m] = n
        return mkpoly(d, _join(self.sort, o.sort))

    __radd__ = __add__

    def __neg__(self):
        return mkpoly({m: -c for m, c in self.t}, self.sort)

    def __sub__(self, o):
        return self + (-lift(o))

    def __rsub__(self, o):
        return lift(o) + (-self)

    def __mul__(self, o):
        o = lift(o)
        d = {}
        for m1, c1 in self.t:
            for m2, c2 in o.t:
                _accum(d, _mono_mul(m1, m2), c1 * c2)
        return mkpoly(d, _join(self.sort, o.sort))

    __rmul__ = __mul__

    def __pow__(self, n):
        assert isinstance(n, int)
        if n == 0:
            return const(1, self.sort)
        if n < 0:
            return inverse(self) ** (-n)
        r = self
        for _ in range(n - 1):
            r = r * self
        return r

    def __truediv__(self, o):
        return with_sort(self, "R") * inverse(lift(o))

    def __rtruediv__(self, o):
        return lift(o) / self

    # queries
    def is_const(self):
        return not self.t or (len(self.t) == 1 and not self.t[0][0])

    def const_value(self):
        if not self.t:
            return ZERO
        if len(self.t) == 1 and not self.t[0][0]:
            return self.t[0][1]
        return None

    def as_int(self):
        v = self.const_value()
        if v is not None and v.denominator == 1:
            return int(v)
        return None

    def as_atom(self):
        if len(self.t) == 1 and self.t[0][1] == 1 and len(self.t[0][0]) == 1:
            (u, e) = self.t[0][0][0]
            if e == 1:
                return _atom_list[u]
        return None

    def atoms(self):
        s = {}
        for m, _ in self.t:
            for u, _e in m:
                s[u] = _atom_list[u]
        return [s[k] for k in sorted(s)]


def _join(a, b):
    return "R" if "R" in (a, b) else "I"


def _accum(d, mono_or_poly, c):
    """mono_or_poly: monomial (tuple) or (for simplified powers) Poly"""
    if isinstance(mono_or_poly, Poly):
        for m, c2 in mono_or_poly.t:
            _accum(d, m, c * c2)
        return
    n = d.get(mono_or_poly, ZERO) + c
    if n == 0:
        d.pop(mono_or_poly, None)
    else:
        d[mono_or_poly] = n


def mkpoly(d, sort):
    if isinstance(d, dict):
        t = tuple(sorted(d.items()))
    else:
        t = d
    key = (t, sort)
    p = _polys.get(key)
    if p is None:
        p = Poly()
        p.t, p.sort = t, sort
        p.uid = len(_polys)
        fv = frozenset()
        lvl = 0
        for m, _ in t:
            for u, _e in m:
                a = _atom_list[u]
                fv = fv | a.fv
                lvl = max(lvl, a.lvl)
        p.fv, p.lvl = fv, lvl
        _polys[key] = p
    return p


def with_sort(p, sort):
    return p if p.sort == sort else mkpoly(p.t, sort)


def const(c, sort=None):
    if isinstance(c, bool):
        c = int(c)
    if sort is None:
        sort = "I" if isinstance(c, int) else "R"
    f = Fraction(c)
    return mkpoly({(): f} if f else {}, sort)


def lift(x):
    if isinstance(x, Poly):
        return x
    if isinstance(x, (int, Fraction)):
        return const(x, "I" if isinstance(x, int) else "R")
    if isinstance(x, float):
        return const_float(x)
    raise Unsupported(f"cannot lift {type(x)} into a scalar term")


def const_float(x):
    if x != x:
        return app("const_nan", (), "R")
    if x in (float("inf"), float("-inf")):
        r = app("const_inf", (), "R")
        return r if x > 0 else -r
    f = Fraction(x)
    # decimal literals such as 0.1 or 1/3-like values: use the shortest repr as exact value
    f2 = Fraction(repr(x))
    return const(f2 if abs(f2 - f) < Fraction(1, 10 ** 12) * max(1, abs(f)) else f, "R")


def atom_poly(a, e=1):
    return mkpoly({((a.uid, e),): ONE}, a.sort)


def var(name, sort):
    return atom_poly(_mk("V", (name,), sort, frozenset([name]), 0))


APP_RW = {}  # temporary: (function name, uid of last argument) -> value
SYM_FNS = {}  # symmetric matrices (contract preconditions): name -> value on the diagonal or None


def app(fn, args, sort):
    args = tuple(lift(a) if not isinstance(a, (Poly, Form)) else a for a in args)
    if APP_RW and args:
        r = APP_RW.get((fn, args[-1].uid))
        if r is not None:
            return r
    if fn in SYM_FNS:
        if args[0] is args[1] and SYM_FNS[fn] is not None:
            return const(SYM_FNS[fn], "R")
        if args[0].uid > args[1].uid:
            args = (args[1], args[0])
    fv = frozenset().union(*[a.fv for a in args]) if args else frozenset()
    lvl = max([a.lvl for a in args], default=0)
    return atom_poly(_mk("A", (fn, args), sort, fv, lvl))


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    a, b = lift(a), lift(b)
    if a is b:
        return a
    s = _join(a.sort, b.sort)
    a, b = with_sort(a, s), with_sort(b, s)
    if a is b:
        return a
    if c.k == "~":
        return ite(c.a, b, a)
    # ite(c, ite(c, x, y), b)
    aa = a.as_atom()
    if aa is not None and aa.kind == "I" and aa.args[0] is c:
        return ite(c, aa.args[1], b)
    bb = b.as_atom()
    if bb is not None and bb.kind == "I" and bb.args[0] is c:
        return ite(c, a, bb.args[2])
    fv = c.fv | a.fv | b.fv
    return atom_poly(_mk("I", (c, a, b), s, fv, max(c.lvl, a.lvl, b.lvl)))


def inverse(p):
    p = with_sort(p, "R")
    v = p.const_value()
    if v is not None:
        if v == 0:
            return app("const_div0", (), "R")
        return const(ONE / v, "R")
    if len(p.t) == 1:
        m, c = p.t[0]
        r = const(ONE / c, "R")
        for u, e in m:
            r = r * _atom_pow(u, -e)
        return r
    # content normalisation
    c = p.t[0][1]
    g = None
    for m, _ in p.t:
        dm = dict(m)
        g = dm if g is None else {u: min(e, dm[u]) for u, e in g.items() if u in dm and (e > 0) == (dm[u] > 0)}
    g = {u: e for u, e in (g or {}).items() if e > 0}
    q = mkpoly({m: k / c for m, k in p.t}, "R")
    fac = const(ONE / c, "R")
    if g:
        gm = mkpoly({tuple(sorted((u, -e) for u, e in g.items())): ONE}, "R")
        q = q * gm
        fac = fac * gm
        if len(q.t) == 1:
            return fac * inverse(q)
    a = _mk("P", (q,), "R", q.fv, q.lvl)
    return fac * mkpoly({((a.uid, -1),): ONE}, "R")


def _atom_pow(u, e):
    """Poly for atom^e with simplifications that depend on the exponent."""
    a = _atom_list[u]
    if e == 0:
        return const(1, a.sort)
    if a.kind == "A":
        fn = a.args[0]
        if fn == "sqrt" and abs(e) >= 2:
            arg = a.args[1][0]
            q, r = divmod(abs(e), 2)
            base = arg if e > 0 else inverse(arg)
            res = base ** q
            if r:
                res = res * mkpoly({((u, 1 if e > 0 else -1),): ONE}, "R")
            return res
        if fn == "abs" and abs(e) >= 2:
            arg = a.args[1][0]
            q, r = divmod(abs(e), 2)
            base = arg if e > 0 else inverse(arg)
            res = (base * base) ** q
            if r:
                res = res * mkpoly({((u, 1 if e > 0 else -1),): ONE}, a.sort)
            return res
        if fn == "exp" and e != 1:
            return app("exp", (a.args[1][0] * e,), "R")
    if a.kind == "P" and e > 0:
        return a.args[0] ** e
    if a.kind == "I" and e == 2:
        c, x, y = a.args
        return ite(c, x * x, y * y)
    if a.kind == "I" and e > 2:
        c, x, y = a.args
        return ite(c, x ** e, y ** e)
    if a.kind == "I" and e < 0:
        c, x, y = a.args
        return ite(c, inverse(x) ** (-e), inverse(y) ** (-e))
    return mkpoly({((u, e),): ONE}, a.sort)


def _mono_mul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    special = False
    exps = [u for u, e in m1 if _is_exp(u)]
    for u, e in m2:
        n = d.get(u, 0) + e
        if u in d and _needs_pow(u, n):
            special = True
        if n == 0:
            d.pop(u, None)
        else:
            d[u] = n
        if exps and _is_exp(u):
            special = True
    ites = {}
    for u in d:
        a = _atom_list[u]
        if a.kind == "I":
            ites.setdefault(a.args[0], []).append(u)
    dup = [us for us in ites.values() if len(us) > 1]
    if not special and not dup:
        return tuple(sorted(d.items()))
    # merge exps
    r = const(1, "I")
    ex = None
    skip = set()
    for us in dup:
        skip.update(us)
    for u, e in d.items():
        if u in skip:
            continue
        a = _atom_list[u]
        if _is_exp(u):
            arg = a.args[1][0] * e
            ex = arg if ex is None else ex + arg
        elif _needs_pow(u, e):
            r = r * _atom_pow(u, e)
        else:
            r = r * mkpoly({((u, e),): ONE}, a.sort)
    for us in dup:
        c = _atom_list[us[0]].args[0]
        x, y = const(1, "I"), const(1, "I")
        for u in us:
            a = _atom_list[u]
            e = d[u]
            x = x * (a.args[1] ** e)
            y = y * (a.args[2] ** e)
        r = r * ite(c, x, y)
    if ex is not None:
        r = r * exp_(ex)
    return r


def _is_exp(u):
    a = _atom_list[u]
    return a.kind == "A" and a.args[0] == "exp"


def _needs_pow(u, n):
    a = _atom_list[u]
    if n in (0, 1):
        return False
    if a.kind == "A":
        fn = a.args[0]
        if fn in ("sqrt", "abs"):
            return abs(n) >= 2
        if fn == "exp":
            return True
    if a.kind == "P":
        return n > 0
    if a.kind == "I":
        return True
    return False


# ------------------------------------------------------- known functions
def exp_(p):
    p = with_sort(lift(p), "R")
    if p.const_value() == 0:
        return const(1, "R")
    # exp(log(x)*k)
    if len(p.t) == 1:
        m, c = p.t[0]
        if len(m) == 1 and m[0][1] == 1 and c.denominator == 1:
            a = _atom_list[m[0][0]]
            if a.kind == "A" and a.args[0] == "log":
                return a.args[1][0] ** int(c)
    return app("exp", (p,), "R")


def log_(p):
    p = with_sort(lift(p), "R")
    if p.const_value() == 1:
        return const(0, "R")
    a = p.as_atom()
    if a is not None and a.kind == "A" and a.args[0] == "exp":
        return a.args[1][0]
    return app("log", (p,), "R")


def _isqrt_frac(v):
    from math import isqrt

    n, d = isqrt(v.numerator), isqrt(v.denominator)
    if n * n == v.numerator and d * d == v.denominator:
        return Fraction(n, d)
    return None


def sqrt_(p):
    p = with_sort(lift(p), "R")
    v = p.const_value()
    if v is not None and v >= 0:
        r = _isqrt_frac(v)
        if r is not None:
            return const(r, "R")
    if len(p.t) == 1:
        m, c = p.t[0]
        r = _isqrt_frac(c) if c > 0 else None
        if r is not None and c != 1:
            return const(r, "R") * sqrt_(mkpoly({m: ONE}, "R"))
        # sqrt(1/x^k) = 1/sqrt(x^k)
        if c == 1 and m and all(e < 0 for _, e in m):
            return inverse(sqrt_(inverse(p)))
        if c == 1 and len(m) == 1:
            a = _atom_list[m[0][0]]
            if a.kind == "A" and a.args[0] == "exp":
                return exp_(a.args[1][0] / 2)
            if m[0][1] == 2:
                return abs_(atom_poly(a))
    # content pull-out of a positive rational square
    if len(p.t) > 1:
        # scale so that the leading coefficient is 1 when positive
        c = p.t[0][1]
        if c > 0 and c != 1:
            r = _isqrt_frac(c)
            q = mkpoly({m: k / c for m, k in p.t}, "R")
            return sqrt_(const(c, "R")) * sqrt_(q)
    return app("sqrt", (p,), "R")


def abs_(p):
    p = lift(p)
    v = p.const_value()
    if v is not None:
        return const(abs(v), p.sort)
    a = p.as_atom()
    if a is not None and a.kind == "A" and a.args[0] in ("exp", "abs", "sqrt", "hypot"):
        return p
    if p.t and p.t[0][1] < 0:
        p = -p
    if len(p.t) == 1 and p.t[0][1] != 1:
        c = p.t[0][1]
        return const(c, "R" if c.denominator != 1 else p.sort) * abs_(mkpoly({p.t[0][0]: ONE}, p.sort))
    return app("abs", (p,), p.sort)


def pow_(x, p):
    x, p = lift(x), lift(p)
    v = p.const_value()
    if v is not None:
        if v.denominator == 1:
            return with_sort(x, "R") ** int(v) if v < 0 else x ** int(v)
        if v == Fraction(1, 2):
            return sqrt_(x)
        if v == Fraction(-1, 2):
            return inverse(sqrt_(x))
        if v.denominator == 2:
            return sqrt_(x) ** v.numerator
    xv = x.const_value()
    if xv == 1:
        return const(1, "R")
    a = x.as_atom()
    if a is not None and a.kind == "A" and a.args[0] == "exp":
        return exp_(a.args[1][0] * p)
    if a is not None and a.kind == "A" and a.args[0] == "pow":
        return pow_(a.args[1][0], a.args[1][1] * p)
    return app("pow", (with_sort(x, "R"), with_sort(p, "R")), "R")


def _multiple(a, b):
    """a = b * y + rest with y collecting the monomials that contain the (symbolic, non-zero) divisor b"""
    at = b.as_atom()
    if at is None or a.sort != "I" or b.sort != "I":
        return None
    y = {}
    for m, c in a.t:
        d = dict(m)
        if d.get(at.uid, 0) >= 1 and c == int(c):
            d[at.uid] -= 1
            if not d[at.uid]:
                del d[at.uid]
            y[tuple(sorted(d.items()))] = c
    if not y:
        return None
    y = mkpoly(y, "I")
    return y, a - b * y


def floordiv(a, b):
    a, b = lift(a), lift(b)
    r = _multiple(a, b)
    if r is not None:
        return r[0] + floordiv(r[1], b)
    va, vb = a.const_value(), b.const_value()
    if va is not None and vb not in (None, 0):
        return const(int(va // vb), "I")
    if vb == 1 and a.sort == "I":
        return a
    if va == 0 and b.sort == "I":
        return a
    return app("floordiv", (a, b), "I" if a.sort == b.sort == "I" else "R")


def mod(a, b):
    a, b = lift(a), lift(b)
    r = _multiple(a, b)
    if r is not None:
        return mod(r[1], b)
    va, vb = a.const_value(), b.const_value()
    if va is not None and vb not in (None, 0):
        return const(va % vb, _join(a.sort, b.sort))
    if vb == 1 and a.sort == "I":
        return const(0, "I")
    if va == 0 and b.sort == "I":
        return a
    if vb is None and a.sort == "I" and b.sort == "I":
        return a - b * floordiv(a, b)
    return app("mod", (a, b), _join(a.sort, b.sort))


# ------------------------------------------------------------------ sums
_fresh = count()


def fresh_name(base="k"):
    return f"{base}!{next(_fresh)}"


def fresh_var(base="k", sort="I"):
    return var(fresh_name(base), sort)


def vname(p):
    a = p.as_atom()
    assert a is not None and a.kind == "V", p
    return a.args[0]


def Sum(name, n, body):
    """sum over `name` in [0, n) of body"""
    n = lift(n)
    body = lift(body)
    nv = n.as_int()
    if nv is not None and nv <= 0:
        return const(0, body.sort)
    if nv is not None and nv <= 4:
        r = const(0, body.sort)
        for i in range(nv):
            r = r + subst(body, {name: const(i, "I")})
        return r
    out = const(0, body.sort)
    for m, c in body.t:
        out = out + _sum_mono(name, n, m) * const(c, "R" if c.denominator != 1 else "I")
    return out


def _sum_mono(name, n, m):
    dep = [(u, e) for u, e in m if name in _atom_list[u].fv]
    indep = tuple((u, e) for u, e in m if name not in _atom_list[u].fv)
    pre = mkpoly({indep: ONE}, _mono_sort(indep))
    if not dep:
        return pre * n
    # flatten nested sums
    bounds = [(name, n)]
    atoms = []
    again = False
    for u, e in dep:
        a = _atom_list[u]
        if a.kind == "S" and e >= 1 and not any(name in b.fv for b in a.args[0]):
            for _ in range(e):
                bs, mm = open_sum(a)
                bounds.extend(bs)
                atoms.append(mkpoly({mm: ONE}, _mono_sort(mm)))
        else:
            atoms.append(mkpoly({((u, e),): ONE}, a.sort))
    prod = const(1, "I")
    for p in atoms:
        prod = prod * p
    res = const(0, prod.sort)
    for mm, c in prod.t:
        # the product may have simplified: constant factors may have lost dependencies
        res = res + const(c, "R" if c.denominator != 1 else "I") * _close(bounds, mm)
    return pre * res


def _mono_sort(m):
    for u, e in m:
        if _atom_list[u].sort == "R" or e < 0:
            return "R"
    return "I"


def open_sum(a):
    """fresh (name, bound) list and the monomial of a sum atom"""
    bounds, m, base = a.args
    names = [fresh_name("s") for _ in bounds]
    sub = {f"@{base + i}": var(n, "I") for i, n in enumerate(names)}
    p = subst(mkpoly({m: ONE}, _mono_sort(m)), sub)
    assert len(p.t) == 1 and p.t[0][1] == 1, p
    return list(zip(names, bounds)), p.t[0][0]


def _close(bounds, m):
    """Sum over all bounds of monomial m: split in connected components & canonicalise"""
    names = [n for n, _ in bounds]
    bmap = dict(bounds)
    comp = {n: n for n in names}

    def find(x):
        while comp[x] != x:
            x = comp[x]
        return x

    deps = []
    for u, e in m:
        ds = [n for n in names if n in _atom_list[u].fv]
        deps.append(ds)
        for d in ds[1:]:
            comp[find(d)] = find(ds[0])
    for n in names:
        for o in names:
            if o in bmap[n].fv and o != n:
                comp[find(o)] = find(n)
    res = const(1, "I")
    pre = tuple(ue for ue, ds in zip(m, deps) if not ds)
    res = res * mkpoly({pre: ONE}, _mono_sort(pre))
    groups = {}
    for n in names:
        groups.setdefault(find(n), []).append(n)
    for root, ns in groups.items():
        mm = tuple(ue for ue, ds in zip(m, deps) if ds and find(ds[0]) == root)
        if not mm:
            for n in ns:
                res = res * bmap[n]
            continue
        res = res * atom_poly(_canon_sum([(n, bmap[n]) for n in ns], mm))
    return res


def _canon_sum(bounds, m):
    k = len(bounds)
    lvl = 0
    fv = frozenset()
    for u, _ in m:
        lvl = max(lvl, _atom_list[u].lvl)
        fv = fv | _atom_list[u].fv
    for _, b in bounds:
        lvl = max(lvl, b.lvl)
    bn = frozenset(n for n, _ in bounds)
    fvb = frozenset().union(*[b.fv for _, b in bounds])
    fv = (fv - bn) | (fvb - bn)
    p = mkpoly({m: ONE}, _mono_sort(m))
    best = None
    # order groups by bound uid first to prune permutations
    order = sorted(range(k), key=lambda i: bounds[i][1].uid)
    bs = [bounds[i] for i in order]
    for perm in _perms([b.uid for _, b in bs]):
        sub = {bs[i][0]: var(f"@{lvl + perm[i]}", "I") for i in range(k)}
        q = subst(p, sub)
        assert len(q.t) == 1, q
        nb = [None] * k
        for i in range(k):
            nb[perm[i]] = subst(bs[i][1], sub)
        key = (tuple(b.uid for b in nb), q.t[0][0])
        if best is None or key < best[0]:
            best = (key, tuple(nb), q.t[0][0])
    sort = _mono_sort(best[2])
    return _mk("S", (best[1], best[2], lvl), sort, fv, lvl + k)


def _perms(groups):
    """permutations of positions that only permute within equal group keys"""
    k = len(groups)
    segs = []
    i = 0
    while i < k:
        j = i
        while j < k and groups[j] == groups[i]:
            j += 1
        segs.append(list(range(i, j)))
        i = j
    tot = 1
    for s in segs:
        for x in range(2, len(s) + 1):
            tot *= x
    if tot > 5040:
        raise Unsupported("too many summation indices for canonicalisation")

    def rec(si):
        if si == len(segs):
            yield []
            return
        for p in permutations(segs[si]):
            for rest in rec(si + 1):
                yield list(p) + rest

    return rec(0)


# ------------------------------------------------------------------ substitution
def subst(p, sub):
    """Poly/Form with variables (by name) replaced by Polys"""
    if not sub:
        return p
    if isinstance(p, Form):
        return subst_form(p, sub)
    sub = {k: v for k, v in sub.items() if k in p.fv}
    if not sub:
        return p
    return _subst(p, sub, {})


def _subst(p, sub, memo):
    if not (p.fv & sub.keys()):
        return p
    r = memo.get(p)
    if r is not None:
        return r
    r = const(0, p.sort)
    for m, c in p.t:
        t = const(c, "R" if c.denominator != 1 else "I")
        keep = []
        for u, e in m:
            a = _atom_list[u]
            if not (a.fv & sub.keys()):
                keep.append((u, e))
            else:
                q = _subst_atom(a, sub, memo)
                t = t * (q ** e if e > 0 else inverse(q) ** (-e))
        if keep:
            km = tuple(keep)
            t = t * mkpoly({km: ONE}, _mono_sort(km))
        r = r + t
    r = with_sort(r, _join(r.sort, p.sort)) if p.sort == "R" else r
    memo[p] = r
    return r


def _subst_atom(a, sub, memo):
    k = a.kind
    if k == "V":
        return sub[a.args[0]]
    if k == "A":
        fn, args = a.args
        nargs = tuple(
            _subst(x, sub, memo) if isinstance(x, Poly) else subst_form(x, sub) for x in args
        )
        return reapp(fn, nargs, a.sort)
    if k == "I":
        c, x, y = a.args
        return ite(subst_form(c, sub), _subst(x, sub, memo), _subst(y, sub, memo))
    if k == "P":
        return _subst(a.args[0], sub, memo)
    if k == "S":
        bs, m = open_sum(a)
        q = _subst(mkpoly({m: ONE}, _mono_sort(m)), sub, {})
        for n, b in reversed(bs):
            q = Sum(n, _subst(b, sub, {}), q)
        return q
    raise AssertionError(k)


_REAPP = {}


def reapp(fn, args, sort):
    f = _REAPP.get(fn)
    if f is not None:
        return f(*args)
    return app(fn, args, sort)


_REAPP.update(
    exp=exp_, log=log_, sqrt=sqrt_, abs=abs_, pow=pow_, floordiv=floordiv, mod=mod
)


def map_atoms(p, f):
    """rebuild p replacing each top-level atom a by f(a) (Poly or None to keep)"""
    r = const(0, p.sort)
    changed = False
    for m, c in p.t:
        t = const(c, "R" if c.denominator != 1 else "I")
        for u, e in m:
            a = _atom_list[u]
            q = f(a)
            if q is None:
                t = t * mkpoly({((u, e),): ONE}, a.sort)
            else:
                changed = True
                t = t * (q ** e if e > 0 else inverse(q) ** (-e))
        r = r + t
    return r if changed else p


# ------------------------------------------------------------------ formulas
_forms = {}


class Form:
    __slots__ = ("k", "a", "b", "uid", "fv", "lvl")

    def __repr__(self):
        if self.k == "T":
            return "true"
        if self.k == "F":
            return "false"
        if self.k in ("<=", "<", "=="):
            return f"({self.a!r} {self.k} 0)"
        if self.k == "~":
            return f"!{self.a!r}"
        if self.k == "&":
            return "(" + " & ".join(map(repr, self.a)) + ")"
        if self.k == "|":
            return "(" + " | ".join(map(repr, self.a)) + ")"
        if self.k == "p":
            return f"{self.a}({', '.join(map(repr, self.b))})"
        if self.k == "all":
            return f"(forall {self.b[0]}<{self.b[1]!r}: {self.a!r})"
        return "?"

    def __hash__(self):
        return self.uid

    def __eq__(self, o):
        return self is o


def _mkf(k, a=None, b=None):
    key = (k, a, b)
    f = _forms.get(key)
    if f is None:
        f = Form()
        f.k, f.a, f.b = k, a, b
        f.uid = len(_forms)
        fv = frozenset()
        lvl = 0
        if k in ("<=", "<", "=="):
            fv, lvl = a.fv, a.lvl
        elif k == "~":
            fv, lvl = a.fv, a.lvl
        elif k in ("&", "|"):
            for x in a:
                fv |= x.fv
                lvl = max(lvl, x.lvl)
        elif k == "p":
            for x in b:
                fv |= x.fv
                lvl = max(lvl, x.lvl)
        elif k == "all":
            fv = (a.fv - {b[0]}) | b[1].fv
            lvl = max(a.lvl, b[1].lvl) + 1
        f.fv, f.lvl = fv, lvl
        _forms[key] = f
    return f


TRUE = _mkf("T")
FALSE = _mkf("F")


def fbool(b):
    return TRUE if b else FALSE


def cmp0(op, p):
    """p op 0 with op in <=,<,=="""
    v = p.const_value()
    if v is not None:
        return fbool({"<=": v <= 0, "<": v < 0, "==": v == 0}[op])
    if p.sort == "I" and op == "<":
        return cmp0("<=", p + 1)
    # scale
    if p.sort == "I":
        from math import gcd

        g = 0
        for m, c in p.t:
            if m or op == "==":
                if c.denominator != 1:
                    g = 0
                    break
                g = gcd(g, int(c.numerator))
        if g > 1 and op == "==":
            p = mkpoly({m: c / g for m, c in p.t}, "I")
        elif g > 1 and op == "<=":
            d = {}
            for m, c in p.t:
                if m:
                    d[m] = c / g
                else:
                    # sum + c <= 0 -> sum/g <= floor(-c/g)
                    k = -((-c) // g)
                    if k:
                        d[m] = Fraction(k)
            p = mkpoly(d, "I")
    else:
        c = abs(p.t[0][1])
        if c != 1:
            p = mkpoly({m: k / c for m, k in p.t}, p.sort)
    if op == "==" and p.t[0][1] < 0:
        p = -p
    return _mkf(op, p)


def eq(a, b):
    return cmp0("==", lift(a) - lift(b))


def ne(a, b):
    return fnot(eq(a, b))


def le(a, b):
    return cmp0("<=", lift(a) - lift(b))


def lt(a, b):
    return cmp0("<", lift(a) - lift(b))


def ge(a, b):
    return le(b, a)


def gt(a, b):
    return lt(b, a)


def fnot(f):
    if f is TRUE:
        return FALSE
    if f is FALSE:
        return TRUE
    if f.k == "~":
        return f.a
    if f.k == "<=":
        return cmp0("<", -f.a)
    if f.k == "<":
        return cmp0("<=", -f.a)
    return _mkf("~", f)


def fand(*fs):
    out = []
    for f in fs:
        if f is FALSE:
            return FALSE
        if f is TRUE:
            continue
        if f.k == "&":
            out.extend(f.a)
        else:
            out.append(f)
    seen = {}
    for f in out:
        seen[f.uid] = f
    out = [seen[k] for k in sorted(seen)]
    for f in out:
        if fnot(f).uid in seen:
            return FALSE
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return _mkf("&", tuple(out))


def for_(*fs):
    return fnot(fand(*[fnot(f) for f in fs])) if False else _or(fs)


def _or(fs):
    out = []
    for f in fs:
        if f is TRUE:
            return TRUE
        if f is FALSE:
            continue
        if f.k == "|":
            out.extend(f.a)
        else:
            out.append(f)
    seen = {}
    for f in out:
        seen[f.uid] = f
    out = [seen[k] for k in sorted(seen)]
    for f in out:
        if fnot(f).uid in seen:
            return TRUE
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return _mkf("|", tuple(out))


def implies(a, b):
    return _or([fnot(a), b])


def pred(name, args):
    return _mkf("p", name, tuple(lift(a) for a in args))


def forall(name, n, body):
    """forall name in [0,n): body   (canonical bound name)"""
    if body in (TRUE, FALSE):
        return body if body is TRUE else cmp0("<=", lift(n))
    if name not in body.fv:
        return _or([body, cmp0("<=", lift(n))])
    lvl = max(body.lvl, lift(n).lvl)
    nm = f"@{lvl}"
    return _mkf("all", subst_form(body, {name: var(nm, "I")}), (nm, lift(n)))


def open_forall(f):
    nm = fresh_name("q")
    return nm, f.b[1], subst_form(f.a, {f.b[0]: var(nm, "I")})


def subst_form(f, sub):
    sub = {k: v for k, v in sub.items() if k in f.fv}
    if not sub:
        return f
    k = f.k
    if k in ("<=", "<", "=="):
        return cmp0(k, subst(f.a, sub))
    if k == "~":
        return fnot(subst_form(f.a, sub))
    if k == "&":
        return fand(*[subst_form(x, sub) for x in f.a])
    if k == "|":
        return _or([subst_form(x, sub) for x in f.a])
    if k == "p":
        return pred(f.a, [subst(x, sub) for x in f.b])
    if k == "all":
        nm, n, body = open_forall(f)
        return forall(nm, subst(n, sub), subst_form(body, sub))
    return f


def form_polys(f):
    k = f.k
    if k in ("<=", "<", "=="):
        yield f.a
    elif k == "~":
        yield from form_polys(f.a)
    elif k in ("&", "|"):
        for x in f.a:
            yield from form_polys(x)
    elif k == "p":
        yield from f.b
    elif k == "all":
        yield from form_polys(f.a)
        yield f.b[1]


def ite_form(c, a, b):
    """boolean conditional"""
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    return _or([fand(c, a), fand(fnot(c), b)])


def b2i(f):
    """boolean formula as 0/1 integer"""
    return ite(f, const(1, "I"), const(0, "I"))

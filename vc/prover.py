"""Discharging of proof obligations: normal forms, rewriting, case splits and z3."""
import os
import sys
import time

_Z3DIR = os.environ.get("VC_Z3DIR", "/opt/veriftools/pyvenv/lib/python3.12/site-packages")


def _load_z3():
    try:
        import z3  # noqa

        return z3
    except ImportError:
        pass
    import importlib.util

    spec = importlib.util.spec_from_file_location(
        "z3", _Z3DIR + "/z3/__init__.py", submodule_search_locations=[_Z3DIR + "/z3"]
    )
    mod = importlib.util.module_from_spec(spec)
    sys.modules["z3"] = mod
    spec.loader.exec_module(mod)
    return mod


z3 = _load_z3()

from .terms import *  # noqa
from . import terms as T
from .terms import _atom_list, _mk, _mono_sort, _or, _canon_sum

_zmemo = {}
STATS = {"z3_calls": 0, "z3_time": 0.0, "norm": 0, "z3_proved": 0}


def _zsort(s):
    return z3.IntSort() if s == "I" else z3.RealSort()


def _zuf(name, arg_sorts, ret):
    return z3.Function(name, *[_zsort(s) for s in arg_sorts], _zsort(ret))


def zpoly(p):
    r = _zmemo.get(p)
    if r is not None:
        return r
    tot = None
    for m, c in p.t:
        if p.sort == "I" and c.denominator == 1:
            t = z3.IntVal(int(c)) if not m else None
            for u, e in m:
                a = zatom(_atom_list[u])
                for _ in range(e):
                    t = a if t is None else t * a
            if m and c != 1:
                t = z3.IntVal(int(c)) * t
        else:
            t = z3.RealVal(str(c)) if (c != 1 or not m) else None
            for u, e in m:
                a = _toreal(zatom(_atom_list[u]))
                for _ in range(abs(e)):
                    if e > 0:
                        t = a if t is None else t * a
                    else:
                        t = (z3.RealVal(1) if t is None else t) / a
        tot = t if tot is None else tot + t
    if tot is None:
        tot = z3.IntVal(0) if p.sort == "I" else z3.RealVal(0)
    if p.sort == "R":
        tot = _toreal(tot)
    _zmemo[p] = tot
    return tot


def _toreal(x):
    return z3.ToReal(x) if x.sort() == z3.IntSort() else x


def zatom(a):
    r = _zmemo.get(a)
    if r is not None:
        return r
    k = a.kind
    if k == "V":
        r = z3.Const(a.args[0], _zsort(a.sort))
    elif k == "A":
        fn, args = a.args
        zs = [zpoly(x) if isinstance(x, Poly) else z3.If(zform(x), z3.IntVal(1), z3.IntVal(0)) for x in args]
        if fn == "abs":
            r = z3.If(zs[0] >= 0, zs[0], -zs[0])
        elif fn in ("floordiv", "mod") and a.sort == "I" and args[1].const_value() and args[1].const_value() > 0:
            r = zs[0] / zs[1] if fn == "floordiv" else zs[0] % zs[1]
        elif fn == "trunc" and a.sort == "I":
            r = z3.If(zs[0] >= 0, z3.ToInt(zs[0]), -z3.ToInt(-zs[0]))
        else:
            sorts = [x.sort if isinstance(x, Poly) else "I" for x in args]
            r = _zuf(fn + "".join(sorts), sorts, a.sort)(*zs) if args else z3.Const(fn, _zsort(a.sort))
    elif k == "I":
        c, x, y = a.args
        r = z3.If(zform(c), zpoly(x), zpoly(y))
    elif k == "P":
        r = zpoly(a.args[0])
    elif k == "S":
        fv = sorted(a.fv)
        sub = {n: var(f"%s{i}", _varsort(n)) for i, n in enumerate(fv)}
        ab = subst(atom_poly(a), sub)
        args = [z3.Const(n, _zsort(_varsort(n))) for n in fv]
        r = (
            _zuf(f"SUM#{ab.uid}", [_varsort(n) for n in fv], a.sort)(*args)
            if fv
            else z3.Const(f"SUM#{ab.uid}", _zsort(a.sort))
        )
    else:
        raise AssertionError(k)
    _zmemo[a] = r
    return r


def _varsort(n):
    for s in ("I", "R"):
        if ("V", (n,), s) in T._atoms:
            return s
    return "I"


def zform(f):
    r = _zmemo.get(f)
    if r is not None:
        return r
    k = f.k
    if k == "T":
        r = z3.BoolVal(True)
    elif k == "F":
        r = z3.BoolVal(False)
    elif k in ("<=", "<", "=="):
        p = zpoly(f.a)
        r = {"<=": lambda: p <= 0, "<": lambda: p < 0, "==": lambda: p == 0}[k]()
    elif k == "~":
        r = z3.Not(zform(f.a))
    elif k == "&":
        r = z3.And(*[zform(x) for x in f.a])
    elif k == "|":
        r = z3.Or(*[zform(x) for x in f.a])
    elif k == "p":
        zs = [zpoly(x) for x in f.b]
        sorts = [_zsort(x.sort) for x in f.b]
        r = z3.Function(f.a, *sorts, z3.BoolSort())(*zs) if zs else z3.Bool(f.a)
    elif k == "all":
        x = z3.Int(f.b[0])
        r = z3.ForAll([x], z3.Implies(z3.And(x >= 0, x < zpoly(f.b[1])), zform(f.a)))
    else:
        raise AssertionError(k)
    _zmemo[f] = r
    return r


# --------------------------------------------------- auxiliary facts on special functions
def _collect(x, seen_atoms):
    """all ground atoms (not under binders) in Poly/Form"""
    if isinstance(x, Form):
        if x.k == "all":
            return
        for p in form_polys(x) if x.k in ("<=", "<", "==", "p") else ():
            _collect(p, seen_atoms)
        if x.k == "~":
            _collect(x.a, seen_atoms)
        if x.k in ("&", "|"):
            for y in x.a:
                _collect(y, seen_atoms)
        return
    for a in x.atoms():
        if a in seen_atoms:
            continue
        seen_atoms[a] = True
        if a.kind == "A":
            for y in a.args[1]:
                _collect(y, seen_atoms)
        elif a.kind == "I":
            _collect(a.args[0], seen_atoms)
            _collect(a.args[1], seen_atoms)
            _collect(a.args[2], seen_atoms)
        elif a.kind == "P":
            _collect(a.args[0], seen_atoms)


NONNEG_FNS = set()  # names of array functions known to be >= 0 (contract assumptions)
POS_FNS = set()


_NONEMPTY = []  # oracle of the current context: is the summation range non-empty


def sign(p):
    """'+' (>0), '0+' (>=0), '-' , '0-' or None; syntactic"""
    v = p.const_value()
    if v is not None:
        return "+" if v > 0 else ("-" if v < 0 else "0+")
    best = None
    for m, c in p.t:
        s = mono_sign(m)
        if s is None:
            return None
        if c < 0:
            s = {"+": "-", "0+": "0-", "-": "+", "0-": "0+"}[s]
        if best is None:
            best = s
        elif best[-1] != s[-1]:
            return None
        else:
            best = best if len(best) < len(s) else s
    return best


def mono_sign(m):
    s = "+"
    for u, e in m:
        a = _atom_list[u]
        t = None
        if e % 2 == 0:
            t = "0+" if e > 0 else "+"
            if a.kind == "A" and (a.args[0] in ("exp",) or a.args[0] in POS_FNS):
                t = "+"
        elif a.kind == "A":
            fn = a.args[0]
            if fn == "exp" or fn in POS_FNS:
                t = "+"
            elif fn in ("abs", "sqrt", "hypot") or fn in NONNEG_FNS:
                t = "0+" if e > 0 else "+"
                if fn == "sqrt" and _NONEMPTY and sign(a.args[1][0]) == "+":
                    t = "+"
            elif fn == "pow" and sign(a.args[1][0]) in ("+", "0+"):
                t = "+" if sign(a.args[1][0]) == "+" else "0+"
        elif a.kind == "S":
            t = mono_sign(a.args[1])
            if t in ("+", "-") and not (_NONEMPTY and _NONEMPTY[-1](a.args[0])):
                t = "0" + t  # the range may be empty
        elif a.kind == "P":
            t = sign(a.args[0])
        elif a.kind == "I":
            x, y = sign(a.args[1]), sign(a.args[2])
            if x and y and x[-1] == y[-1]:
                t = x if len(x) > len(y) else y
        if t is None:
            return None
        flip = {"+": {"+": "+", "0+": "0+", "-": "-", "0-": "0-"},
                "0+": {"+": "0+", "0+": "0+", "-": "0-", "0-": "0-"},
                "-": {"+": "-", "0+": "0-", "-": "+", "0-": "0+"},
                "0-": {"+": "0-", "0+": "0-", "-": "0+", "0-": "0+"}}
        s = flip[s][t]
    return s


_SQ = {}


def square_sum(p):
    """p is a sum over squares (in expanded form), hence >= 0"""
    r = _SQ.get(p.uid)
    if r is None:
        try:
            r = _square_sum(p)
        except Exception:
            r = False
        _SQ[p.uid] = r
    return r


def _square_sum(p):
    if sign(p) in ("+", "0+"):
        return True
    groups, rest = {}, const(0, "R")
    for m, c in p.t:
        ss = [(u, e) for u, e in m if _atom_list[u].kind == "S"]
        term = const(c, "R")
        if len(ss) == 1 and ss[0][1] == 1:
            a = _atom_list[ss[0][0]]
            if len(a.args[0]) == 1:
                b = a.args[0][0]
                body = T.subst(T.mkpoly({a.args[1]: 1}, "R"), {f"@{a.args[2]}": var("$sq", "I")})
                pre = T.mkpoly({tuple(x for x in m if x != ss[0]): 1}, "R")
                groups[b.uid] = groups.get(b.uid, const(0, "R")) + term * pre * body
                continue
        rest = rest + term * T.mkpoly({m: 1}, "R")
    if rest.t and not is_square(rest) and sign(rest) not in ("+", "0+"):
        return False
    return all(is_square(g) or sign(g) in ("+", "0+") for g in groups.values())


def is_square(p):
    """p == c*L*L for a polynomial L with rational coefficients and a rational c > 0"""
    from math import isqrt

    lead = next((c for m, c in p.t if all(e % 2 == 0 for _, e in m)), None)
    if lead is None or lead <= 0:
        return False
    if lead != 1:
        p = p * const(1 / lead, "R")

    roots = []
    for m, c in p.t:
        if c > 0 and all(e % 2 == 0 for _, e in m):
            n, d = isqrt(c.numerator), isqrt(c.denominator)
            if n * n == c.numerator and d * d == c.denominator:
                roots.append(T.mkpoly({tuple((u, e // 2) for u, e in m): type(c)(n, d)}, "R"))
    if not roots or len(roots) > 6:
        return False
    import itertools

    for sg in itertools.product((1, -1), repeat=len(roots) - 1):
        L = roots[0]
        for s_, r in zip(sg, roots[1:]):
            L = L + r * const(s_, "R")
        if L * L is p or not (L * L - p).t:
            return True
    return False


def aux_facts(xs):
    seen = {}
    for x in xs:
        _collect(x, seen)
    out = []
    for a in seen:
        if a.kind == "A":
            fn = a.args[0]
            if fn == "exp":
                z = zatom(a)
                arg = a.args[1][0]
                out.append(z > 0)
                out.append(z3.Implies(zpoly(arg) <= 0, z <= 1))
                out.append(z3.Implies(zpoly(arg) < 0, z < 1))
                out.append(z3.Implies(zpoly(arg) > 0, z > 1))
                s = sign(arg)
                if s in ("-", "0-"):
                    out.append(z <= 1)
            elif fn == "sqrt":
                z = zatom(a)
                x = zpoly(a.args[1][0])
                out.append(z >= 0)
                out.append(z3.Implies(x > 0, z > 0))
                out.append(z3.Implies(x == 0, z == 0))
                out.append(z3.Implies(x >= 1, z >= 1))
                out.append(z3.Implies(x >= 0, z * z == x))
                if square_sum(a.args[1][0]):
                    out.append(x >= 0)
            elif fn in POS_FNS:
                out.append(zatom(a) > 0)
            elif fn in NONNEG_FNS:
                out.append(zatom(a) >= 0)
            elif fn == "pow":
                s = sign(a.args[1][0])
                if s == "+":
                    out.append(zatom(a) > 0)
        elif a.kind == "S":
            s = sign(atom_poly(a))
            if s in ("+", "0+"):
                out.append(zatom(a) >= 0)
    return out


def block_facts(xs):
    """division by a symbolic positive divisor n: n (x div n) <= x < n (x div n) + n, monotonicity of n * k
    for the multiples that occur (linear consequences of nonlinear facts)"""
    seen = {}
    for x in xs:
        _collect(x, seen)
    divs = [a for a in seen if a.kind == "A" and a.args[0] in ("floordiv", "mod") and a.sort == "I" and a.args[1][1].const_value() is None]
    if not divs:
        return []
    out = []
    mult = {}
    for a in divs:
        x, n = a.args[1]
        d = T.floordiv(x, n)
        ad = d.as_atom()
        if ad is None:
            continue
        zx, zn, zd = zpoly(x), zpoly(n), zatom(ad)
        out.append(z3.Implies(zn > 0, z3.And(zn * zd <= zx, zx < zn * zd + zn)))
        mult.setdefault(n, {})[d] = True
    polys = []
    for x in xs:
        if isinstance(x, Form):
            polys.extend(_all_polys(x))
    for a in seen:
        if a.kind == "A":
            polys.extend(y for y in a.args[1] if isinstance(y, Poly))
    for n, ks in mult.items():
        na = n.as_atom()
        if na is None:
            continue
        for p in polys:
            if p.sort == "I":
                y = T._multiple(p, n)
                if y is not None:
                    y = y[0]
                    ks[y if y.t and y.t[0][1] > 0 else y * const(-1, "I")] = True
        zn = zatom(na)
        zk = [zpoly(k) for k in list(ks)[:9]] + [z3.IntVal(0)]
        for i, p in enumerate(zk):
            for j, q in enumerate(zk):
                if i != j:
                    out.append(z3.Implies(z3.And(zn > 0, p < q), zn * p + zn <= zn * q))
                if i < j:
                    out.append(z3.Implies(p == q, zn * p == zn * q))
    return out


def _all_polys(f):
    if f.k in ("<=", "<", "==", "p"):
        return list(form_polys(f))
    if f.k == "~":
        return _all_polys(f.a)
    if f.k in ("&", "|"):
        return [p for x in f.a for p in _all_polys(x)]
    return []


def has_quant(f):
    k = f.k
    if k == "all":
        return True
    if k in ("&", "|"):
        return any(has_quant(x) for x in f.a)
    if k in ("!", "~"):
        return has_quant(f.a)
    return False


# ------------------------------------------------------------------ contexts
def _limit(s, ms):
    """deterministic resource limit (about `ms` milliseconds on an idle machine) instead of wall time"""
    s.set("rlimit", int(ms) * 2500)
    s.set("timeout", int(ms) * 4)


class Ctx:
    """hypotheses + rewrite rules; entailment oracle"""

    def __init__(self, hyps=(), rules=(), zfacts=(), timeout=3000, parent=None):
        self.hyps = list(hyps)
        self.rules = list(rules)
        self.zfacts = list(zfacts)
        self.timeout = timeout
        self._ent = {}
        self._solver = None
        self._light = None
        self.parent = parent

    def child(self, *extra):
        c = Ctx(self.hyps + [e for e in extra if e is not TRUE], self.rules, self.zfacts, self.timeout, self)
        return c

    def solver(self):
        if self._solver is None:
            s = z3.Solver()
            _limit(s, self.timeout)
            s.set("random_seed", 7)
            for h in self.hyps:
                s.add(zform(h))
            for f in aux_facts(self.hyps):
                s.add(f)
            for f in self.zfacts:
                s.add(f)
            self._solver = s
        return self._solver

    def check(self, *forms, timeout=None):
        """satisfiability of hyps & forms"""
        s = self.solver()
        s.push()
        if timeout:
            _limit(s, timeout)
        t0 = time.time()
        for f in forms:
            s.add(zform(f))
        for z in aux_facts(forms):
            s.add(z)
        for z in block_facts(self.hyps + list(forms)):
            s.add(z)
        r = s.check()
        STATS["z3_calls"] += 1
        STATS["z3_time"] += time.time() - t0
        m = s.model() if r == z3.sat else None
        s.pop()
        if timeout:
            _limit(s, self.timeout)
        return r, m

    def light(self):
        """context without the quantified hypotheses (None if there are none)"""
        if self._light is None:
            qf = [h for h in self.hyps if not has_quant(h)]
            self._light = False if len(qf) == len(self.hyps) else Ctx(qf, self.rules, self.zfacts, self.timeout)
        return self._light or None

    def ground_unsat(self, *forms, ms=300):
        """quantifiers replaced by skolem constants and by finitely many instances (sound for unsat)"""
        fs = list(self.hyps) + list(forms)
        fs = [_skolem(f) for f in fs]
        terms = {}
        for f in fs:
            _index_terms(f, terms)
        for _ in range(2):
            out = []
            for f in fs:
                out.append(_instances(f, list(terms)))
            n0 = len(terms)
            for f in out:
                _index_terms(f, terms)
            if len(terms) == n0 or len(terms) > 14:
                break
        s = z3.Solver()
        _limit(s, min(self.timeout, ms))
        s.set("random_seed", 7)
        for f in out:
            s.add(zform(f))
        for z in aux_facts(out) + block_facts(out):
            s.add(z)
        for z in self.zfacts:
            s.add(z)
        t0 = time.time()
        r = s.check()
        STATS["z3_calls"] += 1
        STATS["z3_time"] += time.time() - t0
        return r == z3.unsat

    def consistent(self):
        lt_ = self.light()
        if lt_ is not None:
            if not lt_.consistent():
                return False
            r, _ = self.check(timeout=min(self.timeout, 300))
            return r == z3.sat or (r == z3.unknown and not self.ground_unsat())
        r, _ = self.check()
        return r != z3.unsat

    def entails(self, f):
        if f is TRUE:
            return True
        if f is FALSE:
            return not self.consistent()
        r = self._ent.get(f)
        if r is None:
            if any(h is f for h in self.hyps):
                r = True
            else:
                lt_ = self.light()
                if lt_ is not None and lt_.entails(f):
                    r = True
                else:
                    res, _ = self.check(fnot(f), timeout=None if lt_ is None else min(self.timeout, 300))
                    r = res == z3.unsat or (res == z3.unknown and lt_ is not None and self.ground_unsat(fnot(f)))
            self._ent[f] = r
        return r


_SKOLEM = {}


def _skolem(f):
    """existential quantifiers (negated universals) at the top become skolem constants"""
    if f.k == "~" and f.a.k == "all":
        r = _SKOLEM.get(f)
        if r is None:
            nm, n, body = open_forall(f.a)
            v = var(nm, "I")
            r = _skolem(fand(ge(v, 0), lt(v, n), fnot(body)))
            _SKOLEM[f] = r
        return r
    if f.k == "&":
        return fand(*[_skolem(x) for x in f.a])
    if f.k == "|":
        return T._or([_skolem(x) for x in f.a])
    return f


def _index_terms(f, out):
    seen = {}
    _collect(f, seen)
    for a in seen:
        if a.kind == "A":
            for x in a.args[1]:
                if isinstance(x, Poly) and x.sort == "I" and x.const_value() is None:
                    out[x] = True
        elif a.kind == "V" and a.sort == "I" and ("!" in a.args[0]):
            out[atom_poly(a)] = True


def _instances(f, terms):
    if f.k == "all":
        nm, n, body = open_forall(f)
        r = []
        for t in terms[:14] + [const(0, "I")]:
            b = subst_form(body, {nm: t})
            r.append(T._or([lt(t, 0), ge(t, n), _instances(b, terms) if has_quant(b) else b]))
        return fand(*r)
    if f.k == "&":
        return fand(*[_instances(x, terms) for x in f.a])
    if f.k == "|":
        return T._or([_instances(x, terms) for x in f.a])
    if f.k == "~" and f.a.k == "all":
        return TRUE
    return f


# ------------------------------------------------------------------ simplification
REC = {}  # recursively defined specification functions: name -> (base, step)


class Simp:
    def __init__(self, ctx):
        self.ctx = ctx
        self.memo = {}
        self.splits = []  # undecided conditions worth a case split

    def poly(self, p):
        r = self.memo.get(p)
        if r is None:
            if p.is_const():
                r = p
            else:
                r = map_atoms(p, self.atom)
                if r is not p:
                    r = self.poly(r)
            self.memo[p] = r
        return r

    def nonempty(self, bounds):
        keep = _NONEMPTY[:]
        del _NONEMPTY[:]
        try:
            return all(sign(n) == "+" or self.ctx.entails(ge(n, 1)) for n in bounds)
        finally:
            _NONEMPTY[:] = keep

    def form(self, f):
        k = f.k
        if k in ("<=", "<", "=="):
            g = cmp0(k, self.poly(f.a))
            if g.k in ("<=", "<", "=="):
                _NONEMPTY.append(self.nonempty)
                try:
                    s = sign(g.a)
                finally:
                    _NONEMPTY.pop()
                if s == "+" or (s == "-" and g.k == "=="):
                    return FALSE
                if (s == "-" and g.k != "==") or (s == "0-" and g.k == "<="):
                    return TRUE
                if s == "0+" and g.k == "<":
                    return FALSE
            if g.k in ("<=", "<", "==") and g.a.sort == "I" and not _has_big(g.a):
                if self.ctx.entails(g):
                    return TRUE
                if self.ctx.entails(fnot(g)):
                    return FALSE
            return g
        if k == "~":
            return fnot(self.form(f.a))
        if k == "&":
            return fand(*[self.form(x) for x in f.a])
        if k == "|":
            return _or([self.form(x) for x in f.a])
        if k == "p":
            g = T.pred(f.a, [self.poly(x) for x in f.b])
            if any(h is g for h in self.ctx.hyps):
                return TRUE
            ng = fnot(g)
            if any(h is ng for h in self.ctx.hyps):
                return FALSE
            return g
        if k == "all":
            nm, n, body = open_forall(f)
            n = self.poly(n)
            v = var(nm, "I")
            sub = Simp(self.ctx.child(ge(v, 0), lt(v, n)))
            return forall(nm, n, sub.form(body))
        return f

    def euclid(self, fn, lin, n):
        """floordiv/mod of q*n + r with 0 <= r < n entailed"""
        from .arrays import div_exact

        lead = max(n.t, key=lambda mc: sum(e for _, e in mc[0]))
        lead = T.mkpoly({lead[0]: lead[1]}, "I")
        q = {}
        for m, c in lin.t:
            x = div_exact(T.mkpoly({m: c}, "I"), lead)
            if x is not None:
                for mm, cc in x.t:
                    q[mm] = q.get(mm, 0) + cc
        Q = T.mkpoly(q, "I")
        R = lin - Q * n
        if R.const_value() == 0:
            if self.ctx.entails(T.ne(n, 0)):
                return Q if fn == "floordiv" else R
            return None
        if self.ctx.entails(fand(ge(R, const(0, "I")), lt(R, n))):
            return Q if fn == "floordiv" else R
        return None

    def atom(self, a):
        k = a.kind
        if k == "V":
            return None
        if k == "A":
            fn, args = a.args
            nargs = tuple(self.poly(x) if isinstance(x, Poly) else self.form(x) for x in args)
            rec = REC.get(fn)
            if rec is not None:
                s0 = nargs[0]
                if s0.as_int() == 0 or (not s0.is_const() and self.ctx.entails(T.eq(s0, 0))):
                    return self.poly(rec[0](*nargs[1:]))
                c = dict(s0.t).get((), 0)
                if c >= 1 and self.ctx.entails(ge(s0, const(1, "I"))):
                    return self.poly(rec[1](s0 - const(1, "I"), *nargs[1:]))
            if fn in ("floordiv", "mod") and a.sort == "I" and isinstance(nargs[0], Poly):
                r = self.euclid(fn, *nargs)
                if r is not None:
                    return self.poly(r)
            if nargs == args:
                return None
            return T.reapp(fn, nargs, a.sort)
        if k == "I":
            c, x, y = a.args
            c2 = self.form(c)
            if c2 is TRUE:
                return self.poly(x)
            if c2 is FALSE:
                return self.poly(y)
            if self.ctx.entails(c2):
                return self.poly(x)
            if self.ctx.entails(fnot(c2)):
                return self.poly(y)
            # equal in the c-branch by substitution?
            x2, y2 = self.poly(x), self.poly(y)
            if c2.k == "==":
                s = solve_eq(c2)
                if s is not None and x2 is not y2:
                    if subst(x2, s) is subst(y2, s):
                        return y2
            r = ite(c2, x2, y2)
            if r.as_atom() is a:
                self.splits.append(c2)
                return None
            return r
        if k == "P":
            q = self.poly(a.args[0])
            return None if q is a.args[0] else q
        if k == "S":
            return self.sum(a)
        return None

    def sum(self, a):
        bs, m = open_sum(a)
        ctx = self.ctx.child(*[f for n, b in bs for f in (ge(var(n, "I"), 0), lt(var(n, "I"), b))])
        # contraction rules
        for rule in self.ctx.rules:
            for n, b in bs:
                dep = [(_atom_list[u], e) for u, e in m if n in _atom_list[u].fv]
                if any(n in b2.fv for n2, b2 in bs if n2 != n):
                    continue
                r = rule(n, b, dep, self.ctx)
                if r is not None:
                    rest = mkpoly(
                        {tuple((u, e) for u, e in m if n not in _atom_list[u].fv): ONE},
                        _mono_sort(tuple((u, e) for u, e in m if n not in _atom_list[u].fv)),
                    )
                    q = rest * r
                    for n2, b2 in reversed(bs):
                        if n2 != n:
                            q = Sum(n2, b2, q)
                    return self.poly(q)
        inner = Simp(ctx)
        p0 = mkpoly({m: ONE}, _mono_sort(m))
        p = inner.poly(p0)
        # split on conditions that involve bound variables
        for mm, c in p.t:
            for u, e in mm:
                at = _atom_list[u]
                if at.kind != "I":
                    continue
                cond = at.args[0]
                for ci in cond_atoms(cond):
                    for n, b in bs:
                        if n not in ci.fv:
                            continue
                        r = self.split_range(ci, n, b, bs, p)
                        if r is not None:
                            return self.poly(r)
                # condition without bound variables: case split outside
                if not any(n in cond.fv for n, _ in bs):
                    x = assume_in(p, cond, True)
                    y = assume_in(p, cond, False)
                    for n, b in reversed(bs):
                        x, y = Sum(n, b, x), Sum(n, b, y)
                    return self.poly(ite(cond, x, y))
        nb = [(n, self.poly(b)) for n, b in bs]
        if p is p0 and all(x is y for (_, x), (_, y) in zip(nb, bs)):
            return None
        for n, b in reversed(nb):
            p = Sum(n, b, p)
        return p if p.as_atom() is not a else None

    def split_range(self, ci, n, b, bs, p):
        """ci: atomic comparison containing bound n; returns rewritten full sum or None"""
        if ci.k not in ("<=", "==") or ci.a.sort != "I":
            return None
        v = var(n, "I")
        coef, rest = linear_in(ci.a, n)
        if coef is None:
            return None
        if any(n in b2.fv for _, b2 in bs):
            return None
        if any(m2 in rest.fv for m2, _ in bs):
            if ci.k == "==" and abs(coef) == 1:
                # eliminate n: it equals an expression of the other indices
                t = -rest if coef == 1 else rest
                pt, pf = assume_in(p, ci, True), assume_in(p, ci, False)
                others = [(m2, b2) for m2, b2 in bs if m2 != n]
                hit = subst(pt, {n: t}) - subst(pf, {n: t})
                c1 = fand(ge(t, 0), lt(t, b))
                sub = self.ctx.child(*[f for m2, b2 in others for f in (ge(var(m2, "I"), 0), lt(var(m2, "I"), b2))])
                if not sub.entails(c1):
                    hit = ite(c1, hit, const(0, hit.sort))
                return self.sum_all(bs, pf) + self.sum_all(others, hit)
            return None
        if ci.k == "==":
            # coef*n + rest == 0
            if abs(coef) != 1:
                return None
            t = -rest if coef == 1 else rest
            c1 = fand(ge(t, 0), lt(t, b))
            base = self.sum_all(bs, assume_in(p, ci, False))
            if self.ctx.entails(fnot(c1)):
                return base
            pt = assume_in(p, ci, True)
            pf = assume_in(p, ci, False)
            hit = subst(pt, {n: t}) - subst(pf, {n: t})
            others = [(m2, b2) for m2, b2 in bs if m2 != n]
            hit = self.sum_all(others, hit)
            if self.ctx.entails(c1):
                return base + hit
            return base + ite(c1, hit, const(0, hit.sort))
        # coef*n + rest <= 0
        if coef == 1:
            cut = 1 - rest  # n < cut  <=> cond true
            first, second = True, False
        elif coef == -1:
            cut = rest  # n >= rest <=> true ; n < rest false
            first, second = False, True
        else:
            return None
        pt = {True: assume_in(p, ci, True), False: assume_in(p, ci, False)}
        lo, hi = le(cut, 0), ge(cut, b)
        if self.ctx.entails(lo):
            return self.sum_all(bs, pt[second])
        if self.ctx.entails(hi):
            return self.sum_all(bs, pt[first])
        okl, okh = self.ctx.entails(ge(cut, 0)), self.ctx.entails(le(cut, b))
        a1 = self.sum_all([(m2, cut if m2 == n else b2) for m2, b2 in bs], pt[first])
        sh = subst(pt[second], {n: v + cut})
        a2 = self.sum_all([(m2, b - cut if m2 == n else b2) for m2, b2 in bs], sh)
        r = a1 + a2
        if not okl:
            r = ite(lo, self.sum_all(bs, pt[second]), r)
        if not okh:
            r = ite(hi, self.sum_all(bs, pt[first]), r)
        return r

    def sum_all(self, bs, p):
        for n, b in reversed(bs):
            p = Sum(n, b, p)
        return p


def _has_big(p):
    return False


def linear_in(p, n):
    """p = coef*n + rest with constant coef, n not in rest"""
    coef = None
    rest = {}
    for m, c in p.t:
        dep = [(u, e) for u, e in m if n in _atom_list[u].fv]
        if not dep:
            rest[m] = c
        elif len(m) == 1 and m[0][1] == 1 and _atom_list[m[0][0]].kind == "V":
            coef = c
        else:
            return None, None
    return coef, mkpoly(rest, p.sort)


def cond_atoms(f):
    if f.k in ("<=", "<", "=="):
        return [f]
    if f.k == "~":
        return cond_atoms(f.a)
    if f.k in ("&", "|"):
        return [y for x in f.a for y in cond_atoms(x)]
    return []


def assume_in(p, c, val):
    """replace condition atom c by val everywhere in ite conditions of p"""
    memo = {}

    def fm(f):
        if f is c:
            return TRUE if val else FALSE
        if f is fnot(c):
            return FALSE if val else TRUE
        if f.k == "~":
            return fnot(fm(f.a))
        if f.k == "&":
            return fand(*[fm(x) for x in f.a])
        if f.k == "|":
            return _or([fm(x) for x in f.a])
        return f

    def pm(q):
        r = memo.get(q)
        if r is None:
            r = map_atoms(q, am)
            memo[q] = r
        return r

    def am(a):
        if a.kind == "I":
            c0, x, y = a.args
            c1 = fm(c0)
            x1, y1 = pm(x), pm(y)
            if c1 is c0 and x1 is x and y1 is y:
                return None
            return ite(c1, x1, y1)
        if a.kind == "A":
            na = tuple(pm(x) if isinstance(x, Poly) else fm(x) for x in a.args[1])
            return None if na == a.args[1] else T.reapp(a.args[0], na, a.sort)
        if a.kind == "P":
            q = pm(a.args[0])
            return None if q is a.args[0] else q
        return None

    return pm(p)


def solve_eq(f):
    """for an equality atom return {var: poly} if a variable can be isolated"""
    if f.k != "==":
        return None
    best = None
    for m, c in f.a.t:
        if len(m) == 1 and m[0][1] == 1 and abs(c) == 1:
            a = _atom_list[m[0][0]]
            if a.kind == "V":
                coef, rest = linear_in(f.a, a.args[0])
                if coef is None or a.args[0] in rest.fv:
                    continue
                if best is None or a.uid > best[0]:
                    best = (a.uid, a.args[0], -rest if coef == 1 else rest, a.sort)
    if best is None:
        return None
    val = best[2]
    if best[3] == "I" and val.sort != "I":
        return None
    return {best[1]: with_sort(val, best[3]) if best[3] == "R" else val}


def eq_subst(hyps):
    """substitution from equalities among the hypotheses"""
    sub = {}
    pending = list(hyps)
    flat = []
    for h in pending:
        flat.extend(h.a if h.k == "&" else [h])
    for h in flat:
        if h.k == "==":
            g = subst_form(h, sub)
            s = solve_eq(g)
            if s:
                (k, v), = s.items()
                sub = {a: subst(b, s) for a, b in sub.items()}
                sub[k] = v
    return sub


# ------------------------------------------------------------------ proving
class Result:
    __slots__ = ("status", "how", "info")

    def __init__(self, status, how="", info=""):
        self.status, self.how, self.info = status, how, info

    def __repr__(self):
        return f"{self.status}({self.how}) {self.info}"


def prove(goal, hyps, rules=(), zfacts=(), depth=6, timeout=4000):
    """status: proved / refuted / unknown"""
    if goal is TRUE:
        STATS["norm"] += 1
        return Result("proved", "normal form")
    # hypotheses equalities
    sub = eq_subst(hyps)
    if sub:
        hyps2 = [subst_form(h, sub) for h in hyps]
        hyps2 = [h for h in hyps2 if h is not TRUE]
        goal2 = subst_form(goal, sub)
        if goal2 is TRUE:
            STATS["norm"] += 1
            return Result("proved", "normal form")
    else:
        hyps2, goal2 = list(hyps), goal
    ctx = Ctx(hyps2, rules, zfacts, timeout)
    return _prove(goal2, ctx, depth)


def _has_sum(p):
    return any(_atom_list[u].kind == "S" for m, _ in p.t for u, _e in m)


def _prove(goal, ctx, depth):
    if goal is TRUE:
        STATS["norm"] += 1
        return Result("proved", "normal form")
    if goal.k == "&":
        for g in goal.a:
            r = _prove(g, ctx, depth)
            if r.status != "proved":
                return r
        return r
    if goal.k == "all":
        nm, n, body = open_forall(goal)
        v = var(nm, "I")
        return _prove(body, ctx.child(ge(v, 0), lt(v, n)), depth)
    if goal.k == "|":
        # implication style: assume negations of all but one
        parts = list(goal.a)
        # prove last quantified / equality disjunct under negation of the others
        parts.sort(key=lambda f: (f.k == "all", f.k == "==", f.uid))
        g = parts[-1]
        ch = ctx.child(*[fnot(x) for x in parts[:-1]])
        sub = eq_subst(ch.hyps)
        if sub:
            hy = [h for h in (subst_form(h, sub) for h in ch.hyps) if h is not TRUE]
            g2 = subst_form(g, sub)
            ch = Ctx(hy, ctx.rules, ctx.zfacts, ctx.timeout)
            return _prove(g2, ch, depth)
        return _prove(g, ch, depth)
    simp = Simp(ctx)
    g = simp.form(goal)
    if g is TRUE:
        STATS["norm"] += 1
        return Result("proved", "rewriting")
    if not ctx.consistent():
        return Result("proved", "z3 (hypotheses unsatisfiable)")
    if g.k in ("&", "all", "|") and g is not goal:
        return _prove(g, ctx, depth)
    if g.k == "==":
        g2 = unify_atoms(g, ctx)
        if g2 is not g:
            if g2 is TRUE:
                STATS["norm"] += 1
                return Result("proved", "rewriting+congruence")
            return _prove(g2, ctx, depth)
        g3 = clear_denominators(g, ctx)
        if g3 is TRUE:
            STATS["norm"] += 1
            return Result("proved", "rational normal form")
    # case split on an undecided condition
    if depth > 0:
        c = pick_split(g)
        if c is not None:
            r1 = prove_child(g, ctx, c, depth - 1)
            if r1.status != "proved":
                return r1
            return prove_child(g, ctx, fnot(c), depth - 1)
    # sign reasoning
    if g.k in ("<=", "<"):
        s = sign(g.a)
        if g.k == "<=" and s in ("-", "0-"):
            return Result("proved", "sign analysis")
        if g.k == "<" and s == "-":
            return Result("proved", "sign analysis")
        if g.k == "<=" and square_sum(g.a * const(-1, g.a.sort)):
            return Result("proved", "sum of squares")
    if ctx.light() is not None and ctx.ground_unsat(fnot(g), ms=1500):
        STATS["z3_proved"] += 1
        return Result("proved", "z3 (instances)")
    # the facts in the normal form of the goal
    if g.k == "==" and not getattr(ctx, "simplified", False):
        new = []
        for h in ctx.hyps:
            if h.k == "==" and _has_sum(h.a):
                h2 = simp.form(h)
                if h2 is not h and h2 not in (TRUE, FALSE):
                    new.append(h2)
        if new:
            ch = ctx.child(*new)
            ch.simplified = True
            return _prove(g, ch, depth)
    res, m = ctx.check(fnot(g), timeout=ctx.timeout)
    if res == z3.unsat:
        STATS["z3_proved"] += 1
        return Result("proved", "z3")
    if res == z3.sat:
        return Result("refuted", "z3", f"goal {str(g)[:600]} | model {str(m)[:600]}")
    return Result("unknown", "z3", f"goal {str(g)[:900]}")


def prove_child(g, ctx, c, depth):
    ch = ctx.child(c)
    if not ch.consistent():
        return Result("proved", "infeasible case")
    # use equalities
    sub = eq_subst([c])
    if sub:
        hyps = [subst_form(h, sub) for h in ch.hyps]
        hyps = [h for h in hyps if h is not TRUE]
        ch = Ctx(hyps, ctx.rules, ctx.zfacts, ctx.timeout)
        g = subst_form(g, sub)
    return _prove(g, ch, depth)


def pick_split(g):
    """an undecided ite condition at ground level"""
    seen = {}
    for p in form_polys(g):
        _collect(p, seen)
    cands = []
    for a in seen:
        if a.kind == "I":
            for c in cond_atoms(a.args[0]) or [a.args[0]]:
                cands.append(c)
    if not cands:
        return None
    # prefer equalities / small conditions deterministically
    cands.sort(key=lambda c: (len(str(c)), str(c)))
    return cands[0]


def unify_atoms(g, ctx):
    """merge array atoms / sums that are provably equal under the hypotheses"""
    seen = {}
    for p in form_polys(g):
        _collect(p, seen)
    by = {}
    for a in seen:
        if a.kind == "A" and a.args[1]:
            by.setdefault((a.args[0], len(a.args[1]), a.sort), []).append(a)
        elif a.kind == "S":
            by.setdefault((None, len(a.args[0]), a.sort), []).append(a)
    mapping = {}
    for key, lst in by.items():
        lst.sort(key=lambda a: a.uid)
        for i, a in enumerate(lst):
            if a in mapping:
                continue
            for b in lst[i + 1:]:
                if b in mapping:
                    continue
                if key[0] is None:
                    if _sums_equal(a, b, ctx):
                        mapping[b] = a
                else:
                    conds = []
                    ok = True
                    for x, y in zip(a.args[1], b.args[1]):
                        if isinstance(x, Form) or isinstance(y, Form):
                            if x is not y:
                                ok = False
                            continue
                        if x is y:
                            continue
                        if x.sort == "R" or y.sort == "R":
                            # real arguments (exp(..)): try normal-form equality after simp
                            e = Simp(ctx).form(eq(x, y))
                            if e is not TRUE and not (ctx.entails(e)):
                                ok = False
                                break
                            continue
                        conds.append(eq(x, y))
                    if ok and all(ctx.entails(c) for c in conds):
                        mapping[b] = a
    if not mapping:
        return g
    memo = {}

    def pm(q):
        r = memo.get(q)
        if r is None:
            r = map_atoms(q, am)
            memo[q] = r
        return r

    def am(a):
        if a in mapping:
            return atom_poly(mapping[a])
        if a.kind == "A":
            na = tuple(pm(x) if isinstance(x, Poly) else x for x in a.args[1])
            return None if na == a.args[1] else T.reapp(a.args[0], na, a.sort)
        if a.kind == "I":
            c, x, y = a.args
            x2, y2 = pm(x), pm(y)
            return None if (x2 is x and y2 is y) else ite(c, x2, y2)
        if a.kind == "P":
            q = pm(a.args[0])
            return None if q is a.args[0] else q
        return None

    if g.k in ("==", "<=", "<"):
        return cmp0(g.k, pm(g.a))
    return g


def _sums_equal(a, b, ctx):
    """same bounds (provably) and same bodies (provably, pointwise)"""
    if len(a.args[0]) != len(b.args[0]) or len(a.args[0]) > 2:
        return False
    ba, ma = open_sum(a)
    for x, y in zip(a.args[0], b.args[0]):
        if x is not y and not ctx.entails(eq(x, y)):
            return False
    bb, mb = open_sum(b)
    sub = {n2: var(n1, "I") for (n1, _), (n2, _) in zip(ba, bb)}
    pa = mkpoly({ma: ONE}, _mono_sort(ma))
    pb = subst(mkpoly({mb: ONE}, _mono_sort(mb)), sub)
    ch = ctx.child(*[f for n, bd in ba for f in (ge(var(n, "I"), 0), lt(var(n, "I"), bd))])
    d = Simp(ch).poly(pa - pb)
    if d.const_value() == 0:
        return True
    g = eq(d, 0)
    g2 = unify_atoms(g, ch)
    return g2 is TRUE


def clear_denominators(g, ctx):
    p = g.a
    for _ in range(6):
        dens = {}
        for m, _c in p.t:
            for u, e in m:
                if e < 0 and _atom_list[u].kind == "P":
                    dens[u] = min(dens.get(u, 0), e)
        if not dens:
            return cmp0("==", p)
        u = sorted(dens)[0]
        e = -dens[u]
        q = _atom_list[u].args[0]
        # multiply by q^e symbolically: monomials with u^-k get q^(e-k)
        r = const(0, "R")
        for m, c in p.t:
            d = dict(m)
            k = -d.pop(u, 0)
            mm = tuple(sorted(d.items()))
            r = r + mkpoly({mm: c}, "R") * (q ** (e - k))
        p = r
        if p.const_value() == 0:
            return TRUE
    return g

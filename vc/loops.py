"""Loop rule for loops with a symbolic number of iterations (no bound, no unrolling).

For ``for x in it: body`` with ``n`` iterations the engine explores

* the *body path*: one iteration with an arbitrary index ``0 <= k < n`` from an arbitrary
  state ``R(k)`` of everything the body modifies (locals, array cells, appended lists);
  this yields the recurrence ``R(k+1) = F(R(k), k)`` and all obligations of the body;
* the *exit path*: the state after the loop is ``G(n)`` for a closed form ``G`` that is
  proved by induction (``G(0)`` = initial state, ``G(k+1) = F(G(k), k)``), or the
  uninterpreted ``R(n)`` when no candidate is inductive.

Closed-form candidates come from two sources: the automatic patterns (writes at index k,
accumulations) and the contract (``v.inv``).  A wrong candidate cannot be accepted, it only
fails its induction.
"""
from .arrays import SArr, SBool, SNum, Sym, Template, Cell, as_arr, mknum, num, P_, dt_join, sort_of, spec_mode
from . import terms as T
from . import prover as P
from .engine import E, Engine, PathEnd
from .models import SList, SRange, as_slist
from .terms import *  # noqa


class Poison(Sym):
    """value of a local after a loop that nothing is known about"""

    def __init__(self, name):
        self.__dict__["name_"] = name

    def _bad(self, *a, **k):
        raise Unsupported(f"use of loop-modified variable {self.__dict__['name_']} without a known closed form")

    __getattr__ = _bad
    __bool__ = __add__ = __radd__ = __sub__ = __mul__ = __getitem__ = __len__ = __iter__ = _bad
    __array__ = _bad


def rewrite_fn(p, table):
    """replace applications of functions in `table` (name -> builder(args)) everywhere"""
    memo = {}

    def pm(q):
        r = memo.get(q)
        if r is None:
            r = map_atoms(q, am)
            memo[q] = r
        return r

    def fm(f):
        k = f.k
        if k in ("<=", "<", "=="):
            q = pm(f.a)
            return f if q is f.a else cmp0(k, q)
        if k == "&":
            return fand(*[fm(x) for x in f.a])
        if k == "|":
            return T._or([fm(x) for x in f.a])
        if k == "!":
            return fnot(fm(f.a))
        if k == "all":
            nm, n, b = open_forall(f)
            return T.forall(nm, pm(n), fm(b))
        return f

    def am(a):
        if a.kind == "A":
            args = tuple(pm(x) if isinstance(x, Poly) else fm(x) for x in a.args[1])
            b = table.get(a.args[0])
            if b is not None:
                return b(args)
            return None if args == a.args[1] else T.reapp(a.args[0], args, a.sort)
        if a.kind == "I":
            c, x, y = a.args
            return ite(fm(c), pm(x), pm(y))
        if a.kind == "P":
            return pm(a.args[0])
        if a.kind == "S":
            bs, m = open_sum(a)
            q = pm(mkpoly({m: ONE}, T._mono_sort(m)))
            for n, b in reversed(bs):
                q = Sum(n, pm(b), q)
            return q
        return None

    return pm(p) if isinstance(p, Poly) else fm(p)


def mentions(p, names):
    seen = {}
    for q in ([p] if isinstance(p, Poly) else form_polys(p)):
        P._collect(q, seen)
    return any(a.kind == "A" and a.args[0] in names for a in seen)


class Item:
    """something the loop body modifies"""

    def __init__(self, kind, ref, shape, dt, fn):
        self.kind = kind  # 'cell' | 'num' | 'arr' | 'poison' | 'append'
        self.ref = ref
        self.shape = shape
        self.dt = dt
        self.fn = fn


class SymLoop:
    def __init__(self, it, lid, getters, flags=()):
        e = E()
        if flags:
            raise Unsupported(f"{','.join(flags)} inside a loop of symbolic length ({lid})")
        self.e = e
        self.it = as_slist(it)
        self.n = self.it.n
        self.getters = getters
        self.lid = lid
        occ = e.occ.get(lid, 0)
        e.occ[lid] = occ + 1
        self.key = (lid, occ, tuple(e.trace))
        self.final = {}
        self.state = "new"
        if not e.entails(ge(self.n, 0)):
            if e.decide(lt(self.n, 0)):
                self.n = const(0, "I")
        if self.n.as_int() == 0 or e.entails(le(self.n, 0)):
            self.state = "done"
            return
        self.rec = e.loops.setdefault(self.key, {"D": {}, "L": {}, "A": {}, "F": [], "kid": -1, "outer": tuple(l.k for l in e.loop_stack)})
        r = self.rec
        if r["kid"] < 0:
            e.loop_count = getattr(e, "loop_count", -1) + 1
            r["kid"] = e.loop_count
        self.kname = f"k@{r['kid']}"
        self.k = var(self.kname, "I")
        self.outer = tuple(l.k for l in e.loop_stack)
        if e.choose(None):
            self.mode = "body"
        else:
            self.mode = "exit"

    def __iter__(self):
        return self

    def cell_by_id(self, cid):
        return self.written.get(cid)

    # ------------------------------------------------------------------
    def fname(self, what):
        return f"R{self.rec['kid']}:{what}"

    def havoc_cell(self, cell, what, k):
        nm = self.fname(what)
        args = self.outer + (k,)
        if cell.dt == "complex":
            from .arrays import COMPLEX_FNS

            COMPLEX_FNS.add(nm)
        if cell.dt == "bool":
            return Template(len(cell.shape), lambda idx: T.pred(nm, args + tuple(idx)))
        return Template(len(cell.shape), lambda idx: app(nm, args + tuple(idx), sort_of(cell.dt)))

    def __next__(self):
        e = self.e
        if self.state == "done":
            raise StopIteration
        if self.state == "new" and self.mode == "exit":
            self.do_exit()
            self.state = "done"
            raise StopIteration
        if self.state == "new":
            self.state = "body"
            return self.start_body()
        # end of the generic iteration
        self.end_body()
        raise PathEnd()

    def start_body(self):
        e, r = self.e, self.rec
        k = self.k
        self.mark = len(e.pc)
        self.rmark = len(e.rules)
        e.assume(fand(ge(k, 0), lt(k, self.n)))
        self.mark2 = len(e.pc)
        self.written = {}
        self.appends = []
        self.first_cell = e.cells
        e.loop_stack.append(self)
        # havoc known-modified cells
        for cid, cell0 in r["D"].items():
            cell = e.cell_reg.get(cid)
            if cell is None:
                raise Unsupported("loop cell identity lost")
            cell.t = self.havoc_cell(cell, f"c{cid}", k)
        h = {}
        self.start_vals = {}
        for nm, g in self.getters.items():
            try:
                v0 = g()
            except NameError:
                continue
            if nm in r["L"]:
                h[nm] = self.havoc_local(nm, v0, k)
                self.start_vals[nm] = h[nm]
            else:
                self.start_vals[nm] = v0
        h["__item__"] = self.it.at(mknum(k, "int"))
        return h

    def havoc_local(self, nm, v0, k):
        args = self.outer + (k,)
        fn = self.fname("l:" + nm)
        if isinstance(v0, (bool, str, Poison)) or v0 is None:
            return Poison(nm)
        if isinstance(v0, (int, float, SNum)) or (hasattr(v0, "dtype") and getattr(v0, "ndim", 1) == 0):
            try:
                p, dt = num(v0)
            except Exception:
                return Poison(nm)
            kind = self.rec["L"].get(nm, {}).get("dt")
            if kind:
                dt = dt_join(dt, kind)
            return mknum(app(fn, args, sort_of(dt)), dt)
        try:
            a = as_arr(v0)
        except Exception:
            return Poison(nm)
        return SArr.from_fn(a._shape, lambda idx: app(fn, args + tuple(idx), sort_of(a.dt)), a.dt)

    def on_write(self, cell, old):
        if self.mode == "body" and cell.id < self.first_cell:
            self.written[cell.id] = cell

    def on_append(self, lst, val):
        self.appends.append((lst, val))

    def end_body(self):
        e, r = self.e, self.rec
        e.loop_stack.remove(self)
        grew = False
        for cid, cell in self.written.items():
            if cid not in r["D"]:
                r["D"][cid] = True
                grew = True
        changed = {}
        for nm, g in self.getters.items():
            try:
                v = g()
            except NameError:
                continue
            if nm in self.start_vals:
                s = self.start_vals[nm]
                if v is not s and not (isinstance(v, (int, float, str)) and type(v) is type(s) and v == s):
                    changed[nm] = v
                    if nm not in r["L"]:
                        d = {}
                        if isinstance(v, (SNum, int, float)) and not isinstance(v, bool):
                            d["dt"] = num(v)[1]
                        r["L"][nm] = d
                        grew = True
        if grew:
            # re-run the body from the larger havoc set
            r["F"] = []
            for q in [q for q, x in e.loops.items() if self.k in x["outer"]]:
                del e.loops[q]
            e.pending.append(tuple(self.key[2]) + (True,))
            raise PathEnd()
        conds = []
        facts = []
        for f in e.pc[self.mark2:]:
            conds.append(f)
        F = {}
        for cid in r["D"]:
            c = e.cell_reg[cid]
            F[("c", cid)] = (c.t, c.dt)
        for nm in r["L"]:
            try:
                v = self.getters[nm]()
            except NameError:
                v = None
            F[("l", nm)] = v
        app_ = []
        for nm, g in self.getters.items():
            try:
                v = g()
            except NameError:
                continue
            if isinstance(v, list) and any(l is v for l, _ in self.appends) and self.start_vals.get(nm) is v:
                r.setdefault("apnames", {})[nm] = [(0, val) for l, val in self.appends if l is v]
        for lst, val in self.appends:
            app_.append((lst, val, len(lst)))
        r["F"].append((fand(*conds) if conds else TRUE, F, e.rules[self.rmark:], app_))

    # ------------------------------------------------------------------
    def do_exit(self):
        e, r = self.e, self.rec
        if not r["F"]:
            # the body never completes an iteration: only zero iterations reach the exit
            e.assume(le(self.n, 0))
            return
        k = self.k
        for cond, F, rules, _a in r["F"]:
            for q in rules:
                e.rules.append(q)
        e._ctx = None
        n = self.n
        items = {}
        single = len(r["F"]) == 1
        for key in r["F"][0][1]:
            items[key] = self.make_item(key)
        items = {a: b for a, b in items.items() if b is not None}
        # ---- closed forms
        names = {it.fn: key for key, it in items.items() if it.kind != "poison"}
        closed = {}
        for key, it in items.items():
            if it.kind == "poison":
                continue
            cands = self.candidates(it, names)
            if cands:
                closed[key] = cands
        raw = self.houdini(items, names, closed)
        table = {items[key].fn: self.builder(G) for key, G in raw.items()}

        def full(G):
            def f(kk, ix):
                p = G(kk, ix)
                return rewrite_fn(p, table) if isinstance(p, Poly) else p

            return f

        chosen = {key: full(G) for key, G in raw.items()}
        # ---- apply
        final = {}
        for nm in self.getters:
            if ("l", nm) in items:
                it = items[("l", nm)]
                if it.kind == "poison":
                    final[nm] = Poison(nm)
                elif ("l", nm) in chosen:
                    G = chosen[("l", nm)]
                    final[nm] = self.value(it, lambda idx: G(n, idx))
                else:
                    final[nm] = self.value(it, lambda idx, it=it: app(it.fn, self.outer + (n,) + tuple(idx), sort_of(it.dt)))
            else:
                # modified only inside (unbound before) or unchanged
                try:
                    self.getters[nm]()
                except NameError:
                    final[nm] = Poison(nm)
        for key, it in items.items():
            if it.kind != "cell":
                continue
            cell = e.cell_reg[it.ref]
            if key in chosen:
                G = chosen[key]
                cell.write(lambda idx, old: G(n, idx))
            else:
                fn = it.fn
                if cell.dt == "bool":
                    cell.write(lambda idx, old: T.pred(fn, self.outer + (n,) + tuple(idx)))
                else:
                    cell.write(lambda idx, old: app(fn, self.outer + (n,) + tuple(idx), sort_of(cell.dt)))
        self.do_appends(final, names, chosen, items)
        self.final = final

    def value(self, it, f):
        if it.kind == "num":
            return mknum(f(()), it.dt)
        return SArr.from_fn(it.shape, f, it.dt)

    def do_appends(self, final, names, chosen, items):
        r = self.rec
        if not any(a for _, _, _, a in r["F"]):
            return
        if len(r["F"]) != 1:
            raise Unsupported("conditional append in a symbolic loop")
        apps = r["F"][0][3]
        # which local refers to the list (same identity pattern on this path)
        by = {}
        for lst, val, ln in apps:
            by.setdefault(id(lst), []).append((lst, val))
        for nm, g in self.getters.items():
            b = r.get("apnames", {}).get(nm)
            if b is None:
                continue
            vals = [val for lid_, val in b]
            if len(vals) != 1:
                raise Unsupported("several appends per iteration")
            base = g()
            val = vals[0]
            kn = self.kname
            table = {it.fn: self.builder(chosen[key]) for key, it in items.items() if key in chosen}

            def at(i, val=val):
                i = P_(i)
                return subst_value(val, kn, i, table)

            lst = SList(self.n, at)
            final[nm] = lst if not base else as_slist(base) + lst

    def builder(self, G):
        m = len(self.outer)
        return lambda args: G(args[m], args[m + 1:])

    def make_item(self, key):
        e = self.e
        kind, ref = key
        if kind == "c":
            cell = e.cell_reg[ref]
            it = Item("cell", ref, cell.shape, cell.dt, self.fname(f"c{ref}"))
            t0 = cell.t
            it.init = lambda idx: t0.at(tuple(idx))
            for c, F, ru, ap in self.rec["F"]:
                it.dt = dt_join(it.dt, F[key][1]) if it.dt != "bool" else it.dt
            it.steps = [(c, (lambda idx, t=F[key][0]: t.at(tuple(idx)))) for c, F, ru, ap in self.rec["F"]]
        else:
            vals = [F[key] for c, F, ru, ap in self.rec["F"]]
            try:
                v0 = self.getters[ref]()
            except NameError:
                return None
            if isinstance(v0, (str, bool, Poison)) or v0 is None or any(v is None or isinstance(v, (Poison, str, bool)) for v in vals):
                return Item("poison", ref, None, None, None)
            try:
                a0 = as_arr(v0)
                avs = [as_arr(v) for v in vals]
            except Exception:
                return Item("poison", ref, None, None, None)
            for a in avs:
                if a.ndim != a0.ndim or any(x is not y and not e.entails(eq(x, y)) for x, y in zip(a._shape, a0._shape)):
                    return Item("poison", ref, None, None, None)
            dt = dt_join(a0.dt, *[a.dt for a in avs])
            it = Item("num" if a0.ndim == 0 else "arr", ref, a0._shape, dt, self.fname("l:" + ref))
            it.init = lambda idx: a0.real_elem(tuple(idx))
            it.steps = [(F_[0], (lambda idx, a=a: a.real_elem(tuple(idx)))) for F_, a in zip(self.rec["F"], avs)]
        return it

    def step(self, it, idx):
        """F(R(k), k)[idx] as one term"""
        st = it.steps
        r = st[-1][1](idx)
        for c, f in reversed(st[:-1]):
            x = f(idx)
            r = ite(c, x, r) if isinstance(r, Poly) else T.ite_form(c, x, r)
        return r

    def candidates(self, it, names):
        nd = len(it.shape)
        idx = tuple(var(f"%L{i}", "I") for i in range(nd))
        k = self.k
        cur = (app(it.fn, self.outer + (k,) + idx, sort_of(it.dt)) if it.dt != "bool" else None)
        F = self.step(it, idx)
        out = []
        if cur is not None and isinstance(F, Poly):
            # accumulation
            d = F - cur
            if not mentions(d, {it.fn}):
                if not mentions(d, names):
                    def acc(kk, ix, d=d):
                        nm = fresh_name("ac")
                        body = subst(d, {**{f"%L{i}": x for i, x in enumerate(ix)}, self.kname: var(nm, "I")})
                        return it.init(ix) + Sum(nm, kk, body)
                    out.append(acc)
            # map write: ite(cond, val, cur)
            a = F.as_atom()
            if a is not None and a.kind == "I":
                out.extend(self.mapwrite(it, idx, F, cur))
        # unchanged
        if cur is not None and F is cur:
            out.append(lambda kk, ix: it.init(ix))
        for c in getattr(self.e, "loop_candidates", []):
            ar = getattr(c, "arity", None)
            if ar is None:
                ar = c.__code__.co_argcount
            if ar == 1 + nd:
                def wrap(kk, ix, c=c):
                    with spec_mode():
                        r = c(mknum(kk, "int"), *[mknum(x, "int") for x in ix])
                        return num(r)[0]
                out.append(wrap)
        return out

    def mapwrite(self, it, idx, F, cur):
        """flatten nested ite with `cur` leaves; recognise an index condition idx[a] == k + off"""
        k = self.k
        cases = []  # (conds, value)

        def walk(p, conds):
            a = p.as_atom()
            if a is not None and a.kind == "I":
                c, x, y = a.args
                walk(x, conds + [c])
                walk(y, conds + [fnot(c)])
            else:
                cases.append((conds, p))

        walk(F, [])
        out = []
        for ax in range(len(idx)):
            for off in self.offsets(F, idx[ax]):
                # iteration that writes index i: k* = i - off
                def G(kk, ix, ax=ax, off=off):
                    ks = ix[ax] - off
                    sub = {f"%L{i}": x for i, x in enumerate(ix)}
                    sub[self.kname] = ks
                    val = subst(F, sub)
                    # inside val the state of `it` itself at k* is the initial state there
                    val = rewrite_fn(val, {it.fn: lambda args: it.init(args[len(self.outer) + 1:])})
                    return ite(fand(ge(ks, 0), lt(ks, kk)), val, it.init(ix))

                out.append(G)
            for x0, w in self.blocks(F, idx[ax], ax):
                # iteration that writes block [x0 + k w, ...): k* = (i - x0) // w
                def G(kk, ix, ax=ax, x0=x0, w=w):
                    sub = {f"%L{i}": x for i, x in enumerate(ix)}
                    ks = T.floordiv(ix[ax] - subst(x0, sub), w)
                    sub[self.kname] = ks
                    val = subst(F, sub)
                    val = rewrite_fn(val, {it.fn: lambda args: it.init(args[len(self.outer) + 1:])})
                    return ite(fand(ge(ks, 0), lt(ks, kk)), val, it.init(ix))

                out.append(G)
        return out

    def blocks(self, F, i, ax):
        """(x0, w) such that a condition `x0 + k w <= i` occurs in F"""
        res = []
        seen = {}
        P._collect(F, seen)
        todo = [a.args[0] for a in seen if a.kind == "I"]
        while todo:
            c = todo.pop()
            if c.k in ("&", "|"):
                todo.extend(c.a)
            elif c.k == "!":
                todo.append(c.a)
            elif c.k in ("<=", "<"):
                x = c.a + i  # c.a = x - i
                if f"%L{ax}" in x.fv or self.kname not in x.fv or x.sort != "I":
                    continue
                x0 = subst(x, {self.kname: const(0, "I")})
                w = subst(x, {self.kname: self.k + const(1, "I")}) - x
                if self.kname in w.fv or any(f"%L{q}" in w.fv for q in range(9)) or (w.as_int() is not None and w.as_int() <= 0):
                    continue
                if (x0, w) not in res:
                    res.append((x0, w))
        return res

    def offsets(self, F, i):
        """offsets o such that a condition `i == k + o` occurs in F"""
        res = []
        seen = {}
        P._collect(F, seen)
        for a in seen:
            if a.kind == "I":
                for c in self.eqs(a.args[0]):
                    s = P.solve_eq(c)
                    d = c.a
                    # c: d == 0 with d linear: +-(i - k - off)
                    for sg in (1, -1):
                        off = const(sg, "I") * d - i + self.k
                        off2 = const(-1, "I") * off
                        if self.kname not in off2.fv and not any(f"%L{q}" in off2.fv for q in range(9)):
                            if off2 not in res:
                                res.append(off2)
        return res

    def eqs(self, f):
        if f.k == "==":
            return [f]
        if f.k in ("&", "|"):
            return [x for g in f.a for x in self.eqs(g)]
        if f.k == "!":
            return self.eqs(f.a)
        return []

    def houdini(self, items, names, closed):
        """largest set of closed forms that is inductive"""
        e = self.e
        memo = {}

        def ok(key, sel, at):
            m = (key, tuple(sorted(at.items(), key=repr)))
            if m not in memo:
                table = {items[q].fn: self.builder(G) for q, G in sel.items()}
                memo[m] = self.inductive(items[key], sel[key], table)
            return memo[m]

        def fix(pos):
            pos = dict(pos)
            for _ in range(200):
                sel = {key: closed[key][i] for key, i in pos.items()}
                bad = next((key for key in sel if not ok(key, sel, pos)), None)
                if bad is None:
                    return pos
                pos[bad] += 1
                if pos[bad] >= len(closed[bad]):
                    del pos[bad]
            return {}

        pos = fix({key: 0 for key in closed})
        grown = True
        while grown:  # candidates dropped while others were still wrong get another chance
            grown = False
            for key in closed:
                if key in pos:
                    continue
                for i in range(len(closed[key])):
                    new = {**pos, key: i}
                    sel = {q: closed[q][j] for q, j in new.items()}
                    if all(ok(q, sel, new) for q in sel):
                        pos, grown = new, True
                        break
        return {key: closed[key][i] for key, i in pos.items()}

    def inductive(self, it, G, table):
        e = self.e
        idx = tuple(var(e.name("?L"), "I") for _ in it.shape)
        hyp = [f for v, s in zip(idx, it.shape) for f in (ge(v, 0), lt(v, s))]
        try:
            g0 = G(const(0, "I"), idx)
            if isinstance(g0, Poly):
                g0 = rewrite_fn(g0, table)
            i0 = it.init(idx)
            if not P.prove(self.eq_(g0, i0), e.pc + hyp, e.rules, e.zfacts, timeout=e.timeout).status == "proved":
                return False
            k = self.k
            F = rewrite_fn(self.step(it, idx), table)
            if isinstance(F, Poly):
                F = rewrite_fn(F, table)
            g1 = G(k + const(1, "I"), idx)
            if isinstance(g1, Poly):
                g1 = rewrite_fn(g1, table)
            hyp = hyp + [ge(k, 0), lt(k, self.n)]
            return P.prove(self.eq_(g1, F), e.pc + hyp, e.rules, e.zfacts, timeout=e.timeout).status == "proved"
        except (Unsupported, IndexError, TypeError):
            return False

    @staticmethod
    def eq_(a, b):
        if isinstance(a, Form) or isinstance(b, Form):
            a = a if isinstance(a, Form) else ne(a, 0)
            b = b if isinstance(b, Form) else ne(b, 0)
            return fand(T.implies(a, b), T.implies(b, a))
        return eq(a, b)


def subst_value(val, kn, i, table):
    """value of a body-local at iteration i"""
    def f(p):
        p = rewrite_fn(p, table) if table else p
        return subst(p, {kn: i})

    if isinstance(val, SNum):
        return mknum(f(val.p), val.dt)
    if isinstance(val, SBool):
        return SBool(f(val.form))
    if isinstance(val, SArr):
        return SArr.from_fn(tuple(f(s) for s in val._shape), lambda idx: f(val.elem(idx)), val.dt)
    if isinstance(val, tuple):
        return tuple(subst_value(v, kn, i, table) for v in val)
    if isinstance(val, Sym):
        raise Unsupported("append of a symbolic object in a symbolic loop")
    return val

"""Path exploration: runs the real (transformed) code with symbolic proxies.

A contract is a Python function ``c(v)``.  The engine runs it once per feasible path;
``v`` creates symbolic inputs, assumes preconditions and states postconditions
(obligations).  Every branch of the real code on a symbolic condition forks the path.
"""
import sys
import time
import traceback

from .terms import *  # noqa
from . import terms as T
from . import prover as P


class PathEnd(BaseException):
    """abandon the current path (infeasible or finished early)"""


class Refused(Unsupported):
    pass


class Obligation:
    __slots__ = ("contract", "name", "status", "how", "info", "path", "secs")

    def as_dict(self):
        return {k: getattr(self, k) for k in self.__slots__}


class Engine:
    cur = None

    def __init__(self, max_paths=600, timeout=4000, budget=240.0):
        self.max_paths = max_paths
        self.timeout = timeout
        self.budget = budget
        self.obligations = []
        self.functions = set()  # real functions executed under contract
        self.reset_path()

    # ---------------------------------------------------------------- paths
    def reset_path(self):
        self.pc = []
        self.rules = []
        self.zfacts = []
        self.trace = []  # decisions taken on this path
        self.counters = {}
        self.binders = []  # names of bound variables of enclosing symbolic comprehensions
        self._ctx = None
        self.cells = 0
        self.notes = []
        self.stubs = {}
        self.loop_stack = []
        self.occ = {}
        self.undo = []
        self.cell_reg = {}
        self.spec = 0
        self.loop_candidates = []
        self.laws = []  # laws of library results, instantiated by the contract
        self.normal_equations = False

    def name(self, base):
        n = self.counters.get(base, 0)
        self.counters[base] = n + 1
        return base if n == 0 else f"{base}_{n}"

    def ctx(self):
        if self._ctx is None:
            sub = P.eq_subst(self.pc)
            self._sub = sub
            hyps = [h for h in (subst_form(h, sub) for h in self.pc) if h is not TRUE] if sub else list(self.pc)
            self._ctx = P.Ctx(hyps, self.rules, self.zfacts, self.timeout)
        return self._ctx

    def norm(self, f):
        self.ctx()
        return subst_form(f, self._sub) if self._sub else f

    def assume(self, f):
        if f is TRUE:
            return
        self.pc.append(f)
        self._ctx = None
        if f is FALSE:
            raise PathEnd()

    def entails(self, f):
        if f is TRUE:
            return True
        if f is FALSE:
            return False
        return self.ctx().entails(self.norm(f))

    def decide(self, f):
        """truth value of f on this path; forks when both are possible"""
        if self.spec and f is not TRUE and f is not FALSE and not self.entails(f) and not self.entails(fnot(f)):
            raise Unsupported(f"branch inside a specification: {str(f)[:200]}")
        if f is TRUE:
            return True
        if f is FALSE:
            return False
        f = self.norm(f)
        if f is TRUE:
            return True
        if f is FALSE:
            return False
        c = self.ctx()
        if c.entails(f):
            return True
        if c.entails(fnot(f)):
            return False
        g = P.Simp(c).form(f)
        if g is TRUE:
            return True
        if g is FALSE:
            return False
        if self.binders and any(b in f.fv for b in self.binders):
            raise Unsupported(f"branch on a per-element condition {str(f)[:200]}")
        return self.choose(f)

    def choose(self, f):
        """unconditional fork on f (f may be None for a free choice)"""
        i = len(self.trace)
        if i < len(self.prefix):
            b = self.prefix[i]
        else:
            b = True
            self.pending.append(tuple(self.trace) + (False,))
        self.trace.append(b)
        if f is not None:
            self.assume(f if b else fnot(f))
        return b

    # ---------------------------------------------------------------- exploration
    def explore(self, name, fn):
        """run contract fn over all paths"""
        from .arrays import V

        self.contract = name
        self.pending = [()]
        self.paths = 0
        self.live_paths = 0
        self.loops = {}
        t0 = time.time()
        while self.pending:
            self.prefix = self.pending.pop()
            self.paths += 1
            if self.paths > self.max_paths or time.time() - t0 > self.budget:
                self.record("exploration", "unknown", "engine", f"path/time budget exhausted after {self.paths} paths")
                break
            self.reset_path()
            Engine.cur = self
            try:
                fn(V(self))
                self.live_paths += 1
            except PathEnd:
                pass
            except Unsupported as e:
                self.record("translation", "unsupported", "engine", f"{e} @ {_where()}")
            except RecursionError as e:
                self.record("translation", "unsupported", "engine", f"recursion {e}")
            except AssertionError as e:
                if not self.feasible():
                    continue
                self.record("no-assertion-failure", "refuted", "path", f"{type(e).__name__}: {e} @ {_where()}")
            except Exception as e:  # the real code raised: not allowed by the contract
                if not self.feasible():
                    continue
                loc = _where()
                if "/vc/" in loc.split(" ")[0] or "/contracts/" in loc.split(" ")[0]:
                    self.record("translation", "unsupported", "engine", f"{type(e).__name__}: {e} @ {loc}\n{traceback.format_exc()[-1500:]}")
                else:
                    self.record("no-exception", "refuted", "path", f"{type(e).__name__}: {e} @ {loc}")
            finally:
                for u in reversed(self.undo):
                    u()
                self.undo = []
                Engine.cur = None
        if self.live_paths == 0:
            self.record("reachable", "unsupported", "engine", "no path of the contract is feasible (vacuous)")
        return self.obligations

    def feasible(self):
        try:
            return self.ctx().consistent()
        except Exception:
            return True

    def record(self, name, status, how, info, secs=0.0):
        o = Obligation()
        o.contract, o.name, o.status, o.how, o.info, o.secs = self.contract, name, status, how, str(info)[:3000], secs
        o.path = "".join("T" if b else "F" for b in self.trace)
        self.obligations.append(o)
        return o

    def oblige(self, name, goal, extra=()):
        t0 = time.time()
        r = P.prove(goal, self.pc + list(extra), self.rules, self.zfacts, timeout=self.timeout)
        o = self.record(name, r.status, r.how, r.info, time.time() - t0)
        return r.status == "proved"


def _where():
    tb = sys.exc_info()[2]
    fr = traceback.extract_tb(tb)
    best = None
    for f in fr:
        if "/repo/" in f.filename or "datafold" in f.filename:
            best = f
    last = fr[-1] if fr else None
    if best is None:
        best = last
    return f"{last.filename}:{last.lineno} (repo line {best.filename}:{best.lineno})" if best else "?"


def E():
    e = Engine.cur
    if e is None:
        raise Unsupported("no active path")
    return e

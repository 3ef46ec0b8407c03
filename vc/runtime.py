"""Call dispatch and hooks injected into the instrumented modules."""
import functools
import types

import numpy as np

from . import models as M
from .arrays import SArr, SBool, SNum, Sym, mknum
from .engine import E, Engine, PathEnd
from .loops import SymLoop
from .models import MODELS, SList, SRange
from .terms import Unsupported, fresh_name, var, ge, lt

STUBS = {}  # real function object -> contract replacement (set per contract)
EXTRA_SYM = (Sym,)


def is_sym(x, depth=0):
    if isinstance(x, EXTRA_SYM):
        return True
    t = type(x)
    if t in (list, tuple, set):
        if depth > 3:
            return False
        for y in x if len(x) <= 64 else list(x)[:64]:
            if is_sym(y, depth + 1):
                return True
        return False
    if t is dict:
        if depth > 3:
            return False
        for y in x.values():
            if is_sym(y, depth + 1):
                return True
        return False
    if t is slice:
        return is_sym(x.start) or is_sym(x.stop) or is_sym(x.step)
    if t is np.ndarray and x.dtype == object:
        return any(is_sym(y, depth + 1) for y in x.ravel()[:64])
    return hasattr(t, "_vc_sym")


_MUTATORS = {'append', 'extend', 'insert', 'update', 'pop', 'setdefault', 'add', 'remove', 'clear', 'popitem', 'sort', 'reverse'}
_SAFE_METHOD_SELF = (list, dict, set, tuple, str)


def call(f, *args, **kw):
    e = Engine.cur
    if e is None:
        return f(*args, **kw)
    if e.loop_stack and isinstance(f, types.BuiltinMethodType) and type(f.__self__) in (list, dict, set) and f.__name__ in _MUTATORS:
        if f.__name__ == "append" and type(f.__self__) is list:
            for lp in e.loop_stack:
                lp.on_append(f.__self__, args[0])
        elif any(v is f.__self__ for lp in e.loop_stack for v in lp.start_vals.values()):
            raise Unsupported(f"{f.__name__} on a container inside a symbolic loop")
    st = e.stubs
    if st:
        try:
            g = st.get(getattr(f, "__func__", f))
        except TypeError:
            g = None
        if g is not None and not getattr(e, "_in_stub", False):
            if isinstance(f, types.MethodType):
                return g(f.__self__, *args, **kw)
            return g(*args, **kw)
    sym = False
    for a in args:
        if is_sym(a):
            sym = True
            break
    if not sym:
        for a in kw.values():
            if is_sym(a):
                sym = True
                break
    if not sym:
        if f is np.empty:  # contents are arbitrary, not zero
            return f(*args, **kw)
        return f(*args, **kw)
    try:
        m = MODELS.get(f)
    except TypeError:
        m = None
    if m is not None:
        return m(*args, **kw)
    if M.METHOD_MODELS and isinstance(f, types.MethodType):
        m = M.METHOD_MODELS.get(f.__func__)
        if m is not None:
            return m(f.__self__, *args, **kw)
    if isinstance(f, functools.partial):
        return call(f.func, *f.args, *args, **{**f.keywords, **kw})
    s = getattr(f, "__self__", None)
    if s is not None and not isinstance(s, types.ModuleType):
        if isinstance(s, Sym) or hasattr(type(s), "_vc_sym"):
            return f(*args, **kw)
        if isinstance(s, _SAFE_METHOD_SELF):
            return f(*args, **kw)
        if isinstance(s, np.ndarray):
            am = M.ARR_METHODS.get(f.__name__)
            if f.__name__ == "dot":
                return M.as_arr(s).dot(*args, **kw)
            if am is None:
                raise Unsupported(f"ndarray.{f.__name__} with symbolic arguments")
            return am(M.as_arr(s), *args, **kw)
        if isinstance(s, (np.random.Generator, np.random.RandomState)) and f.__name__ == "permutation" and isinstance(args[0], SNum):
            return M.rng_permutation(args[0])
        if isinstance(s, np.random.Generator) or isinstance(s, np.random.RandomState):
            raise Unsupported("random generator with symbolic arguments")
    if isinstance(f, np.ufunc) or (getattr(f, "__module__", None) or "").split(".")[0] in ("numpy",):
        raise Unsupported(f"no model for numpy function {getattr(f, '__name__', f)}")
    mod = getattr(f, "__module__", None) or ""
    root = mod.split(".")[0]
    if isinstance(f, type):
        hook = CLASS_MODELS.get(f)
        if hook is not None:
            return hook(*args, **kw)
        for base in f.__mro__[1:]:
            hook = CLASS_MODELS.get(base)
            if hook is not None and getattr(hook, "_subclasses", False):
                return hook(*args, _cls=f, **kw)
        if root in ("datafold", "builtins", "functools", "collections", "contracts"):
            return f(*args, **kw)
        if issubclass(f, BaseException):
            return f(*args, **kw)
        raise Unsupported(f"constructor {mod}.{f.__name__} with symbolic arguments")
    if root in ("datafold", "contracts", "vc", "findiff", "copy", "functools", "warnings", "operator", "__main__", "contextlib"):
        return f(*args, **kw)
    if isinstance(f, types.FunctionType) and f.__code__.co_filename.startswith(("/repo", "/verif")):
        return f(*args, **kw)
    if isinstance(f, (Sym,)) or hasattr(type(f), "_vc_sym"):
        return f(*args, **kw)
    if hasattr(type(f), "__call__") and type(f).__module__.split(".")[0] in ("datafold", "contracts"):
        return f(*args, **kw)
    # bound methods of sklearn / pandas base classes executed on datafold objects
    raise Unsupported(f"no contract model for {mod}.{getattr(f, '__qualname__', f)} with symbolic arguments")


CLASS_MODELS = {}


def hook_iter(x):
    if isinstance(x, (SRange, SList)):
        v = x.n.as_int()
        return [x.at(i) for i in range(v)] if v is not None else x
    if isinstance(x, SArr):
        v = x._shape[0].as_int()
        return [x[i] for i in range(v)] if v is not None else x
    h = getattr(x, "_vc_iter", None)
    if h is not None and Engine.cur is not None:
        return hook_iter(h())
    return x


def hook_issym(x):
    return isinstance(x, (SRange, SList, SArr)) and Engine.cur is not None


def hook_loop(it, lid, getters, flags):
    return SymLoop(it, lid, getters, flags)


def hook_comp(fn, it, kind):
    it = hook_iter(it)
    if not hook_issym(it):
        if kind == "gen":
            return (fn(x) for x in it)
        return [fn(x) for x in it]
    s = M.as_slist(it)

    def at(k):
        e = E()
        p = M.P_(k)
        v = p.as_atom()
        if v is not None and v.kind == "V" and v.args[0] in e.binders:
            return fn(s.at(k))
        return fn(s.at(k))

    # evaluate once on a generic element so that exceptions / effects are seen
    nm = fresh_name("g")
    e = E()
    e.binders.append(nm)
    try:
        k = var(nm, "I")
        with M.hyp(ge(k, 0), lt(k, s.n)):
            at(mknum(k, "int"))
    finally:
        e.binders.pop()
    return SList(s.n, at)


def hook_enter(name, attrs=False):
    e = Engine.cur
    if e is not None:
        e.functions.add(name)
        if attrs and e.loop_stack:
            raise Unsupported(f"{name} assigns attributes inside a symbolic loop")


HOOKS = {
    "_VC_call": call,
    "_VC_iter": hook_iter,
    "_VC_issym": hook_issym,
    "_VC_loop": hook_loop,
    "_VC_comp": hook_comp,
    "_VC_enter": hook_enter,
}

"""Imports datafold from /repo's current source through a mechanical AST instrumentation.

What the instrumentation does (and nothing else):
  * every call ``f(a, ...)`` becomes ``_VC_call(f, a, ...)`` which simply calls ``f`` when no
    symbolic value is involved, and otherwise dispatches library functions to their
    contract models (datafold's own functions are executed, or replaced by their contract
    when one is registered for modular verification);
  * ``for`` loops and single-generator comprehensions get a hook that is the identity for
    concrete iterables and applies the loop rule for symbolic ones;
  * ``x is y`` / ``x is not y`` are left alone.
No statement is dropped.
"""
import ast
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys

REPO = os.environ.get("VC_REPO", "/repo")
NO_WRAP = {"super", "locals", "globals", "vars", "dir", "eval", "exec"}


class Tr(ast.NodeTransformer):
    def __init__(self, modname):
        self.mod = modname
        self.fstack = []
        self.cstack = []
        self.n = 0
        self.locals = []

    def qual(self):
        return ".".join(self.fstack) or "<module>"

    def visit_FunctionDef(self, node):
        # decorators and defaults are evaluated in the enclosing scope
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        node.args = self.visit(node.args)
        self.fstack.append(node.name)
        self.cstack.append("f")
        self.locals.append(_stored(node.body) | {a.arg for a in node.args.posonlyargs + node.args.args + node.args.kwonlyargs})
        body = []
        for i, s in enumerate(node.body):
            r = self.visit(s)
            body.extend(r if isinstance(r, list) else [r])
        enter = ast.Expr(
            ast.Call(
                ast.Name("_VC_enter", ast.Load()),
                [ast.Constant(f"{self.mod}:{self.qual()}"), ast.Constant(node.name != "__init__" and _attr_stores(node.body))],
                [],
            )
        )
        # keep the docstring first
        k = 1 if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) and isinstance(body[0].value.value, str) else 0
        if not _is_generator(node):
            body.insert(k, enter)
        node.body = body
        self.fstack.pop()
        self.cstack.pop()
        self.locals.pop()
        return node

    def visit_ClassDef(self, node):
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        self.fstack.append(node.name)
        self.cstack.append("c")
        node.body = _flat(self.visit(s) for s in node.body)
        self.fstack.pop()
        self.cstack.pop()
        return node

    def visit_Call(self, node):
        self.generic_visit(node)
        if isinstance(node.func, ast.Name) and node.func.id in NO_WRAP:
            return node
        return ast.Call(ast.Name("_VC_call", ast.Load()), [node.func] + node.args, node.keywords)

    def visit_For(self, node):
        if self.cstack[-1:] != ["f"]:
            return self.generic_visit(node)
        self.n += 1
        lid = f"{self.mod}:{self.qual()}#{self.n}"
        stored = sorted(_stored(node.body) | _stored_t(node.target))
        appended = _appended(node.body) & self.locals[-1]
        flags = _flags(node.body)
        stored_all = sorted(set(stored) | appended)
        it = self.visit(node.iter)
        body = _flat(self.visit(s) for s in node.body)
        orelse = _flat(self.visit(s) for s in node.orelse)
        import copy

        i = self.n
        itn = f"_VC_it{i}"
        ln = f"_VC_l{i}"
        hn = f"_VC_h{i}"
        assign = ast.Assign([ast.Name(itn, ast.Store())], ast.Call(ast.Name("_VC_iter", ast.Load()), [it], []))
        plain = ast.For(node.target, ast.Name(itn, ast.Load()), body, orelse)
        getters = ast.Dict(
            [ast.Constant(s) for s in stored_all],
            [ast.Lambda(ast.arguments([], [], None, [], [], None, []), ast.Name(s, ast.Load())) for s in stored_all],
        )
        mkloop = ast.Assign(
            [ast.Name(ln, ast.Store())],
            ast.Call(ast.Name("_VC_loop", ast.Load()), [ast.Name(itn, ast.Load()), ast.Constant(lid), getters, ast.Constant(flags)], []),
        )

        def loads(holder, skip=()):
            out = []
            for s in stored_all:
                if s in skip:
                    continue
                out.append(
                    ast.If(
                        ast.Compare(ast.Constant(s), [ast.In()], [ast.Name(holder, ast.Load())]),
                        [
                            ast.Assign(
                                [ast.Name(s, ast.Store())],
                                ast.Subscript(ast.Name(holder, ast.Load()), ast.Constant(s), ast.Load()),
                            )
                        ],
                        [],
                    )
                )
            return out

        tgt = ast.Assign([copy.deepcopy(node.target)], ast.Subscript(ast.Name(hn, ast.Load()), ast.Constant("__item__"), ast.Load()))
        sbody = loads(hn) + [tgt] + copy.deepcopy(body)
        sym = ast.For(ast.Name(hn, ast.Store()), ast.Name(ln, ast.Load()), sbody, [])
        after = ast.Assign([ast.Name(hn, ast.Store())], ast.Attribute(ast.Name(ln, ast.Load()), "final", ast.Load()))
        symblock = [mkloop, sym, after] + loads(hn) + copy.deepcopy(orelse)
        test = ast.Call(ast.Name("_VC_issym", ast.Load()), [ast.Name(itn, ast.Load())], [])
        return [assign, ast.If(test, symblock, [plain])]

    def visit_Global(self, node):
        return node

    def _comp(self, node, kind):
        if len(node.generators) != 1 or self.cstack[-1:] != ["f"]:
            return self.generic_visit(node)
        g = node.generators[0]
        if g.ifs or g.is_async:
            return self.generic_visit(node)
        if _has_walrus(node):
            return self.generic_visit(node)
        it = self.visit(g.iter)
        elt = self.visit(node.elt)
        # lambda target: elt ; tuple targets via *-unpacking lambda
        self.n += 1
        names = sorted(_stored_t(g.target))
        if isinstance(g.target, ast.Name):
            lam = ast.Lambda(ast.arguments([], [ast.arg(g.target.id)], None, [], [], None, []), elt)
        else:
            # [elt for (x, y) in ..] -> lambda __t: [elt for (x, y) in [__t]][0]
            inner = ast.ListComp(elt, [ast.comprehension(g.target, ast.List([ast.Name("_VC_t", ast.Load())], ast.Load()), [], 0)])
            lam = ast.Lambda(
                ast.arguments([], [ast.arg("_VC_t")], None, [], [], None, []),
                ast.Subscript(inner, ast.Constant(0), ast.Load()),
            )
        return ast.Call(ast.Name("_VC_comp", ast.Load()), [lam, it, ast.Constant(kind)], [])

    def visit_ListComp(self, node):
        return self._comp(node, "list")

    def visit_GeneratorExp(self, node):
        return self._comp(node, "gen")


def _flat(it):
    out = []
    for x in it:
        if isinstance(x, list):
            out.extend(x)
        elif x is not None:
            out.append(x)
    return out


def _has_walrus(node):
    return any(isinstance(n, (ast.NamedExpr, ast.Yield, ast.YieldFrom, ast.Await)) for n in ast.walk(node))


def _is_generator(fn):
    todo = list(fn.body)
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        todo.extend(ast.iter_child_nodes(n))
    return False


def _stored_t(t):
    return {n.id for n in ast.walk(t) if isinstance(n, ast.Name)}


def _stored(stmts):
    out = set()
    todo = list(stmts)
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            out.add(n.name)
            continue
        if isinstance(n, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            continue
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            out.add(n.id)
        todo.extend(ast.iter_child_nodes(n))
    return out


class Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        path = self.get_filename(fullname)
        with open(path, "rb") as f:
            src = f.read()
        tree = ast.parse(src, path)
        tree = Tr(fullname).visit(tree)
        ast.fix_missing_locations(tree)
        return compile(tree, path, "exec", dont_inherit=True)

    def exec_module(self, module):
        from . import runtime

        for k, v in runtime.HOOKS.items():
            module.__dict__[k] = v
        super().exec_module(module)


class Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path=None, target=None):
        if name != "datafold" and not name.startswith("datafold."):
            return None
        rel = name.replace(".", "/")
        for cand, pkg in ((f"{REPO}/{rel}/__init__.py", True), (f"{REPO}/{rel}.py", False)):
            if os.path.exists(cand):
                return importlib.util.spec_from_file_location(
                    name, cand, loader=Loader(name, cand), submodule_search_locations=[os.path.dirname(cand)] if pkg else None
                )
        return None


def install():
    if any(isinstance(f, Finder) for f in sys.meta_path):
        return
    for k in [k for k in sys.modules if k == "datafold" or k.startswith("datafold.")]:
        del sys.modules[k]
    sys.path[:] = [p for p in sys.path if p.rstrip("/") != REPO]
    sys.meta_path.insert(0, Finder())


def _walk_local(stmts):
    todo = list(stmts)
    while todo:
        n = todo.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Lambda)):
            continue
        todo.extend(ast.iter_child_nodes(n))


def _attr_stores(stmts):
    return any(isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)) for n in _walk_local(stmts))


def _appended(stmts):
    out = set()
    for n in _walk_local(stmts):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "append" and isinstance(n.func.value, ast.Name):
            out.add(n.func.value.id)
    return out


def _flags(stmts):
    fl = set()

    def walk(n, inner):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Lambda)):
            return
        if isinstance(n, ast.Return):
            fl.add("return")
        if isinstance(n, ast.Break) and not inner:
            fl.add("break")
        if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)):
            fl.add("attribute assignment")
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("append", "extend", "update", "insert") and not isinstance(n.func.value, ast.Name):
            fl.add("append to attribute")
        inner = inner or isinstance(n, (ast.For, ast.While))
        for c in ast.iter_child_nodes(n):
            walk(c, inner)

    for s in stmts:
        walk(s, False)
    return tuple(sorted(fl))

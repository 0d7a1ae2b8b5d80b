"""Instrumented loading of the code under test.

Modules of the selected packages are loaded from their current source through
an AST rewrite that routes the operations Python cannot overload (calls into C
code, `in`, `%`, subscripts, f-strings) through symx.models.  Nothing else in
the code is changed: control flow, data structures and exceptions are Python's
own.  No bytecode is cached."""
import ast
import builtins
import importlib.abc
import importlib.machinery
import os
import sys

from . import models

SKIP_CALL = {"super", "locals", "globals", "vars", "dir", "eval", "exec", "__import__"}


def name(n):
    return ast.Name(id=n, ctx=ast.Load())


def call(fn, *args):
    return ast.Call(func=name(fn), args=list(args), keywords=[])


class Rewriter(ast.NodeTransformer):
    def __init__(self, module, track):
        self.module = module
        self.stack = []
        self.track = track
        self.cls = []

    # annotations stay as they are
    def visit_arg(self, node):
        return node

    def visit_AnnAssign(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        node.target = self.visit(node.target)
        return node

    def _fn(self, node):
        self.stack.append(node.name)
        node.decorator_list = [d for d in node.decorator_list]
        node.args.defaults = [self.visit(d) for d in node.args.defaults]
        node.args.kw_defaults = [self.visit(d) if d is not None else None for d in node.args.kw_defaults]
        body = []
        for st in node.body:
            r = self.visit(st)
            if isinstance(r, list):
                body.extend(r)
            elif r is not None:
                body.append(r)
        if self.track:
            at = 0
            if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant):
                at = 1
            q = self.module + "." + ".".join(self.stack)
            body.insert(at, ast.Expr(call("_sx_enter_", ast.Constant(q))))
        node.body = body
        self.stack.pop()
        return node

    visit_FunctionDef = _fn
    visit_AsyncFunctionDef = _fn

    def visit_ClassDef(self, node):
        self.stack.append(node.name)
        self.cls.append(node.name)
        node.body = [x for st in node.body for x in self._flat(self.visit(st))]
        self.cls.pop()
        self.stack.pop()
        return node

    @staticmethod
    def _flat(r):
        if r is None:
            return []
        return r if isinstance(r, list) else [r]

    def _mangle(self, attr):
        if self.cls and attr.startswith("__") and not attr.endswith("__"):
            return "_%s%s" % (self.cls[-1].lstrip("_"), attr)
        return attr

    def visit_Call(self, node):
        if isinstance(node.func, ast.Name) and node.func.id in SKIP_CALL:
            return self.generic_visit(node)
        if isinstance(node.func, ast.Attribute):
            obj = self.visit(node.func.value)
            args = [self.visit(a) for a in node.args]
            kws = [ast.keyword(arg=k.arg, value=self.visit(k.value)) for k in node.keywords]
            return ast.copy_location(
                ast.Call(
                    func=name("_sx_m_"),
                    args=[obj, ast.Constant(self._mangle(node.func.attr))] + args,
                    keywords=kws,
                ),
                node,
            )
        f = self.visit(node.func)
        args = [self.visit(a) for a in node.args]
        kws = [ast.keyword(arg=k.arg, value=self.visit(k.value)) for k in node.keywords]
        return ast.copy_location(ast.Call(func=name("_sx_c_"), args=[f] + args, keywords=kws), node)

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return ast.copy_location(call("_sx_mod_", node.left, node.right), node)
        if isinstance(node.op, ast.Mult):
            return ast.copy_location(call("_sx_mul_", node.left, node.right), node)
        return node

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.In, ast.NotIn)):
            fn = "_sx_in_" if isinstance(node.ops[0], ast.In) else "_sx_nin_"
            return ast.copy_location(call(fn, node.left, node.comparators[0]), node)
        return node

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load):
            key = node.slice
            if isinstance(key, ast.Slice):
                none = ast.Constant(None)
                key = ast.Call(
                    func=name("slice"), args=[key.lower or none, key.upper or none, key.step or none], keywords=[]
                )
            elif isinstance(key, ast.Tuple) and any(isinstance(e, (ast.Slice, ast.Starred)) for e in key.elts):
                return node
            return ast.copy_location(call("_sx_get_", node.value, key), node)
        if not isinstance(node.slice, ast.Slice):
            node.value = ast.copy_location(call("_sx_w_", node.value), node)
        return node

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                spec = ast.Constant(None)
                if v.format_spec is not None:
                    spec = self.visit(v.format_spec)
                parts.append(
                    ast.Tuple(elts=[self.visit(v.value), ast.Constant(v.conversion), spec], ctx=ast.Load())
                )
        return ast.copy_location(call("_sx_f_", *parts), node)

    def _loop(self, node):
        self.generic_visit(node)
        node.body.insert(0, ast.copy_location(ast.Expr(call("_sx_loop_")), node))
        return node

    visit_While = _loop
    visit_For = _loop


class Loader(importlib.machinery.SourceFileLoader):
    track = True

    def get_code(self, fullname):
        path = self.get_filename(fullname)
        with open(path, "rb") as f:
            src = f.read()
        tree = ast.parse(src, path)
        future = [s for s in tree.body if isinstance(s, ast.ImportFrom) and s.module == "__future__"]
        tree = Rewriter(fullname, self.track).visit(tree)
        ast.fix_missing_locations(tree)
        return compile(tree, path, "exec", dont_inherit=True)


class HarnessLoader(Loader):
    track = False


class Finder(importlib.abc.MetaPathFinder):
    def __init__(self, roots):
        # roots: {package: (directory holding it, loader class)}
        self.roots = roots

    def find_spec(self, fullname, path=None, target=None):
        top = fullname.split(".")[0]
        r = self.roots.get(top)
        if r is None:
            return None
        base, loader = r
        p = os.path.join(base, *fullname.split("."))
        for cand, pkg in ((os.path.join(p, "__init__.py"), True), (p + ".py", False)):
            if os.path.isfile(cand):
                spec = importlib.machinery.ModuleSpec(fullname, loader(fullname, cand), origin=cand, is_package=pkg)
                if pkg:
                    spec.submodule_search_locations = [p]
                spec.has_location = True
                return spec
        return None


def install(roots):
    for n in ("c", "m", "mod", "mul", "in", "nin", "get", "w", "f", "loop", "enter"):
        setattr(builtins, "_sx_" + n + "_", getattr(models, "sx_" + n))
    sys.meta_path.insert(0, Finder(roots))

"""Mechanical instrumentation: `toughio_vc.*` is /repo's own source, AST-rewritten on load.

What the rewriting does (and all it does): inside function bodies, comparison, boolean
operators, conditional expressions, calls, item access and filtered dict comprehensions go
through pyvc.hooks, which fall back to the very same Python operation on ordinary values;
`import numpy`/`json` bind facades.  Statements, control flow, names and constants are kept.
Nothing is dropped.
"""
import ast
import importlib.abc
import importlib.util
import os
import sys

PKG = "toughio_vc"

_CMP = {ast.Eq: "eq", ast.NotEq: "ne", ast.Lt: "lt", ast.LtE: "le", ast.Gt: "gt", ast.GtE: "ge",
        ast.Is: "is_", ast.IsNot: "isnot", ast.In: "in_", ast.NotIn: "notin"}

_BAD = (ast.Yield, ast.YieldFrom, ast.Await, ast.NamedExpr)


def _has_bad(node):
    return any(isinstance(n, _BAD) for n in ast.walk(node))


def _zero_super(node):
    return any(isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "super"
               for n in ast.walk(node))


def _vc(name):
    return ast.Attribute(value=ast.Name(id="__vc__", ctx=ast.Load()), attr=name, ctx=ast.Load())


def _call(name, *args):
    return ast.Call(func=_vc(name), args=list(args), keywords=[])


def _lam(body):
    return ast.Lambda(args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[],
                                         defaults=[], vararg=None, kwarg=None), body=body)


class Rewriter(ast.NodeTransformer):
    def __init__(self):
        self.depth = 0

    def visit_FunctionDef(self, node):
        node.decorator_list = [self.visit(d) for d in node.decorator_list] if self.depth else node.decorator_list
        self.depth += 1
        node.body = self._stmts(node.body)
        self.depth -= 1
        return node

    def _stmts(self, body):
        out = []
        for s in body:
            r = self.visit(s)
            out.extend(r if isinstance(r, list) else [r])
        return out

    def visit_Lambda(self, node):
        self.depth += 1
        node.body = self.visit(node.body)
        self.depth -= 1
        return node

    def visit_ClassDef(self, node):
        d, self.depth = self.depth, 0
        node.body = self._stmts(node.body)
        self.depth = d
        return node

    def visit_Import(self, node):
        out = []
        rest = []
        for a in node.names:
            if a.name in ("numpy", "json"):
                out.append(ast.Assign(targets=[ast.Name(id=a.asname or a.name, ctx=ast.Store())],
                                      value=_vc("np" if a.name == "numpy" else "json")))
            else:
                rest.append(a)
        if rest:
            node.names = rest
            out.insert(0, node)
        return [ast.copy_location(n, node) for n in out]

    def visit_Compare(self, node):
        self.generic_visit(node)
        if not self.depth:
            return node
        names = [_CMP.get(type(o)) for o in node.ops]
        if len(names) == 1:
            r = _call(names[0], node.left, node.comparators[0])
        else:
            if _has_bad(node):
                return node
            r = _call("chain", ast.Tuple(elts=[ast.Constant(value=n) for n in names], ctx=ast.Load()),
                      _lam(node.left), *[_lam(c) for c in node.comparators])
        return ast.copy_location(r, node)

    def visit_BoolOp(self, node):
        self.generic_visit(node)
        if not self.depth or _has_bad(node) or _zero_super(node):
            return node
        r = _call("and_" if isinstance(node.op, ast.And) else "or_", node.values[0],
                  *[_lam(v) for v in node.values[1:]])
        return ast.copy_location(r, node)

    def visit_UnaryOp(self, node):
        self.generic_visit(node)
        if not self.depth or not isinstance(node.op, ast.Not):
            return node
        return ast.copy_location(_call("not_", node.operand), node)

    def visit_IfExp(self, node):
        self.generic_visit(node)
        if not self.depth or _has_bad(node) or _zero_super(node):
            return node
        return ast.copy_location(_call("ifexp", node.test, _lam(node.body), _lam(node.orelse)), node)

    def visit_Call(self, node):
        self.generic_visit(node)
        if not self.depth:
            return node
        f = node.func
        if isinstance(f, ast.Name) and f.id in ("super", "locals", "globals", "vars", "dir", "eval", "exec"):
            return node
        if isinstance(f, ast.Name):
            node.func = ast.copy_location(_call("fn", f), f)
        elif isinstance(f, ast.Attribute):
            if isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == "super":
                return node
            if isinstance(f.value, ast.Name) and f.value.id == "__vc__":
                return node
            node.func = ast.copy_location(_call("meth", f.value, ast.Constant(value=f.attr)), f)
        else:
            node.func = ast.copy_location(_call("fn", f), f)
        return node

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if not self.depth or not isinstance(node.ctx, ast.Load) or isinstance(node.slice, ast.Slice):
            return node
        if any(isinstance(n, ast.Slice) for n in ast.walk(node.slice)):
            return node
        if isinstance(node.slice, ast.Starred):
            return node
        return ast.copy_location(_call("getitem", node.value, node.slice), node)

    def visit_DictComp(self, node):
        simple = (len(node.generators) == 1 and node.generators[0].ifs
                  and not _has_bad(node) and not node.generators[0].is_async)
        self.generic_visit(node)
        if not self.depth or not simple:
            return node
        g = node.generators[0]
        cond = g.ifs[0] if len(g.ifs) == 1 else _call("and_", g.ifs[0], *[_lam(x) for x in g.ifs[1:]])
        gen = ast.GeneratorExp(
            elt=ast.Tuple(elts=[cond, _lam(node.key), _lam(node.value)], ctx=ast.Load()),
            generators=[ast.comprehension(target=g.target, iter=_call("ditems", g.iter), ifs=[], is_async=0)])
        return ast.copy_location(_call("dictcomp", gen), node)


PURE = {}   # code key -> bool


class _Purity(ast.NodeVisitor):
    """Functions made only of local assignments, conditionals, try and return."""
    OK = (ast.Assign, ast.Return, ast.If, ast.Expr, ast.Try, ast.ExceptHandler, ast.Pass, ast.AugAssign,
          ast.For, ast.While, ast.Raise, ast.Continue, ast.Break, ast.ListComp, ast.GeneratorExp)

    @classmethod
    def pure(cls, fn):
        for n in ast.walk(fn):
            if n is fn:
                continue
            if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Global, ast.Nonlocal, ast.With, ast.Delete,
                              ast.Import, ast.ImportFrom) + _BAD):
                return False
            if isinstance(n, (ast.Attribute, ast.Subscript)) and not isinstance(n.ctx, ast.Load):
                return False
        return True


def transform(src, filename):
    tree = ast.parse(src, filename)
    for n in ast.walk(tree):
        if isinstance(n, ast.FunctionDef):
            line = min([n.lineno] + [d.lineno for d in n.decorator_list])
            PURE[(filename, n.name, line)] = _Purity.pure(n)
    tree = Rewriter().visit(tree)
    # bind the hooks before anything else (after __future__ imports and docstring)
    i = 0
    while i < len(tree.body) and (
            (isinstance(tree.body[i], ast.Expr) and isinstance(tree.body[i].value, ast.Constant))
            or (isinstance(tree.body[i], ast.ImportFrom) and tree.body[i].module == "__future__")):
        i += 1
    imp = ast.parse("from pyvc import hooks as __vc__").body[0]
    tree.body.insert(i, imp)
    ast.fix_missing_locations(tree)
    return tree


class Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def __init__(self, root):
        self.root = root
        self.loaded = {}

    def find_spec(self, name, path, target=None):
        if name != PKG and not name.startswith(PKG + "."):
            return None
        rel = name.split(".")[1:]
        base = os.path.join(self.root, *rel)
        if os.path.isdir(base) and os.path.exists(os.path.join(base, "__init__.py")):
            fn = os.path.join(base, "__init__.py")
            return importlib.util.spec_from_file_location(name, fn, loader=self,
                                                          submodule_search_locations=[base])
        fn = base + ".py"
        if os.path.exists(fn):
            return importlib.util.spec_from_file_location(name, fn, loader=self)
        return None

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        fn = module.__spec__.origin
        with open(fn, "rb") as f:
            src = f.read()
        import hashlib
        self.loaded[fn] = hashlib.sha256(src).hexdigest()
        # version files read through importlib metadata etc. are fine natively
        tree = transform(src.decode("utf-8"), fn)
        code = compile(tree, fn, "exec", dont_inherit=True)
        exec(code, module.__dict__)


FINDER = None


def install(root):
    global FINDER
    if FINDER is None:
        FINDER = Finder(root)
        sys.meta_path.insert(0, FINDER)
    return FINDER

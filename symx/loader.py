"""Import hook: instrument plaquette modules for symbolic execution (AST rewriting).

The modules are read from the current /repo/src on every run.  The rewriting keeps the
meaning of the code; it only routes a few constructs CPython does not let objects
overload (``in``, ``not``, ``isinstance``, ``int()`` ...) through symx.core.
"""
import ast
import functools
import importlib.abc
import importlib.machinery
import importlib.util
import math
import sys
import types

import numpy as np

from . import core

ENTERED = {}
SCALAR_LIFT_MODULES = ("plaquette.pauli",)
MERGE_FUNCS = {("plaquette.pauli", "multiply")}


def _enter(name):
    ENTERED[name] = ENTERED.get(name, 0) + 1


class _SX(types.SimpleNamespace):
    pass


SX = _SX(
    in_=core.sx_in,
    notin=core.sx_notin,
    not_=core.sx_not,
    ifexp=core.sx_ifexp,
    int_=core.sx_int,
    float_=core.sx_float,
    bool_=core.sx_bool,
    isinstance_=core.sx_isinstance,
    dtype=core.sx_dtype,
    enter=_enter,
)

_CALLS = {
    "int": "int_",
    "float": "float_",
    "bool": "bool_",
    "isinstance": "isinstance_",
}


def _sx(attr):
    return ast.Attribute(ast.Name("__sx__", ast.Load()), attr, ast.Load())


def _simple(n):
    if isinstance(n, (ast.Constant, ast.Name)):
        return True
    if isinstance(n, ast.UnaryOp):
        return _simple(n.operand)
    if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub, ast.Mult, ast.BitXor)):
        return _simple(n.left) and _simple(n.right)
    return False


class Rewrite(ast.NodeTransformer):
    def __init__(self, mod):
        self.mod = mod
        self.stack = []

    def _fn(self, node):
        self.stack.append(node.name)
        q = ".".join(self.stack)
        # do not rewrite annotations / defaults / decorators
        node.body = [self.visit(s) for s in node.body]
        call = ast.Expr(
            ast.Call(_sx("enter"), [ast.Constant(f"{self.mod}:{q}")], [])
        )
        i = 0
        if (
            node.body
            and isinstance(node.body[0], ast.Expr)
            and isinstance(node.body[0].value, ast.Constant)
            and isinstance(node.body[0].value.value, str)
        ):
            i = 1
        node.body.insert(i, call)
        self.stack.pop()
        return node

    def visit_FunctionDef(self, node):
        return self._fn(node)

    def visit_AsyncFunctionDef(self, node):
        return self._fn(node)

    def visit_ClassDef(self, node):
        self.stack.append(node.name)
        node.body = [
            self.visit(s)
            if isinstance(s, (ast.FunctionDef, ast.ClassDef))
            else s
            for s in node.body
        ]
        self.stack.pop()
        return node

    def visit_AnnAssign(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        return node

    def visit_arguments(self, node):
        return node

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1:
            if isinstance(node.ops[0], ast.In):
                return ast.Call(_sx("in_"), [node.left, node.comparators[0]], [])
            if isinstance(node.ops[0], ast.NotIn):
                return ast.Call(_sx("notin"), [node.left, node.comparators[0]], [])
        return node

    def visit_UnaryOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Not):
            return ast.Call(_sx("not_"), [node.operand], [])
        return node

    def visit_IfExp(self, node):
        self.generic_visit(node)
        if _simple(node.body) and _simple(node.orelse):
            return ast.Call(_sx("ifexp"), [node.test, node.body, node.orelse], [])
        return node

    def visit_Attribute(self, node):
        self.generic_visit(node)
        if node.attr == "dtype" and isinstance(node.ctx, ast.Load):
            return ast.Call(_sx("dtype"), [node.value], [])
        return node

    def visit_Call(self, node):
        self.generic_visit(node)
        if isinstance(node.func, ast.Name):
            if node.func.id in _CALLS and not node.keywords:
                node.func = _sx(_CALLS[node.func.id])
            elif node.func.id == "map" and node.args:
                a = node.args[0]
                if isinstance(a, ast.Name) and a.id in ("int", "float", "bool"):
                    node.args[0] = _sx(_CALLS[a.id])
        return node


class _Loader(importlib.machinery.SourceFileLoader):
    def source_to_code(self, data, path, *, _optimize=-1):
        tree = ast.parse(data, path)
        tree = Rewrite(self.name).visit(tree)
        # module-level statements other than defs run once with concrete data
        ast.fix_missing_locations(tree)
        return compile(tree, path, "exec", dont_inherit=True)

    def get_code(self, fullname):  # never use cached bytecode
        path = self.get_filename(fullname)
        return self.source_to_code(self.get_data(path), path)

    def exec_module(self, module):
        module.__dict__["__sx__"] = SX
        super().exec_module(module)
        for k, v in list(module.__dict__.items()):
            if v is np:
                module.__dict__[k] = core.NP
            elif v is math:
                module.__dict__[k] = core.MATH
            elif getattr(v, "__module__", None) == "math" and callable(v):
                module.__dict__[k] = getattr(core.MATH, k) if hasattr(math, k) else v
        if module.__name__ in SCALAR_LIFT_MODULES:
            for k, v in list(module.__dict__.items()):
                if isinstance(v, types.FunctionType) and v.__module__ == module.__name__:
                    module.__dict__[k] = _wrap(module.__name__, k, v)


def _scalar(v):
    return v is None or isinstance(
        v, (int, float, complex, str, np.generic, core.Sym, core.SymNum)
    )


def _wrap(mod, name, fn):
    key = (mod, fn.__name__)
    memo = {}

    @functools.wraps(fn)
    def w(*args, **kw):
        if core.CTX is None:
            return fn(*args, **kw)
        if key in MERGE_FUNCS:
            if any(core.has_sym(a) for a in args) or any(
                core.has_sym(a) for a in kw.values()
            ):
                return core.CTX.run_merged(fn, args, kw)
            return fn(*args, **kw)
        if (
            args
            and not kw
            and all(_scalar(a) for a in args)
            and any(isinstance(a, core.Sym) for a in args)
            and not any(isinstance(a, core.SymNum) for a in args)
        ):
            def conc(*vals):
                k = tuple((type(v), v) for v in vals)
                if k not in memo:
                    memo[k] = fn(*vals)
                return memo[k]

            return core.lift(conc, *args)
        return fn(*args, **kw)

    return w


class _Finder(importlib.abc.MetaPathFinder):
    def __init__(self, roots):
        self.roots = roots

    def find_spec(self, name, path, target=None):
        if name != "plaquette" and not name.startswith("plaquette."):
            return None
        spec = importlib.machinery.PathFinder.find_spec(name, path or self.roots)
        if spec and isinstance(spec.loader, importlib.machinery.SourceFileLoader):
            spec.loader = _Loader(spec.loader.name, spec.loader.path)
        return spec


def install(root="/repo/src"):
    if any(m == "plaquette" or m.startswith("plaquette.") for m in sys.modules):
        raise RuntimeError("plaquette imported before instrumentation")
    sys.meta_path.insert(0, _Finder([root]))

"""Loads the code under test (and the harnesses) for symbolic execution.

The source is read from /repo on every run and only those constructs are
rewritten that Python would dispatch straight into C: dict/set displays, `in`,
methods of literal bytes/str, identity tests against True/False and bare excepts
(which must not swallow the engine's own signals).  Builtin types are replaced
by look-alikes that also recognise symbolic values."""
import ast
import builtins
import os
import sys
import types
from . import core, shims, stubs

REPO_SRC = os.environ.get("SX_REPO_SRC", "/repo/src")

C_METHODS = {"join", "startswith", "endswith", "find", "rfind", "index", "rindex", "count",
             "split", "rsplit", "partition", "replace", "strip", "lstrip", "rstrip", "get",
             "pop", "setdefault", "update", "extend", "ljust", "rjust", "removeprefix",
             "removesuffix", "remove", "add", "discard", "encode", "format"}


class Rewriter(ast.NodeTransformer):
    def __init__(self, modname, track):
        self.stack = [modname]
        self.track = track

    def _h(self, name, args, node):
        return ast.copy_location(
            ast.Call(ast.Name("__sx_%s__" % name, ast.Load()), args, []), node)

    def visit_Dict(self, node):
        self.generic_visit(node)
        keys = [ast.Constant(None) if k is None else k for k in node.keys]
        pairs = []
        for k, v in zip(node.keys, node.values):
            if k is None:
                pairs.append(ast.Tuple([ast.Constant(True), v], ast.Load()))
            else:
                pairs.append(ast.Tuple([ast.Constant(False), k, v], ast.Load()))
        return self._h("dict", pairs, node)

    def visit_Set(self, node):
        self.generic_visit(node)
        return self._h("set", [ast.List(node.elts, ast.Load())], node)

    def visit_DictComp(self, node):
        self.generic_visit(node)
        gen = ast.GeneratorExp(ast.Tuple([node.key, node.value], ast.Load()), node.generators)
        return self._h("dictof", [ast.copy_location(gen, node)], node)

    def visit_SetComp(self, node):
        self.generic_visit(node)
        gen = ast.GeneratorExp(node.elt, node.generators)
        return self._h("set", [ast.copy_location(gen, node)], node)

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1:
            op = node.ops[0]
            rhs = node.comparators[0]
            if isinstance(op, ast.In):
                return self._h("in", [node.left, rhs], node)
            if isinstance(op, ast.NotIn):
                return ast.copy_location(
                    ast.UnaryOp(ast.Not(), self._h("in", [node.left, rhs], node)), node)
            if isinstance(op, (ast.Is, ast.IsNot)) and isinstance(rhs, ast.Constant) and (
                    rhs.value is True or rhs.value is False):
                node.left = self._h("force", [node.left], node)
        return node

    def visit_Call(self, node):
        self.generic_visit(node)
        f = node.func
        if isinstance(f, ast.Attribute) and f.attr in C_METHODS and not (
                isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name)
                and f.value.func.id == "super"):
            return ast.copy_location(ast.Call(
                ast.Name("__sx_method__", ast.Load()),
                [f.value, ast.Constant(f.attr)] + node.args, node.keywords), node)
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return self._h("mod", [node.left, node.right], node)
        return node

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load) and not isinstance(node.slice, (ast.Slice, ast.Constant)):
            return self._h("item", [node.value, node.slice], node)
        return node

    def visit_JoinedStr(self, node):
        self.generic_visit(node)
        return self._h("text", [node], node)

    def visit_FormattedValue(self, node):
        node.value = self.visit(node.value)
        return node                     # a format specification stays as it is

    def visit_ExceptHandler(self, node):
        self.generic_visit(node)
        t = node.type
        bare = t is None or (isinstance(t, ast.Name) and t.id == "BaseException")
        if isinstance(t, ast.Tuple):
            bare = bare or any(isinstance(e, ast.Name) and e.id == "BaseException" for e in t.elts)
        if bare:
            call = ast.Expr(ast.Call(ast.Name("__sx_reraise__", ast.Load()), [], []))
            node.body.insert(0, ast.copy_location(call, node.body[0]))
        return node

    def _func(self, node):
        self.stack.append(node.name)
        self.generic_visit(node)
        if self.track:
            call = ast.Expr(ast.Call(ast.Name("__sx_enter__", ast.Load()),
                                     [ast.Constant(".".join(self.stack))], []))
            at = 0
            if node.body and isinstance(node.body[0], ast.Expr) and isinstance(
                    node.body[0].value, ast.Constant):
                at = 1
            node.body.insert(at, ast.copy_location(call, node.body[0]))
        self.stack.pop()
        return node

    visit_FunctionDef = _func
    visit_AsyncFunctionDef = _func

    def visit_ClassDef(self, node):
        self.stack.append(node.name)
        self.generic_visit(node)
        self.stack.pop()
        return node


_CODE = {}


def compile_file(path, modname, track):
    key = (path, track)
    if key not in _CODE:
        with open(path, encoding="utf-8") as f:
            src = f.read()
        tree = ast.parse(src, path)
        tree = Rewriter(modname, track).visit(tree)
        ast.fix_missing_locations(tree)
        _CODE[key] = compile(tree, path, "exec", dont_inherit=True)
    return _CODE[key]


class World:
    """one fresh set of instrumented modules (made anew for every path)"""

    def __init__(self, entered=None):
        self.modules = {}
        self.entered = entered if entered is not None else set()
        self.builtins = shims.make_builtins(self)
        self.builtins["__import__"] = self._import
        self.builtins["__sx_enter__"] = self.entered.add
        self.stubs = stubs.make_stubs()

    def _find(self, name):
        parts = name.split(".")
        base = os.path.join(REPO_SRC, *parts)
        if os.path.isfile(os.path.join(base, "__init__.py")):
            return os.path.join(base, "__init__.py"), True
        if os.path.isfile(base + ".py"):
            return base + ".py", False
        return None, False

    def load(self, name):
        m = self.modules.get(name)
        if m is not None:
            return m
        if "." in name:
            self.load(name.rpartition(".")[0])
        path, pkg = self._find(name)
        if path is None:
            raise ModuleNotFoundError("No module named %r" % name, name=name)
        m = types.ModuleType(name)
        m.__file__ = path
        if pkg:
            m.__path__ = [os.path.dirname(path)]
            m.__package__ = name
        else:
            m.__package__ = name.rpartition(".")[0]
        m.__dict__["__builtins__"] = self.builtins
        self.modules[name] = m
        try:
            exec(compile_file(path, name, True), m.__dict__)
        except BaseException:
            self.modules.pop(name, None)
            raise
        if "." in name:
            parent, _, child = name.rpartition(".")
            setattr(self.modules[parent], child, m)
        return m

    def load_harness(self, path, name):
        m = types.ModuleType(name)
        m.__file__ = path
        m.__package__ = "harness"
        m.__dict__["__builtins__"] = self.builtins
        self.modules["harness:" + name] = m
        exec(compile_file(path, name, False), m.__dict__)
        return m

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals.get("__package__") or ""
            if pkg == "harness" and not name:
                holder = types.SimpleNamespace()
                for n in fromlist:
                    setattr(holder, n, self._import(n, globals, locals, ("x",), 1))
                return holder
            if pkg == "harness":
                key = "harness:" + name
                if key not in self.modules:
                    self.load_harness(os.path.join(os.path.dirname(globals["__file__"]),
                                                   name + ".py"), name)
                return self.modules[key]
            parts = pkg.split(".")
            parts = parts[:len(parts) - (level - 1)]
            full = ".".join(parts + ([name] if name else []))
        else:
            full = name
        top = full.split(".")[0]
        if top == "pymt":
            m = self.load(full)
            if fromlist:
                for n in fromlist:
                    if not hasattr(m, n) and hasattr(m, "__path__") and n != "*":
                        try:
                            self.load(full + "." + n)
                        except ModuleNotFoundError:
                            pass
                return m
            return self.modules[top]
        st = self.stubs.get(full)
        if st is not None:
            return st if fromlist else self.stubs.get(top, st)
        if top in self.stubs and full != top:
            obj = self.stubs[top]
            for p in full.split(".")[1:]:
                if not hasattr(obj, p):
                    raise ModuleNotFoundError("No module named %r" % full)
                obj = getattr(obj, p)
            return obj if fromlist else self.stubs[top]
        if top in stubs.FORBIDDEN:
            raise core.Unsupported("import of " + full)
        return builtins.__import__(name, None, None, fromlist, 0)

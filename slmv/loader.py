"""Loads the source of /repo/pySLM2 itself (read on every run) and executes it on symbolic values. The syntactic rewriting is
mechanical: loops and comprehensions call the loop rules, list displays and numeric literals build modelled values."""
import ast
import builtins
import os
import sys
import types
from . import loops as L
from . import pyshim as S
from . import shim_tf
from . import shim_np
from . import shim_hw
from .ctx import cur, Unsupported
from .pyshim import Namespace

REPO = os.environ.get("SLMV_REPO", "/repo")
PKG = "pySLM2"


# ---- rewriting -----------------------------------------------------------------------------------------------------------
class Stores(ast.NodeVisitor):
    def __init__(self): self.names = []

    def visit_Name(self, n):
        if isinstance(n.ctx, (ast.Store, ast.Del)) and n.id not in self.names:
            self.names.append(n.id)

    def _scope(self, n):
        if hasattr(n, "name") and n.name not in self.names:
            self.names.append(n.name)
    visit_FunctionDef = visit_ClassDef = visit_AsyncFunctionDef = _scope

    def visit_Lambda(self, n): pass
    def visit_ListComp(self, n): pass
    visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp

    def visit_alias(self, n):
        nm = (n.asname or n.name).split(".")[0]
        if nm not in self.names:
            self.names.append(nm)

    def visit_ExceptHandler(self, n):
        self.generic_visit(n)


def stored(stmts):
    v = Stores()
    for s in stmts:
        v.visit(s)
    return v.names


def name(i, st=False):
    return ast.Name(i, ast.Store() if st else ast.Load())


def call(f, *a):
    return ast.Call(f if isinstance(f, ast.AST) else name(f), list(a), [])


def attr(o, a):
    return ast.Attribute(name(o), a, ast.Load())


class Rewrite(ast.NodeTransformer):
    def __init__(self, modname):
        self.mod, self.n, self.loops, self.qual = modname, 0, [], []
        self.globals_ = [set()]

    # functions and classes
    def _func(self, n):
        saved, self.loops = self.loops, []
        n.decorator_list = [self.visit(d) for d in n.decorator_list]
        n.args = self.visit(n.args)
        self.qual.append(n.name)
        doc = [n.body.pop(0)] if n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant) else []
        body = self.block(n.body)
        q = "%s.%s" % (self.mod, ".".join(self.qual))
        n.body = doc + [ast.Expr(call("_slmv_enter", ast.Constant(q)))] + body
        self.qual.pop()
        self.loops = saved
        return n
    visit_FunctionDef = _func

    def visit_Lambda(self, n):
        saved, self.loops = self.loops, []
        self.generic_visit(n)
        self.loops = saved
        return n

    def visit_ClassDef(self, n):
        if not n.bases:
            n.bases = [name("object")]
        self.qual.append(n.name)
        n.decorator_list = [self.visit(d) for d in n.decorator_list]
        n.bases = [self.visit(b) for b in n.bases]
        n.body = self.block(n.body)
        self.qual.pop()
        return n

    def block(self, stmts):
        out = []
        for s in stmts:
            r = self.visit(s)
            if isinstance(r, list):
                out += r
            elif r is not None:
                out.append(r)
        return out

    def generic_visit(self, n):
        for f in ("body", "orelse", "finalbody"):
            v = getattr(n, f, None)
            if isinstance(v, list):
                setattr(n, f, self.block(v))
        return self._generic(n)

    def _generic(self, n):
        for f, old in ast.iter_fields(n):
            if f in ("body", "orelse", "finalbody") and isinstance(old, list):
                continue
            if isinstance(old, list):
                new = []
                for v in old:
                    if isinstance(v, ast.AST):
                        v = self.visit(v)
                        if v is None:
                            continue
                        if isinstance(v, list):
                            new += v
                            continue
                    new.append(v)
                setattr(n, f, new)
            elif isinstance(old, ast.AST):
                setattr(n, f, self.visit(old))
        return n

    # loops
    def visit_For(self, n):
        self.n += 1
        l, item = "_slmv_l%d" % self.n, "_slmv_i%d" % self.n
        names = stored([ast.Assign([n.target], ast.Constant(None))] + n.body)
        it = self.visit(n.iter)
        self.loops.append(l)
        body = self.block(n.body)
        self.loops.pop()
        orelse = self.block(n.orelse)
        tup = lambda st: ast.Tuple([name(x, st) for x in names], ast.Store() if st else ast.Load())
        load = ast.If(attr(l, "sym"), [ast.Assign([tup(True)], call(attr(l, "load")))], [])
        ex = ast.If(attr(l, "sym"), [ast.Assign([tup(True)], call(attr(l, "exit")))], [])
        return [ast.Assign([name(l, True)], call("_slmv_for", it, ast.Constant(tuple(names)), ast.Constant(None))),
                ast.For(name(item, True), name(l), [load, ast.Assign([n.target], name(item))] + body, [ex] + orelse)]

    def visit_While(self, n):
        self.n += 1
        l, item = "_slmv_l%d" % self.n, "_slmv_i%d" % self.n
        names = stored(n.body)
        cond = self.visit(n.test)
        self.loops.append(l)
        body = self.block(n.body)
        self.loops.pop()
        orelse = self.block(n.orelse)
        noargs = ast.arguments([], [], None, [], [], None, [])
        tup = ast.Tuple([name(x, True) for x in names], ast.Store())
        asg = (lambda m: [ast.Assign([tup], call(attr(l, m)))]) if names else (lambda m: [ast.Expr(call(attr(l, m)))])
        load = ast.If(attr(l, "sym"), asg("load"), [])
        probe = ast.If(ast.Compare(name(item), [ast.Is()], [name("_slmv_probe")]),
                       [ast.Expr(call(attr(l, "probe_cond"))), ast.Continue()], [])
        ex = ast.If(attr(l, "sym"), asg("exit"), [])
        return [ast.Assign([name(l, True)], call("_slmv_while", ast.Lambda(noargs, cond), ast.Constant(tuple(names)))),
                ast.For(name(item, True), name(l), [load, probe] + body, [ex] + orelse)]

    def visit_Break(self, n):
        return [ast.Expr(call(attr(self.loops[-1], "brk"))), n] if self.loops else n

    def visit_Return(self, n):
        if n.value is not None:
            n.value = self.visit(n.value)
        return [ast.Expr(call(attr(l, "brk"))) for l in self.loops] + [n] if self.loops else n

    # comprehensions
    def _comp(self, n, fn):
        g = n.generators[0]
        simple = len(n.generators) == 1 and not g.is_async and (
            isinstance(g.target, ast.Name) or (isinstance(g.target, ast.Tuple) and all(isinstance(e, ast.Name) for e in g.target.elts)))
        if not simple:
            self._generic(n)
            return n
        it = self.visit(g.iter)
        saved, self.loops = self.loops, []
        elt = self.visit(n.elt)
        conds = [self.visit(c) for c in g.ifs]
        self.loops = saved

        def lam(body):
            args = lambda ns: ast.arguments([], [ast.arg(x) for x in ns], None, [], [], None, [])
            if isinstance(g.target, ast.Name):
                return ast.Lambda(args([g.target.id]), body)
            inner = ast.Lambda(args([e.id for e in g.target.elts]), body)
            return ast.Lambda(args(["_slmv_t"]), ast.Call(inner, [ast.Starred(name("_slmv_t"), ast.Load())], []))
        a = [it, lam(elt)]
        if conds:
            a.append(lam(conds[0] if len(conds) == 1 else ast.BoolOp(ast.And(), conds)))
        return call(fn, *a)

    def visit_ListComp(self, n): return self._comp(n, "_slmv_listcomp")
    def visit_GeneratorExp(self, n): return self._comp(n, "_slmv_genexp")

    # literals
    def visit_List(self, n):
        self._generic(n)
        return call("_slmv_list", n) if isinstance(n.ctx, ast.Load) else n

    def visit_Constant(self, n):
        if type(n.value) is float:
            return call("_slmv_f", n)
        if type(n.value) is complex:
            return call("_slmv_c", n)
        return n

    def visit_JoinedStr(self, n): return n

    def visit_ExceptHandler(self, n):
        if n.type is None:
            n.type = name("Exception")
        return self.generic_visit(n)

    def visit_match_case(self, n):
        n.body = self.block(n.body)
        return n

    def visit_AnnAssign(self, n):
        if n.value is not None:
            n.value = self.visit(n.value)
        return n


_CODE = {}


def source_path(mod):
    base = os.path.join(REPO, *mod.split("."))
    if os.path.isdir(base):
        return os.path.join(base, "__init__.py"), True
    return base + ".py", False


def code_for(mod):
    if mod in _CODE:
        return _CODE[mod]
    path, pkg = source_path(mod)
    if not os.path.exists(path):
        return None
    src = open(path, encoding="utf-8").read()
    tree = ast.parse(src, path)
    short = mod[len(PKG) + 1:] if mod != PKG else PKG
    rw = Rewrite(short)
    tree.body = rw.block(tree.body)
    ast.fix_missing_locations(tree)
    _CODE[mod] = (compile(tree, path, "exec"), path, pkg, src)
    return _CODE[mod]


# ---- modules ----------------------------------------------------------------------------------------------------------------
REAL = {"typing", "inspect", "abc", "enum", "dataclasses", "collections", "itertools", "operator", "copy", "warnings", "numbers",
        "contextlib", "__future__", "weakref", "logging", "string", "re", "fractions"}


class Universe:
    """One symbolic instance of the package (fresh module state)."""

    def __init__(self, hw=True):
        tf, np_ = shim_tf.make_tf(), shim_np.make_np()
        special, constants = shim_np.make_scipy()
        self.hw = shim_hw.Hardware()
        self.ext = {"tensorflow": tf, "numpy": np_, "math": S.make_math(), "functools": S.make_functools(),
                    "scipy": Namespace("scipy", {"special": special, "constants": constants}),
                    "os": Namespace("os", {"path": os.path, "sep": os.sep, "fspath": os.fspath}),
                    "PIL": shim_hw.make_pil(), "time": Namespace("time", {"sleep": lambda s: None}),
                    "cmath": Namespace("cmath", {}), "random": Namespace("random", {})}
        if hw:
            self.ext["ALP4"] = self.hw.alp4()
            self.ext["Luxbeam"] = self.hw.luxbeam()
        self.modules = {}
        self.builtins = dict(vars(builtins))
        self.builtins.update(S.BUILTINS)
        self.builtins.update(__import__=self.imp, _slmv_for=L.ForLoop, _slmv_while=L.WhileLoop, _slmv_probe=L.PROBE,
                             _slmv_listcomp=L.listcomp, _slmv_genexp=L.genexp, _slmv_list=L.JList, _slmv_f=S.s_fliteral,
                             _slmv_c=S.s_cliteral, _slmv_enter=enter,
                             open=lambda *a, **k: (_ for _ in ()).throw(Unsupported("open()")),
                             eval=None, exec=None, globals=None, locals=None)
        self.tf, self.np = tf, np_

    def load(self, mod):
        if mod in self.modules:
            return self.modules[mod]
        c = code_for(mod)
        if c is None:
            raise ModuleNotFoundError("No module named %r" % mod)
        if "." in mod:
            parent, leaf = mod.rsplit(".", 1)
            p = self.load(parent)
            if mod in self.modules:
                return self.modules[mod]
        m = types.ModuleType(mod)
        m.__file__ = c[1]
        m.__package__ = mod if c[2] else mod.rsplit(".", 1)[0]
        m.__builtins__ = self.builtins
        if c[2]:
            m.__path__ = [os.path.dirname(c[1])]
        self.modules[mod] = m
        exec(c[0], m.__dict__)
        if "." in mod:
            setattr(p, leaf, m)
        return m

    def imp(self, nm, globals=None, locals=None, fromlist=(), level=0):
        if level:
            base = globals["__package__"].split(".")
            base = base[:len(base) - (level - 1)]
            full = ".".join(base + ([nm] if nm else []))
        else:
            full = nm
        if full == PKG or full.startswith(PKG + "."):
            m = self.load(full)
            if not fromlist:
                return self.load(full.split(".")[0]) if not level else m
            for f in fromlist:
                if f != "*" and not hasattr(m, f) and hasattr(m, "__path__"):
                    self.load(full + "." + f)
            return m
        parts = full.split(".")
        if parts[0] in self.ext:
            o = self.ext[parts[0]]
            if fromlist:
                for p in parts[1:]:
                    o = getattr(o, p)
            return o
        if parts[0] in REAL:
            return builtins.__import__(nm, globals, locals, fromlist, 0)
        if parts[0] in ("ALP4", "Luxbeam"):
            raise ModuleNotFoundError("No module named %r" % nm)
        raise Unsupported("import of %s" % full)


def enter(q):
    c = cur()
    if c is not None:
        c.functions.add(q)

"""Runs contracts: explores every path of the real code under symbolic inputs, discharges the obligations, samples them."""
import ast
import functools
import os
import sys
import time
import traceback
import types
import numpy as np
from . import terms as T
from . import arr as A
from . import nd
from . import prove as P
from . import ctx as C
from . import loader
from . import tensors as X
from . import pyshim as S
from . import loops as L
from .arr import Cx, cx
from .ctx import Ctx, CUR, Unsupported, Infeasible
from .pyvals import PyNum, SInt, SFloat, SBool, SComplex, val, nval, pk, mk, SList
from .terms import num

HERE = os.path.dirname(os.path.abspath(__file__))
_RAISES = {}


def raise_lines(path):
    r = _RAISES.get(path)
    if r is None:
        r = set()
        try:
            for n in ast.walk(ast.parse(open(path).read())):
                if isinstance(n, (ast.Raise, ast.Assert)):
                    r.update(range(n.lineno, n.end_lineno + 1))
        except OSError:
            pass
        _RAISES[path] = r
    return r


# modules whose raise statements are those of the modelled libraries
LIBRARY = ("pyshim.py", "pyvals.py", "tensors.py", "shim_np.py", "shim_tf.py", "shim_hw.py")


def explicit(e):
    """Was this exception raised by a statement of the code (or by the modelled library), rather than by the model breaking?"""
    tb = e.__traceback__
    last = None
    while tb is not None:
        last = tb
        tb = tb.tb_next
    if last is None:
        return False
    path = last.tb_frame.f_code.co_filename
    if "/contracts/" in path or os.path.dirname(path) == os.path.dirname(HERE + "/x") and os.path.basename(path) not in LIBRARY:
        return False
    return last.tb_lineno in raise_lines(path)


def where_of(e):
    fr = traceback.extract_tb(e.__traceback__)
    keep = [f for f in fr if f.filename.startswith(loader.REPO)] or fr[-1:]
    f, last = keep[-1], fr[-1]
    s = "%s:%d" % (os.path.relpath(f.filename, loader.REPO) if f.filename.startswith(loader.REPO) else os.path.basename(f.filename), f.lineno)
    if last is not f:
        s += " [%s:%d]" % (os.path.basename(last.filename), last.lineno)
    return s


class Session:
    """What a contract works with on one path."""

    def __init__(self, ctx, contract):
        self.ctx, self.contract = ctx, contract
        self.config = ctx.config
        self.u = None
        self.pre = ""               # prefix of the names of the inputs: "past_" while an earlier use is run
        self.prec = ctx.config.get("prec", 32)
        self.FT, self.CT, self.IT = {32: ("float32", "complex64", "int32"), 64: ("float64", "complex128", "int64")}[self.prec]

    # -- the package under verification
    def package(self, set_precision=True):
        new = self.u is None
        if new:
            self.u = loader.Universe(hw=self.config.get("hw", True))
            self.m = self.u.load("pySLM2")
            self.tf, self.np = self.u.tf, self.u.np
        if set_precision:
            B = self.m.BACKEND
            if new and self.prec == 64:
                B.dtype = self.tf.float64
            fb = self.config.get("fft")
            if fb == "sym":
                b = self.int("fft_backend", 0, 1)
                B.fft_backend = b
            elif fb is not None:
                B.fft_backend = fb
        return self.m

    def module(self, name):
        return self.u.load("pySLM2." + name)

    # -- symbolic inputs
    def real(self, name, pos=False, nonzero=False, gen=None, lo=None, hi=None):
        if gen is None:
            gen = C.pos_gen() if pos or lo is not None and lo >= 0 else None
            if lo is not None and hi is not None:
                gen = lambda rng: float(rng.choice([lo, hi, rng.uniform(lo, hi), rng.uniform(lo, hi)]))
        whole = bool(self.config.get("whole"))          # the caller passes Python ints
        if whole:
            g = gen or C.default_gen("R")
            gen = lambda rng: int(np.rint(g(rng) * 2)) or int(bool(pos or nonzero))
        v = self.ctx.var(self.pre + name, "I" if whole else "R", gen)
        if pos:
            self.ctx.assume(T.lt(num(0), v))
        if nonzero:
            self.ctx.assume(T.ne(v, num(0)))
        if lo is not None:
            self.ctx.assume(T.le(num(lo), v))
        if hi is not None:
            self.ctx.assume(T.le(v, num(hi)))
        return SInt(v) if whole else SFloat(v)

    def int(self, name, lo=None, hi=None, gen=None):
        if gen is None:
            a = lo if lo is not None else -4
            b = hi if hi is not None else a + 5
            gen = C.int_gen(a, b)
        v = self.ctx.var(self.pre + name, "I", gen)
        if lo is not None:
            self.ctx.assume(T.le(num(lo), v))
        if hi is not None:
            self.ctx.assume(T.le(v, num(hi)))
        return SInt(v)

    def bool(self, name):
        return SBool(self.ctx.var(self.pre + name, "B"))

    def input(self, name, shape, dtype, gen=None, facts=None):
        comps = {"c": ("re", "im"), "f": ("v",), "i": ("i",), "b": ("b",)}[nd.kind(dtype)]
        dims = tuple(X.idx_term(nval(s)) for s in shape)
        a = A.input_array(self.pre + name, dims, comps, gen=gen, facts=facts)
        return nd.Core(dims, dtype, lambda *i: a.at(i))

    def ndarray(self, name, shape, dtype="float64", gen=None, facts=None):
        return X.NpArray(self.input(name, shape, dtype, gen, facts))

    def tensor(self, name, shape, dtype=None, gen=None, facts=None):
        return X.TfTensor(self.input(name, shape, dtype or self.FT, gen, facts))

    def idx(self, name, n, lo=0):
        return self.ctx.index(self.pre + name, T.lift(lo) if not isinstance(lo, T.Term) else lo, dim(n))

    def assume(self, t):
        self.ctx.assume(tm(t))

    def lemma(self, name, t):
        """an instance of a mathematical fact that is not derived here (listed in the evidence)"""
        self.ctx.lemmas.add(name)
        self.ctx.assume(tm(t))

    # -- obligations
    def eq(self, name, a, b):
        a, b = tm(a), tm(b)
        self.ctx.oblige_eq(name, a, b)

    def true(self, name, t):
        if isinstance(t, bool):
            self.ctx.oblige(name, T.boolean(t))
        else:
            self.ctx.oblige(name, tm(t))

    def step(self, name, t):
        """an intermediate assertion: proved, then available to the obligations after it"""
        self.true(name, t)
        if not self.pre:
            self.ctx.assume(tm(t))

    def fail(self, name, detail=""):
        self.ctx.fail(name, detail)

    def array(self, name, x, shape, dtype=None, cls=None):
        """structural obligations; returns the core or None"""
        ok = isinstance(x, (X.NpArray, X.TfBase))
        if cls == "np":
            ok = isinstance(x, X.NpArray)
        elif cls == "tf":
            ok = isinstance(x, X.TfBase)
        if not ok:
            self.fail(name + ".type", "is a %s" % type(x).__name__)
            return None
        c = x.core
        if shape is not None:
            if c.rank != len(shape):
                self.fail(name + ".rank", "has rank %d" % c.rank)
                return None
            for k, (s, w) in enumerate(zip(c.shape, shape)):
                w = dim(w)
                if s is not w:
                    self.ctx.oblige_eq("%s.shape%d" % (name, k), s, w)
        if dtype is not None:
            if c.dtype != dtype:
                self.fail(name + ".dtype", "is %s, not %s" % (c.dtype, dtype))
            else:
                self.true(name + ".dtype", True)
        return c

    def forall(self, name, x, shape, spec, dtype=None, cls=None, idx="ij"):
        """for every index: x[index] = spec(index); structural obligations included"""
        c = self.array(name, x, shape, dtype, cls)
        if c is None:
            return
        if self.pre:
            self.scribble(name, x)
            return
        ix = [self.idx("%s_%s" % (idx[k], name), s) for k, s in enumerate(shape)]
        self.ctx.oblige_eq(name, c.at(*ix), tm(spec(*ix)))

    def scribble(self, name, x):
        """the program may write anything into the array it was given"""
        if isinstance(x, X.NpArray) and x.core.rank:
            c = x.core
            x[...] = self.ndarray("written_" + name, [mk(t, "i") for t in c.shape], c.dtype)

    def past(self):
        """An arbitrary earlier use: the contract's steps on other inputs, objects that are gone afterwards, nothing obliged."""
        ctx = self.ctx
        self.pre, ctx.mute, cfg = "past_", True, self.config
        self.config = dict(cfg, **{k: w for k, w in self.contract.past_with.items() if k in cfg})
        try:
            self.contract.fn(self)
        finally:
            self.pre, ctx.mute, self.config = "", False, cfg
        ctx.events = []
        if self.u is None:
            return
        kept = reachable([x for m in self.u.modules.values() for n, x in vars(m).items() if n != "__builtins__"])
        for o in ctx.objects:
            if id(o) not in kept:
                ctx.dead[id(o)] = o

    def at(self, x, *ix):
        return x.core.at(*[tm(i) for i in ix])

    def value(self, x):
        """scalar value of a python number, NumPy scalar or rank-0 tensor"""
        if isinstance(x, (X.NpArray, X.TfBase)):
            x = X.scalar_of(x)
        if pk(x) is None:
            raise Unsupported("not a number: %s" % type(x).__name__)
        return val(x)

    # -- lifetimes
    def collect(self, *objs, live=()):
        """the program drops objs, keeping live: whatever of them only they (or a bounded cache) referred to is collected"""
        roots = [x for m in self.u.modules.values() for n, x in vars(m).items() if n != "__builtins__"]
        kept = reachable(roots + list(live))
        for i, o in reachable(objs).items():
            if i not in kept and isinstance(o, (S.SObject, X.TfVariable)):
                self.ctx.dead[i] = o

    # -- calls that may raise
    def attempt(self, f, *a, **k):
        """(value, None) or (None, exception)"""
        ctx = self.ctx
        ls, tr, j = list(ctx.loop_stack), list(ctx.traces), ctx.journal
        try:
            return f(*a, **k), None
        except Exception as e:
            ctx.loop_stack[:], ctx.traces[:] = ls, tr
            ctx.journal = j
            if not explicit(e):
                raise Unsupported("%s: %s (%s)" % (type(e).__name__, e, where_of(e))) from e
            return None, e

    def raises(self, name, kinds, f, *a, **k):
        r, e = self.attempt(f, *a, **k)
        if e is None:
            self.fail(name, "does not raise")
        elif not isinstance(e, kinds):
            self.fail(name, "raises %s: %s" % (type(e).__name__, e))
        else:
            self.true(name, True)
        return e


def reachable(roots):
    """strong references as the program's objects hold them (bounded caches and traced bound methods hold none)"""
    seen, stack = {}, list(roots)
    while stack:
        o = stack.pop()
        if o is None or isinstance(o, (str, bytes, int, float, complex, PyNum, X.NpArray, types.ModuleType)) or id(o) in seen:
            continue
        if isinstance(o, X.TfBase) and not isinstance(o, X.TfVariable):
            continue
        seen[id(o)] = o
        if isinstance(o, X.TfVariable):
            continue
        if isinstance(o, (list, tuple, set, frozenset)):
            stack.extend(list.__iter__(o) if isinstance(o, list) else iter(o))
        elif isinstance(o, dict):
            stack.extend(o.keys())
            stack.extend(o.values())
        elif isinstance(o, S.TfFunction):
            stack.append(o.f)
        elif isinstance(o, S.BoundTf):
            stack.append(o.fn)
        elif isinstance(o, types.FunctionType) and "_slmv_lru" in vars(o):
            n, keep, f = o._slmv_lru
            stack.append(f)
            if n is None:
                stack.extend(keep)
        elif isinstance(o, types.FunctionType):
            for c in o.__closure__ or ():
                try:
                    stack.append(c.cell_contents)
                except ValueError:
                    pass
            stack.extend(o.__defaults__ or ())
            stack.extend((o.__kwdefaults__ or {}).values())
        elif isinstance(o, types.MethodType):
            stack.extend([o.__self__, o.__func__])
        elif isinstance(o, functools.partial):
            stack.extend([o.func, o.args, o.keywords])
        elif isinstance(o, property):
            stack.extend([o.fget, o.fset])
        elif isinstance(o, (staticmethod, classmethod)):
            stack.append(o.__func__)
        elif isinstance(o, type):
            stack.extend(x for k, x in vars(o).items() if k not in ("__dict__", "__weakref__"))
        elif isinstance(o, S.SObject):
            stack.extend(object.__getattribute__(o, "__dict__").values())
        elif isinstance(getattr(o, "__dict__", None), dict):
            stack.extend(o.__dict__.values())
    return seen


def dim(n):
    if isinstance(n, T.Term):
        return n
    return X.idx_term(nval(n)) if isinstance(n, PyNum) else num(int(n))


def tm(x):
    """term (or Cx) of a value"""
    if isinstance(x, (T.Term, Cx)):
        return x
    if isinstance(x, PyNum):
        return val(x)
    if isinstance(x, (X.NpArray, X.TfBase)):
        return val(X.scalar_of(x))
    if isinstance(x, bool):
        return T.boolean(x)
    if isinstance(x, complex):
        return Cx(num(T.frac(x.real)), num(T.frac(x.imag)))
    if isinstance(x, float):
        return num(T.frac(x))
    return T.lift(x)


class Contract:
    def __init__(self, name, fn, configs=None, doc="", level="proof", maxpaths=150, budget=None, past=6, past_with=None, whole=2):
        self.name, self.fn, self.doc = name, fn, doc or (fn.__doc__ or "").strip()
        self.configs = configs or [{"prec": 32}, {"prec": 64}]
        self.maxpaths, self.budget = maxpaths, budget
        self.whole = whole                                                   # how many configurations are tried with whole numbers
        self.past = past                                                     # how many configurations are tried after an earlier use
        self.past_with = {"fft": 0} if past_with is None else past_with      # and with which settings that use is made

    def tasks(self):
        """the configurations, and some of them again after an arbitrary earlier use"""
        a = [c for c in self.configs if c.get("prec") == self.configs[0].get("prec")]
        n = min(self.past, len(a))
        w = min(self.whole, len(a))
        return list(self.configs) + [dict(a[k * len(a) // n], past=1 + k % 2) for k in range(n)] + [dict(a[(2 * k + 1) * len(a) // (2 * w)], whole=1) for k in range(w)]


def run_path(con, config, prefix):
    ctx = Ctx(prefix, config)
    CUR[0] = ctx
    s = Session(ctx, con)
    status, detail = "ok", ""
    try:
        if config.get("past"):
            s.past()
        con.fn(s)
    except Infeasible:
        status = "infeasible"
    except Unsupported as e:
        status, detail = "unsupported", "%s (%s)" % (e, where_of(e))
    except RecursionError as e:
        status, detail = "unsupported", "recursion"
    except Exception as e:
        if explicit(e):
            ctx.loop_stack, ctx.journal, ctx.traces, ctx.init_scope = [], None, [], 0
            ctx.fail("no-exception", "%s: %s at %s" % (type(e).__name__, e, where_of(e)))
            status = "raised"
        else:
            status, detail = "unsupported", "%s: %s (%s)" % (type(e).__name__, e, where_of(e))
            if os.environ.get("SLMV_DEBUG"):
                traceback.print_exc()
    if status == "unsupported" and os.environ.get("SLMV_DEBUG") == "2":
        traceback.print_exc()
    return ctx, status, detail


_PROVED = {}


def discharge(ob, limit, z3_ms):
    key = (ob.goal.id, frozenset(h.id for h in ob.hyps))
    r = _PROVED.get(key)
    if r is None or (r.status != "proved" and r.limit < limit):
        r = P.Prover(ob.hyps, deadline=limit, z3_ms=z3_ms).prove(ob.goal)
        r = _R(r.status, r.backend, r.time, limit)
        _PROVED[key] = r
        r.cached = False
        return r
    c = _R(r.status, r.backend, 0.0, r.limit)
    c.cached = True
    return c


def known(ob):
    r = _PROVED.get((ob.goal.id, frozenset(h.id for h in ob.hyps)))
    return r is not None and r.status == "proved"


class _R:
    def __init__(self, status, backend, time, limit):
        self.status, self.backend, self.time, self.limit = status, backend, time, limit


def sample(ctx, ob, rng, tries, want, deadline):
    """Numeric instances of an obligation: (number satisfied, refuting assignment or None, number of tries satisfying the hyps)"""
    good = 0
    for _ in range(tries):
        if time.time() > deadline or good >= want:
            break
        env = T.Env(rng)
        env.near = [False]
        need = T.free_vars(T.and_(*ob.hyps, ob.goal)) if ob.hyps else T.free_vars(ob.goal)
        vs = dict(ctx.vars)
        for n, g in vs.items():
            env.vars[n] = g(rng)
        okidx = True
        pending = list(ctx.index_vars.items())
        for n, (lo, hi) in pending:
            try:
                a, b = int(np.rint(float(env.ev(lo)))), int(np.rint(float(env.ev(hi))))
            except KeyError:
                okidx = False
                break
            if b <= a:
                okidx = False
                break
            env.vars[n] = int(rng.integers(a, b))
        if not okidx:
            continue
        for v in need:
            if v.val not in env.vars:
                env.vars[v.val] = C.default_gen(v.sort)(rng)
        try:
            if not all(bool(np.all(env.ev(h))) for h in ob.hyps):
                continue
            good += 1
            if ob.sides is not None:
                a, b = [float(np.real(env.ev(t))) for t in ob.sides]
                na, nb = np.isnan(a), np.isnan(b)
                if na and nb:
                    continue
                bad = (na != nb) or abs(a - b) > 1e-6 * max(1.0, abs(a), abs(b))
            else:
                bad = not bool(np.all(env.ev(ob.goal)))
                a = b = None
            if bad and not env.near[0]:
                d = {k: (float(x) if not isinstance(x, (bool, int)) else x) for k, x in env.vars.items() if np.ndim(x) == 0}
                return good, {"assignment": d, "got": a, "expected": b}, good
        except (KeyError, IndexError, ValueError, OverflowError, TypeError, AssertionError, MemoryError) as e:
            if os.environ.get("SLMV_DEBUG"):
                traceback.print_exc()
            continue
    return good, None, good


def run_task(con, config, seed=1, limit=20.0, z3_ms=3000, total=120.0, samples=3):
    t0 = time.time()
    A.reset()
    rng = np.random.default_rng(seed)
    out = {"contract": con.name, "config": config, "doc": con.doc, "obligations": [], "unsupported": [], "paths": 0, "infeasible": 0,
           "functions": [], "lemmas": [], "externals": [], "vacuous": False}
    fns, lem, ext = set(), set(), set()
    queue, seen = [[]], 0
    while queue:
        if seen >= con.maxpaths or time.time() - t0 > total:
            out["unsupported"].append("path budget exhausted after %d paths" % seen)
            break
        prefix = queue.pop()
        ctx, status, detail = run_path(con, config, prefix)
        queue.extend(ctx.pending)
        seen += 1
        fns |= ctx.functions
        lem |= ctx.lemmas
        ext |= ctx.externals
        if status == "infeasible":
            out["infeasible"] += 1
            continue
        out["paths"] += 1
        if status == "unsupported":
            out["unsupported"].append(detail)
        for ob in ctx.obls:
            CUR[0] = ctx
            ref = None
            if samples and not known(ob):
                g, ref, _ = sample(ctx, ob, rng, 12, samples, time.time() + 1.5)     # a false obligation need not be tried for long
            r = discharge(ob, 3.0 if ref else limit if time.time() - t0 < total else 1.0, z3_ms)
            rec = {"name": ob.name, "status": r.status, "backend": r.backend, "time": round(r.time, 3), "path": "".join("FT"[int(x)] for x in ob.path)}
            if ob.where:
                rec["where"] = ob.where
            if r.status != "proved" and not ref:
                g, ref, _ = sample(ctx, ob, rng, 120, 25, time.time() + 15)
            if r.status != "proved" or samples and not r.cached:
                rec["sampled"] = g
                if ref:
                    if r.status == "proved":
                        rec["disagrees"] = ref
                    else:
                        rec["status"] = "refuted"
                        rec["counterexample"] = ref
            if rec["status"] != "proved":
                rec["goal"] = T.show(ob.goal)[:1500] if hasattr(T, "show") else repr(ob.goal)[:1500]
                rec["hyps"] = [repr(h)[:300] for h in ob.hyps[:30]]
                if ob.sides is not None:
                    rec["sides"] = [repr(x)[:600] for x in ob.sides]
            out["obligations"].append(rec)
    out["functions"], out["lemmas"], out["externals"] = sorted(fns), sorted(lem), sorted(ext)
    out["vacuous"] = not out["obligations"]
    out["time"] = round(time.time() - t0, 2)
    out["stats"] = dict(P.STATS)
    return out

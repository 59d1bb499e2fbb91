"""Loop rules. A loop with a symbolic trip count is executed once, on an arbitrary iteration k and an arbitrary state;
the result is the recurrence it defines (or a map / append / scatter / accumulation when it has that form)."""
import sys
from . import terms as T
from . import arr as A
from . import nd
from .arr import Cx, cx, ite_v
from .terms import num
from .ctx import cur, Unsupported
from .pyvals import (PyNum, SInt, SFloat, SBool, SComplex, SList, LazySeq, SRange, symseq, mk, mkb, val, pk, as_slist)


class Poison:
    """A variable without a value here (unbound, or its value after a loop is not determined by the rule)."""
    def __init__(self, why="unbound"):
        object.__setattr__(self, "why", why)

    def __getattr__(self, n):
        raise Unsupported("use of %s value" % object.__getattribute__(self, "why"))
    def __bool__(self):
        raise Unsupported("use of %s value" % object.__getattribute__(self, "why"))
    __call__ = __iter__ = __len__ = __getitem__ = __add__ = __radd__ = __mul__ = __rmul__ = __sub__ = __rsub__ = \
        __truediv__ = __lt__ = __le__ = __gt__ = __ge__ = __neg__ = lambda self, *a, **k: self.__bool__()


UNBOUND = Poison()


# ---- values -----------------------------------------------------------------------------------------------------------
def value_core(v):
    """(tag, Core) of a symbolic value that can be part of a loop state"""
    from . import tensors as X
    if isinstance(v, X.TfTensor):
        return ("tf", v.core)
    if isinstance(v, X.NpArray):
        return ("np", v.core)
    k = pk(v)
    if k == "i":
        return ("i", nd.const(val(v), "int64"))
    if k == "f":
        return ("f", nd.const(val(v), "float64"))
    if k == "b":
        return ("b", nd.const(val(v), "bool"))
    if k == "c":
        return ("c", nd.const(val(v), "complex128"))
    return None


def rebuild(tag, core):
    from . import tensors as X
    if tag == "tf":
        return X.TfTensor(core)
    if tag == "np":
        return X.NpArray(core)
    return mk(core.at(), tag) if tag != "b" else mkb(core.at())


def core_map(core, f):
    """apply f to element values (as functions of indices)"""
    def fn(*i):
        b = A.binders(len(core.shape))
        with A.scope():
            v = core.at(*b)
        return f(v, dict(zip(b, i)))
    return nd.Core(core.shape, core.dtype, fn)


def vsubst(v, m):
    """substitute term variables in a value"""
    from . import tensors as X
    if isinstance(v, (X.TfTensor, X.NpArray)) or (isinstance(v, PyNum)):
        tag, core = value_core(v)
        c2 = core_map(core, lambda e, b: A.subst_v(e, {**m, **b}))
        c2.shape = tuple(T.subst(s, m) for s in core.shape)
        return rebuild(tag, c2)
    if isinstance(v, tuple):
        return tuple(vsubst(x, m) for x in v)
    if isinstance(v, JList):
        if v.sym is None:
            return JList([vsubst(x, m) for x in v])
        f, n = v.sym.fn, v.sym.n
        return JList.symbolic(SList(T.subst(n, m), lambda i: _sub_at(f, i, m)))
    if isinstance(v, list):
        return [vsubst(x, m) for x in v]
    if isinstance(v, T.Term):
        return T.subst(v, m)
    if v is None or isinstance(v, (str, int, float, complex, bool, bytes, Poison)) or callable(v) or isinstance(v, type):
        return v
    if hasattr(v, "__slmv_subst__"):
        return v.__slmv_subst__(m)
    raise Unsupported("value of type %s in a symbolic loop" % type(v).__name__)


def _sub_at(f, i, m):
    b, = A.binders(1)
    with A.scope():
        v = f(b)
    return vsubst(v, {**m, b: i})


def list_ite(c, v, other):
    """value-level if-then-else; other: thunk"""
    if c.op == "bool":
        return v if c.val else other()
    return merge([(c, v), (T.TRUE(), other())])


def same_value(a, b):
    if a is b:
        return True
    if isinstance(a, PyNum) or isinstance(b, PyNum):
        return type(a) is type(b) and getattr(a, "t", None) is getattr(b, "t", 0)
    if type(a) is type(b) and isinstance(a, (int, float, str, bool, complex, tuple)):
        try:
            return bool(a == b)
        except Exception:
            return False
    return False


def merge(cases):
    """[(condition, value)] -> value; last condition is the default"""
    first = cases[0][1]
    if all(same_value(first, v) for _, v in cases):
        return first
    if all(isinstance(v, tuple) and len(v) == len(first) for _, v in cases):
        return tuple(merge([(c, v[k]) for c, v in cases]) for k in range(len(first)))
    cores = [value_core(v) for _, v in cases]
    if any(c is None for c in cores):
        if all(isinstance(v, Poison) or v is None for _, v in cases):
            return Poison("loop-dependent")
        raise Unsupported("cannot merge values of types %s" % [type(v).__name__ for _, v in cases])
    tags = {c[0] for c in cores}
    if len(tags) > 1:
        if tags <= {"i", "f", "b", "c"}:
            tag = max(tags, key="bifc".index)
            if "b" in tags:
                raise Unsupported("merging bool with number")
            dt = {"f": "float64", "c": "complex128"}[tag]
            cores = [(tag, c.astype(dt)) for _, c in cores]
        elif tags <= {"np", "i", "f"} and all(not c.shape for _, c in cores):
            # NumPy scalars and python numbers: the NumPy scalar type
            dt = [c.dtype for t, c in cores if t == "np"][0]
            cores = [("np", c.astype(dt)) for _, c in cores]
        else:
            raise Unsupported("cannot merge %s" % tags)
    tag = cores[0][0]
    if len({c.dtype for _, c in cores}) > 1:
        raise Unsupported("cannot merge different dtypes")
    shape = cores[0][1].shape
    for _, c in cores[1:]:
        if not nd.shape_eq(c.shape, shape):
            raise Unsupported("cannot merge different shapes")
    conds = [c for c, _ in cases]

    def fn(*i):
        v = cores[-1][1].at(*i)
        for c, (_, core) in reversed(list(zip(conds[:-1], cores[:-1]))):
            v = ite_v(c, core.at(*i), v)
        return v
    return rebuild(tag, nd.Core(shape, cores[0][1].dtype, fn))


# ---- python lists with a mutation log ------------------------------------------------------------------------------------
class JList(list):
    sym = None

    @classmethod
    def symbolic(cls, s):
        if T.is_num(s.n):
            return cls([s.fn(num(k)) for k in range(max(int(s.n.val), 0))])
        l = cls()
        l.sym = s
        return l

    def _log(self, op, *args):
        c = cur()
        if c.journal is not None:
            c.journal.list_op(self, op, args)
            return True
        return False

    def _read(self):
        c = cur()
        if c is not None and c.journal is not None:
            c.journal.list_read(self)

    def append(self, v):
        if self._log("append", v):
            return
        if self.sym is not None:
            self.sym.append(v)
        else:
            list.append(self, v)

    def __setitem__(self, k, v):
        if isinstance(k, slice):
            if self._log("other"):
                return
            if self.sym is not None:
                raise Unsupported("slice assignment on a symbolic list")
            return list.__setitem__(self, k, v)
        if self.sym is None and not isinstance(k, PyNum):
            if self._log("set", k, v):
                return
            return list.__setitem__(self, k, v)
        s = as_slist(self) if self.sym is None else self.sym
        idx = s.norm(k)
        if self._log("set", mk(idx, "i"), v):
            return
        if self.sym is None:
            old = list(self)
            for p in range(len(old)):
                list.__setitem__(self, p, list_ite(T.eq(idx, num(p)), v, lambda p=p: old[p]))
        else:
            old = self.sym.fn
            self.sym = SList(self.sym.n, lambda i: list_ite(T.eq(i, idx), v, lambda: old(i)))

    def __getitem__(self, k):
        self._read()
        if self.sym is not None:
            r = self.sym[k]
            return JList.symbolic(r) if isinstance(r, SList) else r
        if isinstance(k, PyNum):
            return as_slist(self)[k]
        if isinstance(k, slice):
            return JList(list.__getitem__(self, k))
        if hasattr(k, "__index__"):
            k = k.__index__()
        return list.__getitem__(self, k)

    def __iter__(self):
        self._read()
        if self.sym is not None:
            return iter(self.sym)
        return list.__iter__(self)

    def __len__(self):
        return len(self.sym) if self.sym is not None else list.__len__(self)

    def __bool__(self):
        return bool(self.sym) if self.sym is not None else list.__len__(self) > 0

    def __add__(self, o):
        self._read()
        if self.sym is not None or getattr(o, "sym", None) is not None:
            return JList.symbolic((self.sym or as_slist(self)) + (getattr(o, "sym", None) or o))
        return JList(list.__add__(self, o))

    def __radd__(self, o):
        return JList(o) + self

    def __mul__(self, n):
        if isinstance(n, PyNum):
            items = list(self)
            cnt = val(n)
            if not cur().decide(T.le(num(0), cnt)):
                return JList()
            if len(items) == 1:
                v = items[0]
                return JList.symbolic(SList(cnt, lambda i: v))
            raise Unsupported("repetition of a list by a symbolic count")
        return JList(list.__mul__(self, n))
    __rmul__ = __mul__

    def __iadd__(self, o):
        self.extend(o)
        return self

    def extend(self, o):
        if self._log("other"):
            return
        s = symseq(o)
        if s is not None or self.sym is not None:
            o = SList(s[0], s[1]) if s is not None else as_slist(o)
            self.sym = (self.sym or as_slist(self)) + o
        else:
            list.extend(self, o)

    def reverse(self):
        if self._log("other"):
            return
        if self.sym is not None:
            self.sym.reverse()
        else:
            list.reverse(self)

    def copy(self):
        return JList.symbolic(self.sym.copy()) if self.sym is not None else JList(list.__iter__(self))

    def insert(self, k, v):
        if self._log("other"):
            return
        if self.sym is not None:
            if k == 0:
                self.sym = SList(num(1), lambda i: v) + self.sym
                return
            raise Unsupported("insert into a symbolic list")
        list.insert(self, k, v)

    def pop(self, *a):
        if self._log("other"):
            return
        if self.sym is not None:
            raise Unsupported("pop from a symbolic list")
        return list.pop(self, *a)

    def __reversed__(self):
        if self.sym is not None:
            f, n = self.sym.fn, self.sym.n
            return LazySeq(n, lambda i: f(T.sub(T.sub(n, num(1)), i)))
        return reversed(list(self))

    def __slmv_seq__(self):
        if self.sym is None or T.is_num(self.sym.n):
            return None
        self._read()
        return (self.sym.n, self.sym.fn)

    def __eq__(self, o):
        if self.sym is not None:
            raise Unsupported("comparison of symbolic lists")
        return list.__eq__(self, o)
    __hash__ = None


# ---- one symbolic iteration, explored over its internal decisions ----------------------------------------------------------
class Journal:
    def __init__(self):
        self.lists, self.reads, self.other, self.events = {}, {}, [], []
        self.fresh = {}      # objects created in this iteration

    def list_op(self, l, op, args):
        self.lists.setdefault(id(l), (l, []))[1].append((op, args))

    def list_read(self, l):
        self.reads[id(l)] = l

    def mutated(self, obj):
        if id(obj) in self.fresh:
            return
        self.other.append(obj)
        raise Unsupported("mutation of %s in a loop with symbolic trip count" % type(obj).__name__)


class SymIter:
    """Symbolic iteration k of [0, n): explores all internal paths, collects outcomes."""

    def __init__(self, n):
        ctx = cur()
        self.n = n
        if ctx.loop_stack or ctx.journal is not None:
            raise Unsupported("nested loops with symbolic trip counts")
        self.k = A.K()
        self.group = A.Group("loop%d" % next(ctx.counter))
        self.todo, self.outcomes = [[]], []
        self.start()

    def local_symbols(self):
        return {self.k}

    def depends(self, cond):
        if self.k in T.free_vars(cond):
            return True
        return any(a.kind == "iter" and a.meta["group"] is self.group for a in A.arrays_in(cond)) or \
            any(t.op == "elem" and t.val[0].kind == "iter" for t in T.subterms(cond))

    def start(self):
        ctx = cur()
        self.saved_pc, self.saved_events = list(ctx.pc), ctx.events
        ctx.loop_stack.append(self)

    def begin_pass(self):
        ctx = cur()
        self.prefix, self.taken, self.lits = self.todo.pop(), [], []
        ctx.pc = list(self.saved_pc)
        for h in (T.le(num(0), self.k), T.lt(self.k, self.n)):
            ctx.assume(h)
        ctx.vars.setdefault("$k", lambda rng: int(rng.integers(0, 4)))
        ctx.journal = Journal()
        ctx.events = []

    def decide(self, cond):
        pos = len(self.taken)
        if pos < len(self.prefix):
            v = self.prefix[pos]
        else:
            v = True
            self.todo.append(self.taken + [False])
        self.taken.append(v)
        self.lits.append(cond if v else T.not_(cond))
        return v

    def end_pass(self, outcome):
        ctx = cur()
        j = ctx.journal
        self.outcomes.append((T.and_(*self.lits), outcome, j.lists, j.reads, ctx.events))
        ctx.journal = None
        if len(self.outcomes) > 24:
            raise Unsupported("too many paths in a loop body")
        return bool(self.todo)

    def finish(self):
        ctx = cur()
        ctx.loop_stack.pop()
        ctx.pc, ctx.events, ctx.journal = self.saved_pc, self.saved_events, None

    def merged(self, pick):
        cases = [(c, pick(o)) for c, o, *_ in self.outcomes]
        return merge(cases) if len(cases) > 1 else cases[0][1]

    def apply_effects(self):
        """appends, scatters and events of the loop"""
        ctx = cur()
        lists = {}
        for c, o, ls, rd, ev in self.outcomes:
            for i, (l, ops) in ls.items():
                lists[i] = l
                if i in rd:
                    raise Unsupported("list both read and written in a loop with symbolic trip count")
        for i, l in lists.items():
            ops = [ls.get(i, (l, []))[1] for _, _, ls, _, _ in self.outcomes]
            if any(len(o) != 1 or o[0][0] != ops[0][0][0] for o in ops) or ops[0][0][0] == "other":
                raise Unsupported("list mutation pattern in a loop with symbolic trip count")
            conds = [c for c, *_ in self.outcomes]
            if ops[0][0][0] == "append":
                v = merge(list(zip(conds, [o[0][1][0] for o in ops]))) if len(ops) > 1 else ops[0][0][1][0]
                self.check_free(v)
                k = self.k
                tail = SList(self.n, lambda j, v=v: vsubst(v, {k: j}))
                base = l.sym or as_slist(list(list.__iter__(l)))
                s = tail if T.is_num(base.n) and base.n.val == 0 else base + tail
                l.sym = s
                list.clear(l)
            else:
                g = ops[0][0][1][0]
                if any(not same_value(o[0][1][0], g) for o in ops):
                    raise Unsupported("scatter at different indices")
                v = merge(list(zip(conds, [o[0][1][1] for o in ops]))) if len(ops) > 1 else ops[0][0][1][1]
                self.check_free(v)
                self.scatter(l, val(g), v)
        evs = [e for _, _, _, _, e in self.outcomes]
        if any(evs):
            if len(evs) > 1:
                raise Unsupported("hardware calls depending on a decision inside a loop")
            ctx.events.append(("loop", self.n, self.k, evs[0]))

    def check_free(self, v):
        for t in value_terms(v):
            for a in A.arrays_in(t):
                if a.kind == "iter" and a.meta["group"] is self.group:
                    raise Unsupported("loop output depends on a loop-carried value")

    def scatter(self, l, g, v):
        from fractions import Fraction
        c, parts = T._lin_parts(g)
        co = parts.pop(self.k, Fraction(0))
        g0 = T._lin(c, parts)
        if co == 0 or co.denominator != 1 or self.k in T.free_vars(g0):
            raise Unsupported("scatter index is not affine in the iteration")
        co = int(co)
        base = l.sym or as_slist(list(list.__iter__(l)))
        old, n, k = base.fn, self.n, self.k

        def fn(p):
            d = T.scale(T.sub(p, g0), 1 if co > 0 else -1)
            q = T.fdiv(d, num(abs(co)))
            hit = T.and_(T.eq(T.scale(q, abs(co)), d), T.le(num(0), q), T.lt(q, n))
            return list_ite_l(hit, lambda: vsubst(v, {k: q}), lambda: old(p))
        if T.is_num(base.n):
            items = [fn(num(i)) for i in range(int(base.n.val))]
            list.clear(l)
            list.extend(l, items)
            l.sym = None
        else:
            l.sym = SList(base.n, fn)
            list.clear(l)


def list_ite_l(c, a, b):
    if c.op == "bool":
        return a() if c.val else b()
    return merge([(c, a()), (T.TRUE(), b())])


def value_terms(v):
    if isinstance(v, tuple) or isinstance(v, list):
        out = []
        for x in (v if isinstance(v, tuple) else list.__iter__(v)):
            out += value_terms(x)
        return out
    vc = value_core(v)
    if vc is None:
        return []
    b, e = A.evaluate(vc[1].at, len(vc[1].shape))
    return [e.re, e.im] if isinstance(e, Cx) else [e]


# ---- for / while statements ---------------------------------------------------------------------------------------------------
class ForLoop:
    def __init__(self, iterable, names, locs):
        self.names = names
        self.sym = None
        s = symseq(iterable)
        if s is None and hasattr(iterable, "__slmv_range__"):
            s = iterable.__slmv_range__()
        if s is not None and T.is_num(s[0]) and s[0].val > 24:
            self.n, self.get, self.sym = s[0], s[1], "for"       # many iterations: by recurrence, not unrolled
        elif s is not None and not T.is_num(s[0]):
            self.n, self.get = s
            if not cur().decide(T.le(num(0), self.n)) or (T.is_num(self.n) and self.n.val <= 0):
                self.it = iter(())
            elif cur().decide(T.eq(self.n, num(0))):
                self.it = iter(())
            else:
                self.sym = "for"
        elif s is not None:
            n, get = s
            self.it = iter([get(num(k)) for k in range(max(int(n.val), 0))])
        else:
            self.it = iter(iterable)
        self.locs = locs

    def __iter__(self):
        if self.sym is None:
            return self.it
        return self.run(sys._getframe(1))

    def run(self, frame):
        self.frame = frame
        init = {n: frame.f_locals.get(n, UNBOUND) for n in self.names}
        closed = None
        while True:
            it = SymIter(self.n)
            self.iter = it
            self.state = LoopState(it, init, closed)
            while True:
                it.begin_pass()
                self.current = dict(self.state.abstract)
                item = self.get(it.k)
                yield item
                outcome = {n: frame.f_locals.get(n, UNBOUND) for n in self.names}
                if not it.end_pass(outcome):
                    break
            it.finish()
            if closed is not None:
                break
            closed = self.state.counters()
            if not closed:
                break
        self.final = self.state.close(self.n)
        it.apply_effects()
        self.done = True

    done = False

    def load(self):
        return tuple(self.current[n] for n in self.names)

    def exit(self):
        if not self.done:
            raise Unsupported("break out of a loop with symbolic trip count")
        return tuple(self.final[n] for n in self.names)

    def brk(self):
        if self.sym is not None:
            raise Unsupported("break or return in a loop with symbolic trip count")


def pow_k(x, k):
    """x**k for a nonnegative integer exponent (0**0 = 1)"""
    if T.is_num(k):
        return T.power(x, int(k.val))
    if T.is_num(x) and x.val == -1 and k.sort == "I":
        return T.signpow(k)
    return T.fn("powr", x, k)


class LoopState:
    """Abstract state s(k) of a symbolic loop and its recurrence."""

    def __init__(self, it, init, closed=None):
        self.it, self.init, self.abstract, self.arrs = it, init, {}, {}
        for n, v in init.items():
            vc = value_core(v)
            if vc is None:
                if isinstance(v, Poison) or v is None:
                    self.abstract[n] = Poison("loop-carried non-numeric")
                else:
                    self.abstract[n] = Poison("loop-carried object")
                continue
            if closed and n in closed:
                v = closed[n]
                self.abstract[n] = vsubst(v[1], {v[2]: it.k}) if isinstance(v, tuple) else v
                continue
            tag, core = vc
            comps = {"c": ("re", "im"), "f": ("v",), "i": ("i",), "b": ("b",)}[nd.kind(core.dtype)]
            a = it.group.add(n, core.shape, comps)
            self.arrs[n] = (a, tag, core)
            k = it.k
            mkcore = nd.Core(core.shape, core.dtype, lambda *i, a=a: a.at((k,) + tuple(i), ()))
            self.abstract[n] = rebuild(tag, mkcore)

    def counters(self):
        """variables with a closed form (v + d, or c v, with d, c the same in every iteration) that something else in the body uses:
        the body is run again with that form in their place"""
        it, found = self.it, {}
        for n, (a, tag, core) in self.arrs.items():
            if core.shape or nd.kind(core.dtype) not in "if":
                continue
            here, base, nexts = a.at((it.k,), ()), core.at(), []
            for _, o, *_ in it.outcomes:
                vc = value_core(o[n])
                if vc is None or vc[0] != tag or vc[1].shape or vc[1].dtype != core.dtype:
                    break
                nexts.append(vc[1].at())
            if len(nexts) != len(it.outcomes) or any(x is not nexts[0] for x in nexts):
                continue
            d, z = T.sub(nexts[0], here), T.subst(nexts[0], {here: num(0)})
            c = T.subst(nexts[0], {here: num(1)})
            if T.is_num(d) and d.val != 0:
                form = lambda base=base, d=d: T.add(base, T.mul(d, it.k))
            elif T.is_num(z) and z.val == 0 and T.is_num(c) and T.sub(nexts[0], T.mul(c, here)) is num(0):
                form = lambda base=base, c=c: T.mul(base, pow_k(c, it.k))
            else:
                continue
            found[n] = (a, rebuild(tag, nd.Core((), core.dtype, form)), it.k)
        if not found:
            return None
        effects = any(ls or ev for _, _, ls, _, ev in it.outcomes)
        if not effects:
            own = {}
            for n in self.init:
                own[n] = set()
                for _, o, *_ in it.outcomes:
                    try:
                        own[n] |= {x for t in value_terms(o[n]) for x in A.arrays_in(t)}
                    except Unsupported:
                        pass
            if not any(a in own[m] for n, (a, *_) in found.items() for m in own if m != n):
                return None
        return found

    def close(self, n):
        it = self.it
        step, bodies = {}, {}
        for name in self.init:
            try:
                step[name] = it.merged(lambda o: o[name])
            except Unsupported as e:
                step[name] = Poison("loop-dependent")
        used = set()
        # bodies of the numeric components
        for name, (a, tag, core) in self.arrs.items():
            v = step[name]
            vc = value_core(v)
            if vc is None:
                bodies[name] = None
                continue
            t2, c2 = vc
            b = A.binders(len(core.shape))
            with A.scope():
                e = c2.at(*b) if len(c2.shape) == len(b) else None
            bodies[name] = (b, e, t2, c2)
        terms = {nme: ([x[1].re, x[1].im] if isinstance(x[1], Cx) else [x[1]]) if x and x[1] is not None else []
                 for nme, x in bodies.items()}
        uses = {nme: {a for a in A.arrays_in(*ts) if a.kind == "iter" and a.meta["group"] is it.group}
                for nme, ts in terms.items()}
        # accumulators and invariants
        final, byarr = {}, {a: nme for nme, (a, _, _) in self.arrs.items()}
        others = set()
        for nme in terms:
            for m in terms:
                if m != nme and self.arrs[nme][0] in uses[m]:
                    others.add(nme)
        # outputs that are not components but depend on carried arrays
        closed = {}
        for nme, (a, tag, core) in self.arrs.items():
            x = bodies[nme]
            if not x or x[1] is None:
                continue
            b, e, t2, c2 = x
            if t2 != tag or c2.dtype != core.dtype:
                if a in set().union(*uses.values()):
                    raise Unsupported("loop variable %s changes its type" % nme)
                continue
            if a not in uses[nme]:
                continue
            with A.scope():
                cur_e = a.at((it.k,) + tuple(b), ())
            d = (cx(e) - cx(cur_e)) if isinstance(e, Cx) else None if e.sort == "B" else T.sub(e, cur_e)
            if d is None:
                continue
            ds = [d.re, d.im] if isinstance(d, Cx) else [d]
            if not any(z.kind == "iter" and z.meta["group"] is it.group for z in A.arrays_in(*ds)):
                closed[nme] = (b, d, None)
            elif nd.kind(core.dtype) == "f" and cur_e.op == "elem":
                # v' = c v + d with c the same in every iteration: v_n = c^n v_0 + SUM d_k c^(n-1-k)
                d0 = T.subst(e, {cur_e: num(0)})
                c0 = T.sub(T.subst(e, {cur_e: num(1)}), d0)
                if (T.sub(e, T.add(T.mul(c0, cur_e), d0)) is num(0) and it.k not in T.free_vars(c0) and
                        not any(z.kind == "iter" and z.meta["group"] is it.group for z in A.arrays_in(c0, d0))):
                    closed[nme] = (b, d0, c0)
        for nme, (b, d, c) in closed.items():
            a, tag, core = self.arrs[nme]

            def fn(*i, b=b, d=d, core=core, c=c):
                m = dict(zip(b, i))
                if c is not None:
                    x = T.subst(c, m)
                    s = A.sum_term([n], lambda kv: T.mul(A.subst_v(d, {**m, it.k: kv}), pow_k(x, T.sub(T.sub(n, num(1)), kv))))
                    return T.add(T.mul(core.at(*i), pow_k(x, n)), s)
                kk, = A.binders(1)
                def term(kv):
                    return A.subst_v(d, {**m, it.k: kv})
                s = A.sum_term([n], term)
                v = core.at(*i) + s
                return v
            final[nme] = rebuild(tag, nd.Core(core.shape, core.dtype, fn))
            if nme in others:
                self.need_iter = True
        need = set()
        stack = [a for nme in terms for a in uses[nme] if not (nme in closed and byarr.get(a) == nme and nme not in others)]
        while stack:
            a = stack.pop()
            if a not in need:
                need.add(a)
                stack.extend(uses[byarr[a]])
        for nme, (a, tag, core) in self.arrs.items():
            if a in need:
                x = bodies[nme]
                if not x or x[1] is None or not nd.shape_eq(x[3].shape, core.shape):
                    raise Unsupported("loop-carried variable %s changes shape or type" % nme)
                b, e, t2, c2 = x
                pos = a.meta["pos"]
                with A.scope():
                    i0 = core.at(*b)
                it.group.idx[pos] = tuple(b)
                it.group.init[pos] = (i0.re, i0.im) if isinstance(i0, Cx) else (i0,)
                it.group.step[pos] = (e.re, e.im) if isinstance(e, Cx) else (e,)
        it.group.prune(need)
        last = T.sub(n, num(1))
        for nme, v in step.items():
            if nme in final:
                continue
            if isinstance(v, Poison) or v is None:
                final[nme] = v if v is not None and False else Poison("after-loop")
                continue
            try:
                final[nme] = vsubst(v, {it.k: last})
            except Unsupported:
                final[nme] = Poison("after-loop")
        return final


class WhileLoop:
    def __init__(self, cond, names):
        self.cond, self.names, self.sym = cond, names, None
        self.done = False

    def __iter__(self):
        return self.run(sys._getframe(1))

    def run(self, frame):
        count = 0
        while True:
            c = self.cond()
            t = truth(c)
            if t is None or t.op != "bool":
                break
            if not t.val:
                self.done = True
                return
            yield None
            count += 1
            if count > 100000:
                raise Unsupported("loop does not terminate")
        if cur().entails(t) and False:
            pass
        # symbolic condition: find counters, then the trip count
        self.sym = "while"
        init = {n: frame.f_locals.get(n, UNBOUND) for n in self.names}
        it = SymIter(num(1 << 30))
        it.n_unknown = True
        st = LoopState(it, init)
        # pass A on an unconstrained iteration
        it.begin_pass()
        self.current = dict(st.abstract)
        yield None
        out = {n: frame.f_locals.get(n, UNBOUND) for n in self.names}
        cur().journal = None
        it.todo = []
        it.finish()
        counters = {}
        for n, (a, tag, core) in st.arrs.items():
            vc = value_core(out[n])
            if vc is None or len(core.shape) or vc[0] != tag:
                continue
            d = T.sub(vc[1].at(), a.at((it.k,), ())) if tag in ("i", "f", "tf") and nd.kind(core.dtype) in "if" else None
            if d is not None and T.is_num(d):
                base = core.at()
                counters[n] = rebuild(tag, nd.Core((), core.dtype, lambda base=base, d=d: T.add(base, T.mul(d, it.k))))
        # condition as a function of k
        self.current = {**{n: Poison("condition") for n in self.names}, **counters}
        self.probe = True
        k = it.k
        yield PROBE
        t = self.probed
        # expected shape: k*c + r < 0 or <= 0
        c0, parts = (None, None)
        n = None
        if t.op in ("le0", "lt0"):
            c0, parts = T._lin_parts(t.args[0])
            co = parts.pop(k, None)
            if co is not None and co > 0:
                rest = T.scale(T._lin(c0, parts), 1 / co)
                if k not in T.free_vars(rest):
                    # k + rest <= 0  <=> k <= -rest ; number of k >= 0: floor(-rest) + 1
                    if t.op == "le0":
                        n = T.add(T.floor(T.scale(rest, -1)), num(1))
                    else:
                        n = T.ceil(T.scale(rest, -1))
        if n is None:
            raise Unsupported("loop condition is not a counter bound")
        if not cur().decide(T.lt(num(0), n)):
            self.final = init
            self.done = True
            return
        it = SymIter(n)
        self.iter = it
        st = LoopState(it, init, closed=counters)
        while True:
            it.begin_pass()
            self.current = dict(st.abstract)
            yield None
            outcome = {nm: frame.f_locals.get(nm, UNBOUND) for nm in self.names}
            if not it.end_pass(outcome):
                break
        it.finish()
        for nm, v in counters.items():
            nxt = value_core(vsubst(v, {it.k: T.add(it.k, num(1))}))[1].at()
            for _, o, *_ in it.outcomes:
                vc = value_core(o[nm])
                if vc is None or vc[1].at() is not nxt:
                    raise Unsupported("loop counter is not uniform")
        self.final = st.close(n)
        it.apply_effects()
        self.done = True

    def load(self):
        return tuple(self.current[n] for n in self.names)

    probed = None

    def probe_cond(self):
        self.probed = truth(self.cond())

    def exit(self):
        if not self.done:
            raise Unsupported("break out of a loop with symbolic condition")
        return tuple(self.final[n] for n in self.names)

    def brk(self):
        if self.sym is not None:
            raise Unsupported("break or return in a loop with symbolic trip count")


PROBE = object()


def truth(c):
    from . import tensors as X
    if isinstance(c, (X.TfTensor, X.NpArray)):
        v = c.core.at(*[num(0)] * len(c.core.shape))
        v = nd.convert(v, c.core.dtype, "bool")
        return v
    if isinstance(c, PyNum):
        v = val(c)
        return v if not isinstance(v, Cx) and v.sort == "B" else T.ne(v, num(0))
    if isinstance(c, Poison):
        raise Unsupported("loop condition")
    return T.boolean(bool(c))


def listcomp(iterable, f, conds=None):
    """[f(x) for x in iterable if conds(x)]"""
    s = symseq(iterable)
    if s is None and hasattr(iterable, "__slmv_range__"):
        s = iterable.__slmv_range__()
    if s is None or T.is_num(s[0]):
        items = iterable if s is None else [s[1](num(k)) for k in range(max(int(s[0].val), 0))]
        return JList([f(x) for x in items if conds is None or conds(x)])
    n, get = s
    if conds is not None:
        raise Unsupported("filtering comprehension over a symbolic sequence")
    if not cur().decide(T.lt(num(0), n)):
        return JList()
    it = SymIter(n)
    while True:
        it.begin_pass()
        v = f(get(it.k))
        if not it.end_pass(v):
            break
    it.finish()
    v = it.merged(lambda o: o)
    it.apply_effects()
    k = it.k
    return JList.symbolic(SList(n, lambda j: vsubst(v, {k: j})))


def genexp(iterable, f, conds=None):
    s = symseq(iterable)
    if s is None:
        return (f(x) for x in iterable if conds is None or conds(x))
    l = listcomp(iterable, f, conds)
    return LazySeq(l.sym.n, l.sym.fn) if l.sym is not None else iter(l)

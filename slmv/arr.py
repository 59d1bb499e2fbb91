"""Opaque (uninterpreted but extensional) arrays: inputs, transforms, reductions, loop iterates."""
import numpy as np
from . import terms as T
from .terms import var, num, elem, and_, le, lt, ite, free_vars, subst

_depth = [0]
_intern = {}


def reset():
    _intern.clear()
    _depth[0] = 0


class Cx:
    """Complex number as a pair of real terms."""
    __slots__ = ("re", "im")

    def __init__(self, re, im=0):
        self.re, self.im = T.lift(re), T.lift(im)

    def __add__(self, o): o = cx(o); return Cx(self.re + o.re, self.im + o.im)
    __radd__ = __add__
    def __sub__(self, o): o = cx(o); return Cx(self.re - o.re, self.im - o.im)
    def __rsub__(self, o): return cx(o) - self
    def __neg__(self): return Cx(-self.re, -self.im)

    def __mul__(self, o):
        o = cx(o)
        return Cx(self.re * o.re - self.im * o.im, self.re * o.im + self.im * o.re)
    __rmul__ = __mul__

    def __truediv__(self, o):
        if not isinstance(o, Cx):
            return Cx(self.re / o, self.im / o)
        if T.is_num(o.im) and o.im.val == 0:
            return Cx(self.re / o.re, self.im / o.re)
        d = T.inv(o.abs2())
        n = self * o.conj()
        return Cx(n.re * d, n.im * d)

    def __rtruediv__(self, o): return cx(o) / self
    def conj(self): return Cx(self.re, -self.im)
    def abs2(self): return self.re * self.re + self.im * self.im

    def abs(self):
        if T.is_num(self.im) and self.im.val == 0:
            return T.fn("abs", self.re)
        return T.fn("sqrt", self.abs2())

    def angle(self): return T.fn("atan2", self.im, self.re)

    def exp(self):
        m = T.fn("exp", self.re)
        return Cx(m * T.fn("cos", self.im), m * T.fn("sin", self.im))

    def __repr__(self): return "Cx(%r, %r)" % (self.re, self.im)


def cx(v):
    return v if isinstance(v, Cx) else Cx(v, 0)


def comps_of(v):
    """(('re', t), ('im', t)) or (('v'|'b'|'i', t),)"""
    if isinstance(v, Cx):
        return (("re", v.re), ("im", v.im))
    return (({"B": "b", "I": "i"}.get(v.sort, "v"), v),)


def ite_v(c, a, b):
    if isinstance(a, Cx) or isinstance(b, Cx):
        a, b = cx(a), cx(b)
        return Cx(ite(c, a.re, b.re), ite(c, a.im, b.im))
    return ite(c, a, b)


def subst_v(v, m):
    return Cx(subst(v.re, m), subst(v.im, m)) if isinstance(v, Cx) else subst(v, m)


def free_of(*vs):
    out = frozenset()
    for v in vs:
        out |= (free_vars(v.re) | free_vars(v.im)) if isinstance(v, Cx) else free_vars(v)
    return out


class OArr:
    """kind, index variables, shape, bodies (all closed under idx + params)."""
    __slots__ = ("kind", "name", "rank", "idx", "shape", "params", "body", "comps", "meta", "key")

    def __init__(self, kind, name, idx, shape, params, body, comps, meta):
        self.kind, self.name, self.idx, self.shape = kind, name, tuple(idx), tuple(shape)
        self.rank = len(self.shape)
        self.params, self.body, self.comps, self.meta = tuple(params), tuple(body), tuple(comps), meta

    def __repr__(self):
        return "<%s %s>" % (self.kind, self.name)

    def at(self, idx, params=None):
        params = self.params if params is None else params
        args = tuple(idx) + tuple(params)
        if self.comps == ("re", "im"):
            return Cx(elem(self, "re", args), elem(self, "im", args))
        return elem(self, self.comps[0], args)

    # numeric interpretation -----------------------------------------------------------
    def numeric(self, env):
        return _NUMERIC[self.kind](self, env)

    def num_shape(self, env):
        return tuple(max(int(np.rint(float(env.ev(s)))), 0) for s in self.shape)

    def num_body(self, env, shape):
        """Evaluate the body terms on the full grid of self.idx."""
        grids = np.meshgrid(*[np.arange(n) for n in shape], indexing="ij") if shape else []
        e = env.child({**{v.val: env.vars[v.val] for v in self.params}, **{v.val: g for v, g in zip(self.idx, grids)}})
        out = [np.broadcast_to(np.asarray(e.ev(b)), shape) for b in self.body]
        return out


def make(kind, shape, body, comps, extra=(), name=None, meta=None, idx=(), extra_params=()):
    """Intern an array. body: terms over idx; params are all other free variables."""
    fv = free_of(*body, *shape) - frozenset(idx)
    params = sorted(fv | frozenset(extra_params), key=lambda v: v.val)
    key = (kind, extra, tuple(i.id for i in idx), tuple(s.id for s in shape), tuple(p.id for p in params),
           tuple(b.id for b in body), comps)
    a = _intern.get(key)
    if a is None:
        a = OArr(kind, name or "%s#%d" % (kind, len(_intern)), idx, shape, params, body, comps, meta)
        a.key = key
        _intern[key] = a
    return a


def binders(n):
    return [var("$%d_%d" % (_depth[0], k), "I") for k in range(n)]


class scope:
    def __enter__(self): _depth[0] += 1
    def __exit__(self, *a): _depth[0] -= 1


def evaluate(fn, rank):
    """Evaluate an element function at fresh binders -> (binders, value)."""
    b = binders(rank)
    with scope():
        return b, fn(*b)


# ---- constructors -----------------------------------------------------------------------
def input_array(name, shape, comps, gen=None, facts=None, params=()):
    """A universally quantified array. facts(idx, value) -> terms assumed for every in-range element."""
    return make("input", tuple(shape), (), comps, extra=("input", name), name=name,
                meta={"gen": gen, "facts": facts}, extra_params=params)


def uniform_array(serial, shape, params=()):
    return make("uniform", tuple(shape), (), ("v",), extra=("uniform", serial), name="U%s" % (serial,),
                extra_params=params)


def transform(kind, shape, fn):
    """2-D DFT of the last two axes ('fft2' or 'ifft2'); result complex."""
    b, v = evaluate(fn, len(shape))
    v = cx(v)
    return make(kind, tuple(shape), (v.re, v.im), ("re", "im"), idx=tuple(b))


def _indep(t, bs):
    return not (free_vars(t) & bs)


def sum_term(shape, fn):
    """SUM over the index box of fn (real); constants pulled out, sums split."""
    b, v = evaluate(fn, len(shape))
    if isinstance(v, Cx):
        return Cx(_sum(shape, b, v.re), _sum(shape, b, v.im))
    if v.sort == "B":
        v = ite(v, num(1), num(0))
    return _sum(shape, b, v)


def _masked(t):
    "t = if(c, x, 0): (c, x)"
    if t.op != "ite":
        return None
    c, a, b = t.args
    if T.is_num(b) and b.val == 0:
        return c, a
    if T.is_num(a) and a.val == 0:
        return T.not_(c), b
    return None


def _expand(t):
    """Distribute products over sums so that sums split (bounded)."""
    if t.op == "lin":
        return T.add(num(t.val[0]), *[T.scale(_expand(a), c) for a, c in zip(t.args, t.val[1])])
    if t.op == "mul":
        acc = [num(1)]
        for a, e in zip(t.args, t.val):
            a = _expand(a)
            for _ in range(e if a.op == "lin" and e <= 3 else 1):
                f = a if a.op == "lin" and e <= 3 else T.power(a, e)
                if f.op == "lin":
                    parts = ([num(f.val[0])] if f.val[0] else []) + [T.scale(x, c) for x, c in zip(f.args, f.val[1])]
                else:
                    parts = [f]
                acc = [T.mul(x, y) for x in acc for y in parts]
                if len(acc) > 64:
                    return t
        return T.add(*acc)
    if t.op == "ite" and t.sort != "B":
        m = _masked(t)
        if m is not None:
            cond, a = m
            a = _expand(a)
            if a.op == "lin":
                return T.add(*[T.scale(ite(cond, x, num(0)), c) for x, c in zip(a.args, a.val[1])],
                             T.scale(ite(cond, num(1), num(0)), a.val[0]))
            if a.op == "mul":
                return t
    return t


def _sum(shape, b, v):
    bs = frozenset(b)
    count = T.mul(*shape) if shape else num(1)
    out = num(0)
    v = _expand(v)
    c, parts = T._lin_parts(v)
    if c:
        out = out + T.scale(count, c)
    for t, k in parts.items():
        out = out + T.scale(_sum_atom(shape, b, bs, t, count), k)
    return out


def _sum_atom(shape, b, bs, t, count):
    if _indep(t, bs):
        return T.mul(t, count)
    if t.op == "mul":
        outer = [T.power(a, e) for a, e in zip(t.args, t.val) if _indep(a, bs)]
        inner = [T.power(a, e) for a, e in zip(t.args, t.val) if not _indep(a, bs)]
        if outer:
            return T.mul(*outer, _sum(shape, b, T.mul(*inner)))
    m = _masked(t)
    if m is not None:
        # pull constant factors out of a masked term
        cond, t1 = m
        c, p = T._mul_parts(t1)
        outer = [T.power(a, e) for a, e in p.items() if _indep(a, bs)]
        if c != 1 or outer:
            inner = T.mul(*[T.power(a, e) for a, e in p.items() if not _indep(a, bs)])
            return T.mul(num(c), *outer, _sum(shape, b, ite(cond, inner, num(0))))
    a = make("sum", (), (t,), ("v",), extra=tuple(s.id for s in shape), idx=tuple(b), meta=None,
             extra_params=free_of(*shape))
    a.meta = {"box": tuple(shape)}
    return a.at(())


def max_term(shape, fn, kind="max"):
    b, v = evaluate(fn, len(shape))
    if v.sort == "B":
        v = ite(v, num(1), num(0))
    a = make(kind, (), (v,), ("v",), extra=tuple(s.id for s in shape), idx=tuple(b), extra_params=free_of(*shape))
    a.meta = {"box": tuple(shape)}
    return a.at(())


def box_numeric(self, env):
    shape = tuple(max(int(np.rint(float(env.ev(s)))), 0) for s in self.meta["box"])
    return shape, OArr.num_body(self, env, shape)[0]


def _num_sum(self, env):
    shape, d = box_numeric(self, env)
    return np.asarray(np.sum(np.asarray(d, dtype=float)))


def _num_max(self, env):
    shape, d = box_numeric(self, env)
    return np.asarray(np.max(d) if d.size else np.nan)


def _num_min(self, env):
    shape, d = box_numeric(self, env)
    return np.asarray(np.min(d) if d.size else np.nan)


def _num_input(self, env):
    shape = self.num_shape(env)
    gen = (self.meta or {}).get("gen")
    rng = env.rng
    if gen is not None:
        return np.asarray(gen(rng, shape))
    if self.comps == ("re", "im"):
        d = rng.normal(size=shape) + 1j * rng.normal(size=shape)
        return d
    if self.comps == ("b",):
        return rng.integers(0, 2, size=shape).astype(bool)
    if self.comps == ("i",):
        return rng.integers(-3, 4, size=shape)
    if rng.uniform() < 0.3:
        return rng.integers(-3, 4, size=shape) / 2.0
    return rng.normal(size=shape)


def _num_uniform(self, env):
    return env.rng.uniform(size=self.num_shape(env))


def _num_fft(f):
    def g(self, env):
        shape = self.num_shape(env)
        re, im = self.num_body(env, shape)
        if min(shape) == 0:
            return np.zeros(shape, complex)
        return f(re + 1j * im)
    return g


_NUMERIC = {"input": _num_input, "uniform": _num_uniform, "sum": _num_sum, "max": _num_max, "min": _num_min,
            "fft2": _num_fft(lambda z: np.fft.fft2(z)), "ifft2": _num_fft(lambda z: np.fft.ifft2(z))}


# ---- loop iterates ----------------------------------------------------------------------
# A group describes s(0) = init, s(k+1) = step(k, s(k)) for several components; the component arrays are
# indexed (k, *idx).
K = lambda: var("$k", "I")


class Group:
    """s(0) = init, s(k+1) = step(k, s(k)); the component arrays are indexed (k, *idx) and occur in step at $k only."""

    def __init__(self, name):
        self.name, self.arrays, self.init, self.step, self.idx = name, [], [], [], []

    def add(self, cname, shape, comps):
        a = OArr("iter", "%s.%s" % (self.name, cname), (), (num(0),) + tuple(shape), (), (), comps,
                 {"group": self, "pos": len(self.arrays)})
        a.key = ("iter", id(self), len(self.arrays))
        self.arrays.append(a)
        self.init.append(None)
        self.step.append(None)
        self.idx.append(None)
        return a

    def prune(self, used):
        keep = [k for k, a in enumerate(self.arrays) if a in used]
        for f in ("arrays", "init", "step", "idx"):
            setattr(self, f, [getattr(self, f)[k] for k in keep])
        for k, a in enumerate(self.arrays):
            a.meta["pos"] = k

    def numeric(self, env, kmax=4):
        env = env.root
        done = env.arrays.get(("group", id(self)))
        if done is not None:
            return done
        bufs = []
        for a in self.arrays:
            sh = tuple(int(np.rint(float(env.ev(s)))) for s in a.shape[1:])
            bufs.append(np.full((kmax + 1,) + sh, np.nan, dtype={"re": complex, "v": float, "i": float, "b": float}[a.comps[0]]))
        for a, b in zip(self.arrays, bufs):
            env.arrays[(a, ())] = b
        env.arrays[("group", id(self))] = bufs
        for k in range(kmax + 1):
            src = self.init if k == 0 else self.step
            new = []
            for a, body, idx, buf in zip(self.arrays, src, self.idx, bufs):
                grids = np.meshgrid(*[np.arange(n) for n in buf.shape[1:]], indexing="ij") if buf.ndim > 1 else []
                e = env.child({"$k": k - 1, **{v.val: g for v, g in zip(idx, grids)}})
                vals = [np.broadcast_to(np.asarray(e.ev(t)), buf.shape[1:]) for t in body]
                new.append(vals[0] + 1j * vals[1] if a.comps[0] == "re" else vals[0])
            for buf, v in zip(bufs, new):
                buf[k] = v
        return bufs


def iter_numeric(self, env):
    return self.meta["group"].numeric(env)[self.meta["pos"]]


_NUMERIC["iter"] = iter_numeric


def arrays_in(*vals):
    """All arrays occurring in the values, transitively through bodies (iterates: their group is not entered)."""
    seen, stack, tseen = set(), [], set()
    for v in vals:
        stack.extend([v.re, v.im] if isinstance(v, Cx) else [v])
    while stack:
        t = stack.pop()
        if t in tseen:
            continue
        tseen.add(t)
        if t.op == "elem":
            a = t.val[0]
            if a not in seen:
                seen.add(a)
                stack.extend(a.body)
                stack.extend(a.shape)
        stack.extend(t.args)
    return seen

"""Immutable symbolic array cores shared by the TensorFlow and NumPy models."""
from fractions import Fraction
from . import terms as T
from . import arr as A
from .arr import Cx, cx, ite_v
from .terms import num
from .ctx import cur, Unsupported

DT = ("bool", "uint8", "int8", "int16", "int32", "int64", "float16", "float32", "float64", "complex64", "complex128")


def kind(dt):
    return {"b": "b", "u": "i", "i": "i", "f": "f", "c": "c"}[dt[0]]


def real_of(dt):
    return {"complex64": "float32", "complex128": "float64"}.get(dt, dt)


def complex_of(dt):
    return {"float32": "complex64", "float64": "complex128"}.get(dt, dt)


def convert(v, src, dst):
    """element conversion (value semantics of astype / cast)"""
    ks, kd = kind(src), kind(dst)
    if ks == kd:
        if dst == "uint8" and src != "uint8":
            if T.is_num(v) and 0 <= v.val < 256:
                return v
            return T.mod(v, num(256))
        return v
    if ks == "b":
        b = T.ite(v, num(1), num(0))
        return Cx(b) if kd == "c" else b
    if kd == "b":
        if ks == "c":
            return T.not_(T.and_(T.eq(v.re, num(0)), T.eq(v.im, num(0))))
        return T.ne(v, num(0))
    if ks == "c":
        return convert(v.re, real_of(src), dst)
    if kd == "c":
        return Cx(v)
    if kd == "i":
        t = T.trunc(v)
        if dst == "uint8":
            return T.mod(t, num(256)) if not (T.is_num(t) and 0 <= t.val < 256) else t
        return t
    return v                     # int -> float


def shape_eq(a, b):
    return len(a) == len(b) and all(cur().decide(T.eq(x, y)) for x, y in zip(a, b))


class ShapeError(Exception):
    pass


def broadcast_shapes(*shapes):
    n = max((len(s) for s in shapes), default=0)
    out = []
    for k in range(n):
        d = num(1)
        for s in shapes:
            p = k - (n - len(s))
            if p < 0:
                continue
            e = s[p]
            if d is e or (T.is_num(e) and e.val == 1):
                continue
            if T.is_num(d) and d.val == 1:
                d = e
                continue
            if T.is_num(d) and T.is_num(e):
                raise ShapeError("incompatible shapes")
            if cur().decide(T.eq(d, e)):
                if T.is_num(e):
                    d = e
                continue
            if cur().decide(T.eq(e, num(1))):
                continue
            if cur().decide(T.eq(d, num(1))):
                d = e
                continue
            raise ShapeError("incompatible shapes")
        out.append(d)
    return tuple(out)


class Core:
    __slots__ = ("shape", "dtype", "fn", "memo")

    def __init__(self, shape, dtype, fn):
        self.shape, self.dtype, self.fn, self.memo = tuple(T.lift(s) for s in shape), dtype, fn, {}
        assert dtype in DT, dtype

    @property
    def rank(self): return len(self.shape)

    def at(self, *idx):
        idx = tuple(T.lift(i) for i in idx)
        v = self.memo.get(idx)
        if v is None:
            v = self.fn(*idx)
            k = kind(self.dtype)
            if k == "c":
                v = cx(v)
            elif isinstance(v, Cx):
                raise AssertionError("complex element in a real array")
            if k == "b" and v.sort != "B":
                raise AssertionError("non-boolean element")
            self.memo[idx] = v
        return v

    def astype(self, dt):
        if dt == self.dtype:
            return self
        src = self.dtype
        return Core(self.shape, dt, lambda *i: convert(self.at(*i), src, dt))

    def broadcast_to(self, shape):
        shape = tuple(shape)
        if len(shape) == len(self.shape) and all(a is b for a, b in zip(shape, self.shape)):
            return self
        off = len(shape) - len(self.shape)
        if off < 0:
            raise ShapeError("cannot broadcast")
        one = []
        for k, s in enumerate(self.shape):
            t = shape[off + k]
            if s is t:
                one.append(False)
            elif T.is_num(s) and s.val == 1:
                one.append(True)
            elif cur().decide(T.eq(s, t)):
                one.append(False)
            elif cur().decide(T.eq(s, num(1))):
                one.append(True)
            else:
                raise ShapeError("cannot broadcast")
        return Core(shape, self.dtype,
                    lambda *i: self.at(*[num(0) if o else x for o, x in zip(one, i[off:])]))

    def rename(self):
        return self


def const(v, dtype, shape=()):
    return Core(shape, dtype, lambda *i: v)


def emap(f, dtype, *cores):
    shape = broadcast_shapes(*[c.shape for c in cores])
    bs = [c.broadcast_to(shape) for c in cores]
    return Core(shape, dtype, lambda *i: f(*[b.at(*i) for b in bs]))


def size(shape):
    return T.mul(*shape) if shape else num(1)


def ravel_index(shape, idx):
    k = num(0)
    for s, i in zip(shape, idx):
        k = T.add(T.mul(k, s), i)
    return k


def unravel_index(shape, k):
    out = []
    for s in reversed(shape[1:]):
        out.append(T.mod(k, s))
        k = T.fdiv(k, s)
    out.append(k)
    return list(reversed(out)) if shape else []


def reshape(c, shape):
    """shape: Terms, at most one is None (inferred)"""
    shape = list(shape)
    if any(s is None for s in shape):
        known = size([s for s in shape if s is not None])
        total = size(c.shape)
        # infer by cancelling equal dimensions
        rest = list(c.shape)
        ok = True
        for s in shape:
            if s is not None:
                if s in rest:
                    rest.remove(s)
                elif not (T.is_num(s) and s.val == 1):
                    ok = False
        inferred = size(rest) if ok else T.fdiv(total, known)
        shape = [inferred if s is None else s for s in shape]
    shape = tuple(shape)
    if len(shape) == len(c.shape) and all(a is b for a, b in zip(shape, c.shape)):
        return c
    a = [s for s in shape if not (T.is_num(s) and s.val == 1)]
    b = [s for s in c.shape if not (T.is_num(s) and s.val == 1)]
    if len(a) == len(b) and all(x is y for x, y in zip(a, b)):
        pos = [k for k, s in enumerate(shape) if not (T.is_num(s) and s.val == 1)]
        tpos = [k for k, s in enumerate(c.shape) if not (T.is_num(s) and s.val == 1)]

        def f(*i):
            j = [num(0)] * len(c.shape)
            for p, q in zip(pos, tpos):
                j[q] = i[p]
            return c.at(*j)
        return Core(shape, c.dtype, f)
    if not cur().decide(T.eq(size(shape), size(c.shape))):
        raise ShapeError("cannot reshape")
    return Core(shape, c.dtype, lambda *i: c.at(*unravel_index(c.shape, ravel_index(shape, i))))


def transpose(c, perm=None):
    n = len(c.shape)
    perm = list(range(n))[::-1] if perm is None else list(perm)

    def f(*i):
        j = [None] * n
        for k, p in enumerate(perm):
            j[p] = i[k]
        return c.at(*j)
    return Core([c.shape[p] for p in perm], c.dtype, f)


def roll(c, shift, axis):
    """element i of the result is element (i - shift) mod n; shift any integer term with |shift| <= n or arbitrary"""
    n = c.shape[axis]
    axis = axis % len(c.shape)
    ent = cur().entails
    pos = ent(T.and_(T.le(num(0), shift), T.le(shift, n)))
    neg = not pos and ent(T.and_(T.le(T.scale(n, -1), shift), T.le(shift, num(0))))

    def f(*i):
        j = list(i)
        k = T.sub(i[axis], shift)
        if pos:
            j[axis] = T.ite(T.lt(k, num(0)), T.add(k, n), k)
        elif neg:
            j[axis] = T.ite(T.le(n, k), T.sub(k, n), k)
        else:
            j[axis] = T.mod(k, n)
        return c.at(*j)
    return Core(c.shape, c.dtype, f)


def fftshift(c, axes=None, inverse=False):
    axes = range(len(c.shape)) if axes is None else axes
    for a in axes:
        h = T.fdiv(c.shape[a], num(2))
        n = c.shape[a]

        def mk(c, a, h, n):
            def f(*i):
                j = list(i)
                if inverse:          # roll by -(n//2)
                    k = T.add(i[a], h)
                    j[a] = T.ite(T.lt(k, n), k, T.sub(k, n))
                else:
                    k = T.sub(i[a], h)
                    j[a] = T.ite(T.lt(k, num(0)), T.add(k, n), k)
                return c.at(*j)
            return Core(c.shape, c.dtype, f)
        c = mk(c, a % len(c.shape), h, n)
    return c


def zero_of(dtype):
    return T.FALSE() if dtype == "bool" else Cx(num(0)) if kind(dtype) == "c" else num(0)


def one_of(dtype):
    return T.TRUE() if dtype == "bool" else Cx(num(1)) if kind(dtype) == "c" else num(1)


def pad(c, before, after, value=None):
    value = zero_of(c.dtype) if value is None else value
    shape = [T.add(s, b, a) for s, b, a in zip(c.shape, before, after)]

    def f(*i):
        j = [T.sub(x, b) for x, b in zip(i, before)]
        inr = T.and_(*[T.and_(T.le(num(0), x), T.lt(x, s)) for x, s in zip(j, c.shape)])
        if inr.op == "bool":
            return c.at(*j) if inr.val else value
        return ite_v(inr, c.at(*j), value)
    return Core(shape, c.dtype, f)


def stack(cores, axis, dtype):
    shape = list(cores[0].shape)
    for c in cores[1:]:
        if not shape_eq(c.shape, cores[0].shape):
            raise ShapeError("stack")
    axis = axis % (len(shape) + 1)
    cs = [c.astype(dtype) for c in cores]
    out = shape[:axis] + [num(len(cs))] + shape[axis:]

    def f(*i):
        k, j = i[axis], list(i[:axis] + i[axis + 1:])
        if T.is_num(k):
            return cs[int(k.val)].at(*j)
        v = cs[-1].at(*j)
        for n in range(len(cs) - 2, -1, -1):
            v = ite_v(T.eq(k, num(n)), cs[n].at(*j), v)
        return v
    return Core(out, dtype, f)


def concat(cores, axis, dtype):
    r = len(cores[0].shape)
    axis = axis % r
    cs = [c.astype(dtype) for c in cores]
    for c in cs[1:]:
        for k in range(r):
            if k != axis and not cur().decide(T.eq(c.shape[k], cs[0].shape[k])):
                raise ShapeError("concat")
    offs = [num(0)]
    for c in cs:
        offs.append(T.add(offs[-1], c.shape[axis]))
    shape = list(cs[0].shape)
    shape[axis] = offs[-1]

    def f(*i):
        def at(n):
            j = list(i)
            j[axis] = T.sub(i[axis], offs[n])
            return cs[n].at(*j)
        v = at(len(cs) - 1)
        for n in range(len(cs) - 2, -1, -1):
            v = ite_v(T.lt(i[axis], offs[n + 1]), at(n), v)
        return v
    return Core(shape, dtype, f)


def reduce(c, op, axes=None, keepdims=False):
    """op: sum, max, min, any, all"""
    n = len(c.shape)
    axes = list(range(n)) if axes is None else sorted(a % n for a in axes)
    rest = [k for k in range(n) if k not in axes]

    def join(i, b):
        j = [None] * n
        for k, v in zip(rest, i):
            j[k] = v
        for k, v in zip(axes, b):
            j[k] = v
        return j
    box = [c.shape[k] for k in axes]
    if any(T.is_num(s) and s.val <= 0 for s in box) and op in ("max", "min"):
        raise ShapeError("reduction of empty array")

    def f(*i):
        if keepdims:
            i = [i[k] for k in rest]
        g = lambda *b: c.at(*join(i, b))
        if not box:
            v = g()
            return v
        if op == "sum":
            return A.sum_term(box, g)
        if op in ("max", "min"):
            return A.max_term(box, g, op)
        if op == "any":
            return T.le(num(1), A.max_term(box, lambda *b: T.ite(g(*b), num(1), num(0)), "max"))
        if op == "all":
            return T.le(num(1), A.max_term(box, lambda *b: T.ite(g(*b), num(1), num(0)), "min"))
        raise AssertionError(op)
    dt = c.dtype
    if op == "sum" and dt == "bool":
        dt = "int64"
    out = [num(1) if k in axes else c.shape[k] for k in range(n)] if keepdims else [c.shape[k] for k in rest]
    if op == "sum" and kind(dt) == "i":
        base = f
        f2 = lambda *i: _int(base(*i))
        core = Core(out, dt, f2)
    else:
        core = Core(out, dt, f)
    if not rest or keepdims is False and not rest:
        v = f(*([num(0)] * len(out)))
        if op == "sum" and kind(dt) == "i":
            v = _int(v)
        return Core(out, dt, lambda *i: v)
    return core


def _int(v):
    return v if v.sort == "I" else T.floor(v)


def getitem(c, key):
    """basic indexing; key: tuple of None, Ellipsis, int terms, slice of Terms/None"""
    n_real = sum(1 for k in key if k is not None and k is not Ellipsis)
    full = []
    for k in key:
        if k is Ellipsis:
            full += [slice(None)] * (c.rank - n_real)
        else:
            full.append(k)
    while sum(1 for k in full if k is not None) < c.rank:
        full.append(slice(None))
    if sum(1 for k in full if k is not None) > c.rank:
        raise IndexError("too many indices")
    shape, maps, d = [], [], 0
    for k in full:
        if k is None:
            shape.append(num(1))
            maps.append(("new",))
            continue
        n = c.shape[d]
        if isinstance(k, slice):
            st, cnt, step = slice_bounds(k, n)
            maps.append(("slice", st, step))
            shape.append(cnt)
        else:
            k = T.lift(k)
            ctx = cur()
            if not ctx.decide(T.and_(T.le(T.scale(n, -1), k), T.lt(k, n))):
                raise IndexError("index out of range")
            if ctx.decide(T.lt(k, num(0))):
                k = T.add(k, n)
            maps.append(("int", k))
        d += 1

    def f(*i):
        j, p = [], 0
        for m in maps:
            if m[0] == "new":
                p += 1
            elif m[0] == "slice":
                j.append(T.add(m[1], T.mul(m[2], i[p])))
                p += 1
            else:
                j.append(m[1])
        return c.at(*j)
    return Core(shape, c.dtype, f), maps


def slice_bounds(k, n):
    """-> (start, count, step) as terms; step a nonzero integer constant"""
    step = 1 if k.step is None else int(T.lift(k.step).val)
    ctx = cur()

    def clampi(v, lo, hi):
        v = T.lift(v)
        if ctx.decide(T.lt(v, num(0))):
            v = T.add(v, n)
            if ctx.decide(T.lt(v, lo)):
                return lo
            return v
        if ctx.decide(T.lt(hi, v)):
            return hi
        return v
    if step > 0:
        a = num(0) if k.start is None else clampi(k.start, num(0), n)
        b = n if k.stop is None else clampi(k.stop, num(0), n)
        cnt = T.sub(b, a)
        if ctx.decide(T.lt(cnt, num(0))):
            cnt = num(0)
        if step != 1:
            cnt = T.fdiv(T.add(cnt, num(step - 1)), num(step))
        return a, cnt, num(step)
    a = T.sub(n, num(1)) if k.start is None else clampi(k.start, num(-1), T.sub(n, num(1)))
    b = num(-1) if k.stop is None else clampi(k.stop, num(-1), T.sub(n, num(1)))
    cnt = T.sub(a, b)
    if ctx.decide(T.lt(cnt, num(0))):
        cnt = num(0)
    if step != -1:
        cnt = T.fdiv(T.add(cnt, num(-step - 1)), num(-step))
    return a, cnt, num(step)

"""Assumed contracts of the NumPy / SciPy operations (elementwise meaning over reals; NumPy 2 dtype rules)."""
import builtins
import numpy as _np
from . import terms as T
from . import arr as A
from . import nd
from . import loops as L
from . import tensors as X
from . import pyshim as S
from .arr import Cx, cx, ite_v
from .nd import Core, kind, emap, const
from .terms import num
from .ctx import cur, Unsupported
from .pyvals import PyNum, SFloat, SInt, mk, val, nval, pk, SList, symseq
from .pyshim import Namespace
from .tensors import (NpArray, TfBase, MaskedVec, NP, NPT, dtname, to_np, np_bin, np_cmp, np_logic, np_un, np_abs, np_real, np_imag,
                      np_reduce, np_mean, to_dims, res, promote, norm_axes, dim_value)


def npdt(d):
    return None if d is None else dtname(d)


def asarray(x, dtype=None, **k):
    if isinstance(x, NpArray) and not x._scalar and (dtype is None or npdt(dtype) == x.core.dtype):
        return x
    r = to_np(x, npdt(dtype))
    return NpArray(r.core) if isinstance(r, NpArray) else r


def array(x, dtype=None, copy=True, ndmin=0, order=None, **k):
    if k:
        raise Unsupported("np.array options")
    r = to_np(x, npdt(dtype))
    if isinstance(r, MaskedVec):
        return r
    c = r.core
    for _ in builtins.range(ndmin - c.rank):
        c0 = c
        c = Core((num(1),) + tuple(c0.shape), c0.dtype, lambda i, *j, c0=c0: c0.at(*j))
    if copy is False and isinstance(x, NpArray) and not x._scalar and r is x:
        return x
    return NpArray(c)


def full_of(v, shape, d):
    return NpArray(const(v, d, to_dims(shape)))


def zeros(shape, dtype=float, order="C"):
    d = npdt(dtype) or "float64"
    return full_of(nd.zero_of(d), shape, d)


def ones(shape, dtype=None, order="C"):
    d = npdt(dtype) or "float64"
    return full_of(nd.one_of(d), shape, d)


def empty(shape, dtype=float, order="C"):
    d = npdt(dtype) or "float64"
    ctx = cur()
    comps = {"c": ("re", "im"), "f": ("v",), "i": ("i",), "b": ("b",)}[kind(d)]
    dims = to_dims(shape)
    a = A.input_array("uninitialised%d" % next(ctx.counter), dims, comps)
    return NpArray(Core(dims, d, lambda *i: a.at(i)))


def full(shape, fill_value, dtype=None, order="C"):
    v = to_np(fill_value).core
    d = npdt(dtype) or v.dtype
    v = v.astype(d)
    return NpArray(v.broadcast_to(to_dims(shape)))


def _like(f):
    def g(a, dtype=None, order="K", subok=True, shape=None):
        c = to_np(a).core
        return f(c.shape if shape is None else shape, npdt(dtype) or c.dtype)
    return g


def zeros_like(a, dtype=None, **k): return _like(lambda s, d: full_of(nd.zero_of(d), s, d))(a, dtype, **k)
def ones_like(a, dtype=None, **k): return _like(lambda s, d: full_of(nd.one_of(d), s, d))(a, dtype, **k)
def empty_like(a, dtype=None, **k): return _like(lambda s, d: empty(s, NP[d]))(a, dtype, **k)


def full_like(a, v, dtype=None, **k):
    c = to_np(a).core
    return full(c.shape, v, dtype or NP[c.dtype])


class NpRange(NpArray):
    pass


def arange(start, stop=None, step=1, dtype=None):
    if stop is None:
        start, stop = 0, start
    ps = [X.tonum(p) for p in (start, stop, step)]
    d = npdt(dtype) or ("float64" if any(pk(p) == "f" for p in ps) else "int64")
    a, b, s = [nval(p) for p in ps]
    if not T.is_num(s):
        raise Unsupported("np.arange with symbolic step")
    if s.val == 0:
        raise ZeroDivisionError("division by zero")
    q = T.scale(T.sub(b, a), 1 / s.val)
    n = q if q.sort == "I" else T.ceil(q)
    if not cur().decide(T.le(num(0), n)):
        n = num(0)
    return NpArray(Core((n,), d, lambda k: nd.convert(T.add(a, T.mul(k, s)), "float64" if T.add(a, s).sort != "I" else "int64", d)))


def linspace(start, stop, num_=50, endpoint=True, retstep=False, dtype=None, **kw):
    if "num" in kw:
        num_ = kw.pop("num")
    if kw or retstep:
        raise Unsupported("np.linspace options")
    a, b, n = nval(X.tonum(start)), nval(X.tonum(stop)), X.idx_term(nval(X.tonum(num_)))
    d = npdt(dtype) or "float64"
    den = T.sub(n, num(1)) if endpoint else n
    return NpArray(Core((n,), d, lambda k: T.add(a, T.div(T.mul(T.sub(b, a), k), den))))


def meshgrid(*xi, indexing="xy", sparse=False, copy=True):
    if sparse:
        raise Unsupported("sparse meshgrid")
    if indexing not in ("xy", "ij"):
        raise ValueError("Valid values for `indexing` are 'xy' and 'ij'.")
    cs = [to_np(a).core for a in xi]
    cs = [nd.reshape(c, [None]) if c.rank != 1 else c for c in cs]
    shape = [c.shape[0] for c in cs]
    order = builtins.list(builtins.range(len(cs)))
    if indexing == "xy" and len(cs) >= 2:
        order[0], order[1] = 1, 0
    out = [shape[o] for o in order]
    return builtins.tuple(NpArray(Core(out, c.dtype, lambda *i, c=c, p=order.index(k): c.at(i[p]))) for k, c in builtins.enumerate(cs))


class MGrid:
    def __init__(self, rev=False):
        pass

    def __getitem__(self, key):
        key = key if isinstance(key, tuple) else (key,)
        axes = []
        for k in key:
            if pk(k.step) == "c":
                raise Unsupported("mgrid with complex step")
            axes.append(arange(k.start if k.start is not None else 0, k.stop, k.step if k.step is not None else 1))
        g = meshgrid(*axes, indexing="ij")
        if len(g) == 1:
            return g[0]
        return stack(g)


def indices(dimensions, dtype=int, sparse=False):
    if sparse:
        raise Unsupported("sparse indices")
    dims = to_dims(dimensions)
    return stack([NpArray(Core(dims, npdt(dtype), lambda *i, p=p: i[p])) for p in builtins.range(len(dims))])


# ---- shape ----------------------------------------------------------------------------------------------------------------
def _cores(seq):
    if symseq(seq) is not None and not isinstance(seq, NpArray):
        return None
    xs = [to_np(x).core for x in seq]
    d = promote(*[c.dtype for c in xs])
    return [c.astype(d) for c in xs], d


def stack(arrays, axis=0, **k):
    r = _cores(arrays)
    if r is None:
        if axis != 0:
            raise Unsupported("np.stack of a symbolic list")
        return to_np(arrays)
    return NpArray(X.np_err(nd.stack)(r[0], builtins.int(axis), r[1]))


def concatenate(arrays, axis=0, **k):
    if k:
        raise Unsupported("np.concatenate options")
    s = symseq(arrays)
    if s is not None and not T.is_num(s[0]):
        n, get = s
        if axis != 0:
            raise Unsupported("np.concatenate of a symbolic list along axis %s" % axis)
        kk, = A.binders(1)
        with A.scope():
            c0 = to_np(get(kk)).core
        if kk in A.free_of(*c0.shape):
            raise Unsupported("np.concatenate of arrays of different lengths")
        if not cur().decide(T.lt(num(0), n)):
            raise ValueError("need at least one array to concatenate")
        m = c0.shape[0]

        def fn(i, *j):
            return to_np(get(T.fdiv(i, m))).core.at(T.mod(i, m), *j)
        return NpArray(Core((T.mul(n, m),) + tuple(c0.shape[1:]), c0.dtype, fn))
    if s is not None:
        arrays = [get_ for get_ in (s[1](num(k)) for k in builtins.range(builtins.int(s[0].val)))]
    xs = builtins.list(arrays)
    if not xs:
        raise ValueError("need at least one array to concatenate")
    r = _cores(xs)
    if axis is None:
        return NpArray(nd.concat([nd.reshape(c, [None]) for c in r[0]], 0, r[1]))
    return NpArray(X.np_err(nd.concat)(r[0], builtins.int(axis), r[1]))


def vstack(t, **k):
    if symseq(t) is not None and not T.is_num(symseq(t)[0]):
        return concatenate(t)
    return concatenate([a if to_np(a).core.rank > 1 else to_np(a).reshape(1, -1) for a in t], 0)


def hstack(t, **k):
    return concatenate(t, 1 if to_np(builtins.list(t)[0]).core.rank > 1 else 0)


def ravel(a, order="C"): return to_np(a).ravel(order)
def reshape(a, shape, order="C", **k): return to_np(a).reshape(shape, order=order)
def transpose(a, axes=None): return to_np(a).transpose(axes)


def flip(m, axis=None):
    c = to_np(m).core
    ax = builtins.range(c.rank) if axis is None else [a % c.rank for a in norm_axes(axis, c.rank)]
    ax = builtins.set(ax)
    return NpArray(Core(c.shape, c.dtype, lambda *i: c.at(*[T.sub(T.sub(c.shape[k], num(1)), v) if k in ax else v
                                                             for k, v in builtins.enumerate(i)])))


def roll(a, shift, axis=None):
    c = to_np(a).core
    if axis is None:
        sh = c.shape
        f = nd.roll(nd.reshape(c, [None]), X.idx_term(nval(X.tonum(shift))), 0)
        return NpArray(nd.reshape(f, sh))
    sh = shift if isinstance(shift, (list, tuple)) else [shift]
    ax = axis if isinstance(axis, (list, tuple)) else [axis]
    if len(sh) == 1 and len(ax) > 1:
        sh = builtins.list(sh) * len(ax)
    for s, x in builtins.zip(sh, ax):
        c = nd.roll(c, X.idx_term(nval(X.tonum(s))), builtins.int(x) % c.rank)
    return NpArray(c)


def pad(a, pad_width, mode="constant", constant_values=0, **k):
    if mode != "constant" or k:
        raise Unsupported("np.pad mode")
    c = to_np(a).core
    if pk(pad_width) is not None:
        pairs = [(pad_width, pad_width)] * c.rank
    else:
        rows = builtins.list(pad_width)
        if pk(rows[0]) is not None:
            pairs = [(rows[0], rows[-1])] * c.rank
        else:
            rows = [builtins.list(r) for r in rows]
            pairs = [(r[0], r[-1]) for r in (rows * c.rank if len(rows) == 1 else rows)]
    pairs = [tuple(X.idx_term(nval(X.tonum(v))) for v in p) for p in pairs]
    for p in pairs:
        for v in p:
            if not cur().decide(T.le(num(0), v)):
                raise ValueError("index can't contain negative values")
    v = to_np(constant_values).core.astype(c.dtype).at()
    return NpArray(nd.pad(c, [p[0] for p in pairs], [p[1] for p in pairs], v))


def expand_dims(a, axis):
    c = to_np(a).core
    axis = builtins.int(axis)
    if axis < 0:
        axis += c.rank + 1
    return NpArray(nd.getitem(c, tuple([slice(None)] * axis + [None, Ellipsis]))[0])


def broadcast_to(a, shape, **k):
    return NpArray(X.np_err(lambda: to_np(a).core.broadcast_to(to_dims(shape)))())


def moveaxis(*a): raise Unsupported("np.moveaxis")


def tile(a, reps):
    c = to_np(a).core
    m = to_dims(reps if isinstance(reps, (tuple, list)) else (reps,))
    if len(m) != c.rank:
        raise Unsupported("np.tile ranks")
    return NpArray(Core([T.mul(s, k) for s, k in builtins.zip(c.shape, m)], c.dtype,
                        lambda *i: c.at(*[T.mod(v, s) for v, s in builtins.zip(i, c.shape)])))


# ---- ufuncs -----------------------------------------------------------------------------------------------------------------
def tensor_first(f):
    """np.ufunc(tensor) works on its value and returns NumPy objects"""
    def conv(x):
        return NpArray(x.core, scalar=x.core.rank == 0) if isinstance(x, TfBase) else x

    def g(*a, out=None, where=None, dtype=None, casting=None, **k):
        if out is not None or where is not None or dtype is not None or k:
            raise Unsupported("ufunc options")
        return f(*[conv(x) for x in a])
    return g


def un(name): return tensor_first(lambda x: np_un(name, x))
def bi(op): return tensor_first(lambda x, y: _bi(np_bin, op, x, y))
def cmp(op): return tensor_first(lambda x, y: _bi(np_cmp, op, x, y))


def _bi(f, op, x, y):
    if isinstance(x, MaskedVec) or isinstance(y, MaskedVec):
        m = x if isinstance(x, MaskedVec) else y
        py = {"add": lambda a, b: a + b, "sub": lambda a, b: a - b, "mul": lambda a, b: a * b, "div": lambda a, b: a / b}.get(op)
        if py is None:
            raise Unsupported("masked %s" % op)
        return py(x, y)
    return f(op, *[v if isinstance(v, NpArray) else to_np(v) if pk(v) is None else v for v in (x, y)])


@tensor_first
def square(x):
    if isinstance(x, MaskedVec):
        return x * x
    return np_un("square", x)


@tensor_first
def angle(z, deg=False):
    c = to_np(z).core
    if kind(c.dtype) == "c":
        r = emap(lambda v: cx(v).angle(), nd.real_of(c.dtype), c)
    else:
        r = emap(lambda v: T.ite(T.lt(v, num(0)), T.PI(), num(0)), c.dtype if kind(c.dtype) == "f" else "float64", c.astype(c.dtype if kind(c.dtype) == "f" else "float64"))
    return res(r)


@tensor_first
def hypot(x, y):
    return np_un("sqrt", np_bin("add", np_bin("mul", x, x), np_bin("mul", y, y)))


@tensor_first
def logical_not(x):
    return res(emap(T.not_, "bool", to_np(x).core.astype("bool")))


def logical(op):
    def f(x, y):
        return np_logic(op, res(to_np(x).core.astype("bool")), res(to_np(y).core.astype("bool")))
    return tensor_first(f)


def bitwise(op):
    return tensor_first(lambda x, y: np_logic(op, x, y))


@tensor_first
def invert(x):
    return ~to_np(x)


def isclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    a, b = to_np(a), to_np(b)
    return np_cmp("le", np_abs(np_bin("sub", a, b)), np_bin("add", to_np(atol), np_bin("mul", to_np(rtol), np_abs(b))))


def allclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    return S.c_bool(red("all")(isclose(a, b, rtol, atol)))


def where(c, x=None, y=None):
    if x is None:
        raise Unsupported("np.where with one argument")
    cc = to_np(c).core.astype("bool")
    a, b, d = X.np_pair(*[NpArray(v.core) if isinstance(v, TfBase) else v for v in (x, y)])
    return NpArray(X.np_err(emap)(lambda p, q, r: ite_v(p, q, r), d, cc, a.astype(d), b.astype(d)))


def clip(a, lo, hi, **k):
    r = a
    if lo is not None:
        r = bi("max")(r, lo)
    if hi is not None:
        r = bi("min")(r, hi)
    return r


def round_(a, decimals=0):
    if decimals:
        raise Unsupported("np.round decimals")
    return np_un("rint", a)


def red(op):
    def f(a, axis=None, dtype=None, out=None, keepdims=False, **k):
        if out is not None or k:
            raise Unsupported("reduction options")
        if symseq(a) is not None and not isinstance(a, (NpArray, TfBase)):
            a = to_np(a)
        if isinstance(a, TfBase):
            a = NpArray(a.core)
        r = np_reduce(op, a, axis, keepdims)
        return r.astype(dtype) if dtype is not None else r
    return f


def mean(a, axis=None, dtype=None, out=None, keepdims=False):
    if isinstance(a, TfBase):
        a = NpArray(a.core)
    return np_mean(a, axis, keepdims)


def average(a, axis=None, weights=None, **k):
    if weights is None:
        return mean(a, axis)
    if axis is not None:
        raise Unsupported("np.average axis")
    return red("sum")(np_bin("mul", to_np(a), to_np(weights))) / red("sum")(to_np(weights))


def count_nonzero(a, axis=None, keepdims=False):
    if isinstance(a, MaskedVec):
        raise Unsupported("count_nonzero of a masked vector")
    c = to_np(a).core.astype("bool").astype("int64")
    return res(nd.reduce(c, "sum", norm_axes(axis, c.rank), keepdims))


def dot(a, b):
    x, y = to_np(a), to_np(b)
    if isinstance(x, MaskedVec) and isinstance(y, MaskedVec):
        return (x * y).sum()
    if x.core.rank == 1 and y.core.rank == 1:
        return red("sum")(np_bin("mul", x, y))
    raise Unsupported("np.dot")


def vdot(a, b):
    return dot(ravel(to_np(a).conj()), ravel(b))


def einsum(*a, **k): raise Unsupported("np.einsum")


def diff(*a, **k): raise Unsupported("np.diff")


def outer(a, b):
    x, y = [nd.reshape(to_np(v).core, [None]) for v in (a, b)]
    return np_bin("mul", NpArray(nd.reshape(x, [x.shape[0], num(1)])), NpArray(nd.reshape(y, [num(1), y.shape[0]])))


# ---- fft --------------------------------------------------------------------------------------------------------------------
def _fft(kd):
    from .shim_tf import fft_core

    def f(a, s=None, axes=(-2, -1), norm=None, out=None):
        if s is not None or norm not in (None, "backward") or out is not None:
            raise Unsupported("np.fft options")
        c = to_np(a).core
        if axes is not None and sorted(x % c.rank for x in axes) != [c.rank - 2, c.rank - 1]:
            raise Unsupported("np.fft axes")
        d = "complex64" if c.dtype in ("complex64", "float32") else "complex128"
        cur().fft_log.append("numpy")
        return NpArray(fft_core(c.astype("complex128" if d == "complex128" else "complex64"), kd, d))
    return f


def _fftn(kd):
    g = _fft(kd)

    def f(a, s=None, axes=None, norm=None, out=None):
        c = to_np(a).core
        if c.rank != 2:
            raise Unsupported("np.fft.fftn rank")
        return g(a, s, (-2, -1) if axes is None else axes, norm, out)
    return f


def fftfreq(n, d=1.0, **k):
    nn = X.idx_term(nval(X.tonum(n)))
    dd = nval(X.tonum(d))

    def f(k):
        half = T.fdiv(T.sub(nn, num(1)), num(2))
        return T.div(T.ite(T.le(k, half), k, T.sub(k, nn)), T.mul(nn, dd))
    return NpArray(Core((nn,), "float64", f))


def fftshift(x, axes=None):
    c = to_np(x).core
    return NpArray(nd.fftshift(c, _ax(axes, c)))


def ifftshift(x, axes=None):
    c = to_np(x).core
    return NpArray(nd.fftshift(c, _ax(axes, c), inverse=True))


def _ax(axes, c):
    if axes is None:
        return None
    return [a % c.rank for a in norm_axes(axes, c.rank)]


# ---- bits ----------------------------------------------------------------------------------------------------------------------
def packbits(a, axis=None, bitorder="big"):
    c = to_np(a).core
    if kind(c.dtype) not in "bi":
        raise TypeError("Expected an input array of integer or boolean data type")
    if axis is not None and not (c.rank == 1 and axis in (0, -1)):
        if axis not in (c.rank - 1, -1):
            raise Unsupported("packbits along this axis")
        lead = c.shape[:-1]
        n = c.shape[-1]
        at = lambda idx, k: c.at(*idx, k)
    else:
        lead = ()
        flat = nd.reshape(c, [None]) if c.rank != 1 else c
        n = flat.shape[0]
        at = lambda idx, k: flat.at(k)
    nb = T.fdiv(T.add(n, num(7)), num(8))

    def f(*i):
        idx, b = i[:-1], i[-1]
        t = num(0)
        for p in builtins.range(8):
            k = T.add(T.scale(b, 8), num(p))
            inside = T.lt(k, n)
            bit = nd.convert(at(idx, k), c.dtype, "bool")
            w = 128 >> p if bitorder == "big" else 1 << p
            t = T.add(t, T.scale(T.ite(T.and_(inside, bit), num(1), num(0)), w))
        return t
    return NpArray(Core(tuple(lead) + (nb,), "uint8", f))


def unpackbits(a, axis=None, count=None, bitorder="big"):
    c = to_np(a).core
    if c.dtype != "uint8":
        raise TypeError("Expected an input array of unsigned byte data type")
    if axis is not None and c.rank != 1:
        raise Unsupported("unpackbits axis")
    flat = nd.reshape(c, [None]) if c.rank != 1 else c
    n = T.scale(flat.shape[0], 8) if count is None else X.idx_term(nval(X.tonum(count)))

    def f(k):
        p = T.mod(k, num(8))
        e = T.sub(num(7), p) if bitorder == "big" else p
        v = flat.at(T.fdiv(k, num(8)))
        r = None
        for q in builtins.range(8):
            t = T.mod(T.fdiv(v, num(1 << q)), num(2))
            r = t if r is None else T.ite(T.eq(e, num(q)), t, r)
        return r
    return NpArray(Core((n,), "uint8", f))


# ---- dtypes --------------------------------------------------------------------------------------------------------------------
def result_type(*a):
    ds, ks = [], []
    for x in a:
        if isinstance(x, (NpArray, TfBase)):
            ds.append(x.core.dtype)
        elif pk(x) is not None:
            ks.append(pk(x))
        else:
            ds.append(dtname(x))
    d = promote(*ds) if ds else {"b": "bool", "i": "int64", "f": "float64", "c": "complex128"}[max(ks, key="bifc".index)]
    for k in ks if ds else ():
        d = X.weak(d, k)
    return NP[d]


def dtype_(d):
    return NP[dtname(d)]


def issubdtype(a, b):
    n = dtname(a)
    if isinstance(b, X.NpMeta) and b._name is None:
        return kind(n) in b._kinds
    return n == dtname(b) if not b in (float, int, complex, bool) else n == dtname(b)


def iscomplexobj(x):
    k = pk(x)
    if k is not None:
        return k == "c"
    return kind(to_np(x).core.dtype) == "c"


def isrealobj(x): return not iscomplexobj(x)


def isscalar(x):
    return pk(x) is not None or isinstance(x, builtins.str) or (isinstance(x, NpArray) and x._scalar)


def ndim(x): return to_np(x).core.rank
def np_shape(x): return to_np(x).shape
def size(x, axis=None): return to_np(x).size if axis is None else to_np(x).shape[axis]
def copy(a, **k): return NpArray(to_np(a).core)


def array_equal(a, b, equal_nan=False):
    x, y = to_np(a).core, to_np(b).core
    if len(x.shape) != len(y.shape) or not nd.shape_eq(x.shape, y.shape):
        return False
    return res(nd.reduce(np_cmp("eq", NpArray(x), NpArray(y)).core, "all", None, False))


def frombuffer(b, dtype=float, count=-1, offset=0):
    if isinstance(b, X.SBytes) and b.core.dtype == dtname(dtype):
        return NpArray(nd.reshape(b.core, [None]) if b.core.rank != 1 else b.core)
    raise Unsupported("np.frombuffer")


class NdMeta(type):
    def __instancecheck__(cls, o): return isinstance(o, NpArray) and not o._scalar
    def __subclasscheck__(cls, o): return o is cls


class ndarray(metaclass=NdMeta):
    pass


S.NDARRAY[0] = ndarray


class GenMeta(type):
    def __instancecheck__(cls, o): return isinstance(o, NpArray) and o._scalar


class generic(metaclass=GenMeta):
    pass


def random_uniform(low=0.0, high=1.0, size=None):
    from .shim_tf import fresh_uniform
    dims = () if size is None else to_dims(size)
    u = fresh_uniform(dims)
    lo, hi = nval(X.tonum(low)), nval(X.tonum(high))
    r = NpArray(Core(dims, "float64", lambda *i: u.at(i) if T.is_num(lo) and lo.val == 0 and T.is_num(hi) and hi.val == 1
                     else T.add(lo, T.mul(T.sub(hi, lo), u.at(i)))), scalar=not dims)
    return r


def random_rand(*dims):
    return random_uniform(size=dims or None)


class Generator:
    def random(self, size=None, dtype=None, out=None):
        r = random_uniform(size=size)
        return r.astype(dtype) if dtype is not None else r
    def uniform(self, low=0.0, high=1.0, size=None):
        return random_uniform(low, high, size)
    def __getattr__(self, n):
        raise Unsupported("np.random.Generator." + n)


def default_rng(seed=None):
    if seed is not None:
        raise Unsupported("seeded generator")
    return Generator()


class errstate:
    def __init__(self, **k): pass
    def __enter__(self): return self
    def __exit__(self, *a): return False


def make_np():
    d = {}
    for n in "sin cos tan sinh cosh tanh exp log sqrt floor ceil rint sign".split():
        d[n] = un(n)
    d.update(arcsin=un("asin"), arccos=un("acos"), arctan=un("atan"), asin=un("asin"), acos=un("acos"), atan=un("atan"),
             negative=un("neg"), reciprocal=un("reciprocal"), conj=un("conj"), conjugate=un("conj"), square=square,
             abs=tensor_first(np_abs), absolute=tensor_first(np_abs), fabs=tensor_first(np_abs), real=tensor_first(np_real), imag=tensor_first(np_imag), angle=angle,
             add=bi("add"), subtract=bi("sub"), multiply=bi("mul"), divide=bi("div"), true_divide=bi("div"),
             floor_divide=bi("fdiv"), mod=bi("mod"), remainder=bi("mod"), power=bi("pow"), maximum=bi("max"), minimum=bi("min"),
             fmax=bi("max"), fmin=bi("min"), arctan2=bi("atan2"), atan2=bi("atan2"), hypot=hypot,
             equal=cmp("eq"), not_equal=cmp("ne"), less=cmp("lt"), less_equal=cmp("le"), greater=cmp("gt"), greater_equal=cmp("ge"),
             logical_and=logical("and"), logical_or=logical("or"), logical_xor=logical("xor"), logical_not=logical_not,
             bitwise_and=bitwise("and"), bitwise_or=bitwise("or"), bitwise_xor=bitwise("xor"), invert=invert, bitwise_not=invert,
             where=where, isclose=isclose, allclose=allclose, clip=clip, round=round_, around=round_,
             sum=red("sum"), max=red("max"), amax=red("max"), min=red("min"), amin=red("min"), any=red("any"), all=red("all"),
             mean=mean, average=average, count_nonzero=count_nonzero, dot=dot, vdot=vdot, einsum=einsum, diff=diff, outer=outer,
             array=array, asarray=asarray, ascontiguousarray=asarray, asanyarray=asarray, zeros=zeros, ones=ones, empty=empty, full=full,
             zeros_like=zeros_like, ones_like=ones_like, empty_like=empty_like, full_like=full_like, arange=arange,
             linspace=linspace, meshgrid=meshgrid, mgrid=MGrid(), indices=indices, stack=stack, concatenate=concatenate,
             vstack=vstack, hstack=hstack, ravel=ravel, reshape=reshape, transpose=transpose, flip=flip,
             flipud=lambda m: flip(m, 0), fliplr=lambda m: flip(m, 1), roll=roll, pad=pad, expand_dims=expand_dims,
             broadcast_to=broadcast_to, tile=tile, packbits=packbits, unpackbits=unpackbits, result_type=result_type,
             promote_types=result_type, dtype=dtype_, issubdtype=issubdtype, iscomplexobj=iscomplexobj, isrealobj=isrealobj,
             isscalar=isscalar, ndim=ndim, shape=np_shape, size=size, copy=copy, array_equal=array_equal, frombuffer=frombuffer,
             newaxis=None, pi=SFloat(T.PI()), inf=_np.inf, nan=_np.nan, e=SFloat(T.fn("exp", num(1))), ndarray=ndarray, generic=generic,
             errstate=errstate, seterr=lambda **k: {}, deg2rad=tensor_first(lambda x: x * SFloat(T.PI()) / 180),
             radians=tensor_first(lambda x: x * SFloat(T.PI()) / 180))
    d.update(X.NPT)
    d.update({"bool_": X.NPT["bool"], "int_": X.NPT["int64"], "float_": X.NPT["float64"]})
    d.update(X.ABSTRACT)
    d["fft"] = Namespace("np.fft", dict(fft2=_fft("fft2"), ifft2=_fft("ifft2"), fftn=_fftn("fft2"), ifftn=_fftn("ifft2"),
                                        fftfreq=fftfreq, fftshift=fftshift, ifftshift=ifftshift))
    d["random"] = Namespace("np.random", dict(uniform=random_uniform, rand=random_rand, random=lambda size=None: random_uniform(size=size),
                                              random_sample=lambda size=None: random_uniform(size=size), default_rng=default_rng))
    d["linalg"] = Namespace("np.linalg", {})
    d["testing"] = Namespace("np.testing", {})
    return Namespace("np", d)


# ---- scipy -------------------------------------------------------------------------------------------------------------------
def sp_factorial(n, exact=False):
    if isinstance(n, (NpArray, TfBase)) and n.core.rank:
        return res(emap(lambda v: T.ite(T.lt(v, num(0)), num(0), T.fn("factorial", v)), "float64", to_np(n).core.astype("float64")))
    x = X.tonum(n)
    v = nval(x)
    if T.is_num(v):
        if v.val < 0:
            return NpArray(const(num(0), "float64"), scalar=True)
        if v.val.denominator != 1:
            raise Unsupported("factorial of a non-integer")
        r = T.fn("factorial", v)
    else:
        r = T.ite(T.lt(v, num(0)), num(0), T.fn("factorial", v))
    if exact:
        return mk(r if T.is_num(r) else T.floor(r), "i")
    return NpArray(const(r, "float64"), scalar=True)


class Poly1d:
    def __init__(self, coef):
        self.coef = self.coeffs = self.c = coef
    def __getattr__(self, n):
        raise Unsupported("poly1d." + n)


def sp_hermite(n, monic=False):
    if monic:
        raise Unsupported("monic hermite")
    if not cur().decide(T.le(num(0), nval(X.tonum(n)))):
        raise ValueError("n must be nonnegative.")
    return Poly1d(NpArray(coef_core("hermite", [nval(X.tonum(n))], T.add(num(1), nval(X.tonum(n))))))


def sp_genlaguerre(n, alpha, monic=False):
    if monic:
        raise Unsupported("monic laguerre")
    nv, av = nval(X.tonum(n)), nval(X.tonum(alpha))
    if not cur().decide(T.lt(num(-1), av)):
        raise ValueError("alpha must be > -1")
    if not cur().decide(T.le(num(0), nv)):
        raise ValueError("n must be nonnegative.")
    return Poly1d(NpArray(coef_core("genlaguerre", [nv, av], T.add(num(1), nv))))


def coef_term(name, orders, k):
    """k-th coefficient (of power n-k) as a term: concrete where everything is concrete"""
    if builtins.all(T.is_num(o) for o in orders) and T.is_num(k):
        c = exact_coef(name, [builtins.int(o.val) for o in orders])
        return num(c[builtins.int(k.val)])
    return T.fn("coef_" + name, *orders, k)


def exact_coef(name, orders):
    """exact rational coefficients, highest power first"""
    from fractions import Fraction as F
    from math import factorial as f, comb
    n = orders[0]
    out = [F(0)] * (n + 1)
    if name == "hermite":
        for m in builtins.range(n // 2 + 1):
            out[2 * m] = F((-1) ** m * f(n) * 2 ** (n - 2 * m), f(m) * f(n - 2 * m))
    else:
        a = orders[1]
        for i in builtins.range(n + 1):
            out[n - i] = F((-1) ** i * comb(n + a, n - i), f(i))
    return out


def coef_core(name, orders, length):
    return Core((length,), "float64", lambda k: coef_term(name, orders, k))


def make_scipy():
    return (Namespace("scipy.special", dict(hermite=sp_hermite, genlaguerre=sp_genlaguerre, factorial=sp_factorial)),
            Namespace("scipy.constants", dict(micro=SFloat(T.num(T.frac(1e-6))), nano=SFloat(T.num(T.frac(1e-9))),
                                              milli=SFloat(T.num(T.frac(1e-3))), centi=SFloat(T.num(T.frac(1e-2))),
                                              pi=SFloat(T.PI()))))

"""Assumed contracts of the TensorFlow operations (elementwise meaning over reals; TensorFlow 2.21 dtype rules)."""
import builtins
from fractions import Fraction
from . import terms as T
from . import arr as A
from . import nd
from . import loops as L
from . import tensors as X
from .arr import Cx, cx, ite_v
from .nd import Core, kind, emap, const
from .terms import num
from .ctx import cur, Unsupported
from .pyvals import PyNum, mk, val, nval, pk, SList, symseq
from .pyshim import Namespace, TfFunction, tf_function, outside_trace, s_len
from .tensors import (TfTensor, TfVariable, TfBase, NpArray, TF, dtname, conv_tf, InvalidArgumentError, tf_bin, tf_cmp, tf_un,
                      tf_abs, tf_logic, guard, to_dims, tf_pair)


def Tn(core):
    return TfTensor(core)


def dt(d):
    return None if d is None else dtname(d)


def t(x, dtype=None):
    return conv_tf(x, dtype).core


# ---- creation -----------------------------------------------------------------------------------------------------------
@guard
def constant(value, dtype=None, shape=None, name=None):
    d = dt(dtype)
    if isinstance(value, TfTensor):
        if d is not None and value.core.dtype != d:
            raise TypeError("Cannot convert a Tensor of dtype %s to dtype %s" % (value.core.dtype, d))
        c = value.core
    elif isinstance(value, TfVariable):
        c = value.core.astype(d) if d else value.core
    elif isinstance(value, NpArray):
        c = value.core.astype(d) if d else value.core
    else:
        if pk(value) is None and not isinstance(value, (list, tuple, SList, X.MaskedVec)):
            if type(value).__name__ == "SObject" or hasattr(value, "__slmv_subst__") or not hasattr(value, "__slmv_array__"):
                raise ValueError("Attempt to convert a value (%r) with an unsupported type (%r) to a Tensor." % (value, type(value)))
        c = conv_tf(value, d).core
    if shape is not None:
        dims = to_dims(shape)
        if c.rank == 0:
            v = c
            c = Core(dims, c.dtype, lambda *i: v.at())
        else:
            c = nd.reshape(c, dims)
    return Tn(c)


def convert_to_tensor(value, dtype=None, dtype_hint=None, name=None):
    if isinstance(value, NpArray) and dtype is not None and dtname(dtype) != value.core.dtype:
        return Tn(value.core.astype(dtname(dtype)))
    return conv_tf(value, dt(dtype))


@guard
def cast(x, dtype, name=None):
    d = dtname(dtype)
    c = t(x)
    return Tn(c.astype(d))


@guard
def fill(dims, value, name=None):
    v = t(value)
    if v.rank != 0:
        raise InvalidArgumentError("Fill value must be a scalar, got shape %s" % (v.shape,))
    return Tn(Core(to_dims(dims), v.dtype, lambda *i: v.at()))


def zeros(shape, dtype=None, name=None):
    d = dt(dtype) or "float32"
    return Tn(const(nd.zero_of(d), d, to_dims(shape)))


def ones(shape, dtype=None, name=None):
    d = dt(dtype) or "float32"
    return Tn(const(nd.one_of(d), d, to_dims(shape)))


def zeros_like(x, dtype=None, name=None):
    c = t(x)
    d = dt(dtype) or c.dtype
    return Tn(const(nd.zero_of(d), d, c.shape))


def ones_like(x, dtype=None, name=None):
    c = t(x)
    d = dt(dtype) or c.dtype
    return Tn(const(nd.one_of(d), d, c.shape))


def eye(n, m=None, dtype=None, **k):
    raise Unsupported("tf.eye")


def identity(x, name=None):
    return Tn(t(x))


class RangeTensor(TfTensor):
    def __slmv_range__(self):
        c = self.core
        return (c.shape[0], lambda k: Tn(Core((), c.dtype, lambda: c.at(k))))
    __slmv_seq__ = __slmv_range__


def tf_range(start, limit=None, delta=1, dtype=None, name="range"):
    if limit is None:
        start, limit = 0, start
    parts = [start, limit, delta]
    if dtype is None:
        ds = [x.core.dtype for x in parts if isinstance(x, (TfBase, NpArray))]
        if any(pk(x) == "f" for x in parts) and not ds:
            ds = ["float32"]
        d = max(ds, key=lambda n: ("if".index(kind(n)), n)) if ds else "int32"
    else:
        d = dtname(dtype)
    vs = []
    for x in parts:
        c = t(x) if isinstance(x, (TfBase, NpArray)) else conv_tf(x, d).core
        if c.rank:
            raise InvalidArgumentError("range needs scalars")
        vs.append(nd.convert(c.at(), c.dtype, d))
    a, b, s = vs
    ctx = cur()
    if T.is_num(s) and s.val == 0:
        raise InvalidArgumentError("Requires delta != 0")
    if not T.is_num(s):
        raise Unsupported("tf.range with symbolic step")
    n = T.ceil(T.div(T.sub(b, a), s)) if s.val != 1 or T.sub(b, a).sort != "I" else T.sub(b, a)
    if not ctx.decide(T.le(num(0), n)):
        raise InvalidArgumentError("Requires start <= limit when delta > 0")
    return RangeTensor(Core((n,), d, lambda k: T.add(a, T.mul(k, s))))


def linspace(start, stop, num_, name=None, axis=0):
    a, b = tf_pair(start, stop)
    n = X.idx_term(nval(X.tonum(num_)))
    d = a.dtype

    def f(k):
        return T.add(a.at(), T.div(T.mul(T.sub(b.at(), a.at()), k), T.sub(n, num(1))))
    return Tn(Core((n,), d if kind(d) == "f" else "float64", f))


@guard
def meshgrid(*args, **kw):
    indexing = kw.pop("indexing", "xy")
    kw.pop("name", None)
    if kw:
        raise TypeError("meshgrid arguments")
    if indexing not in ("xy", "ij"):
        raise ValueError("Argument `indexing` must be 'xy' or 'ij'")
    cs = [t(a) for a in args]
    cs = [nd.reshape(c, [None]) if c.rank != 1 else c for c in cs]
    n = len(cs)
    shape = [c.shape[0] for c in cs]
    order = builtins.list(builtins.range(n))
    if indexing == "xy" and n >= 2:
        order[0], order[1] = 1, 0
    out_shape = [shape[o] for o in order]
    res = []
    for k, c in enumerate(cs):
        pos = order.index(k)
        res.append(Tn(Core(out_shape, c.dtype, lambda *i, c=c, pos=pos: c.at(i[pos]))))
    return L.JList(res)


# ---- shape -------------------------------------------------------------------------------------------------------------
def shape(x, out_type=None, name=None):
    c = t(x)
    s = c.shape
    d = dt(out_type) or "int32"

    def f(k):
        if T.is_num(k):
            return s[builtins.int(k.val)]
        v = s[-1]
        for p in builtins.range(len(s) - 2, -1, -1):
            v = T.ite(T.eq(k, num(p)), s[p], v)
        return v
    return Tn(Core((num(len(s)),), d, f))


def rank(x, name=None): return Tn(const(num(t(x).rank), "int32"))
def size(x, out_type=None, name=None): return Tn(const(nd.size(t(x).shape), "int32"))


@guard
def reshape(tensor, shape, name=None):
    return Tn(nd.reshape(t(tensor), to_dims(shape)))


@guard
def transpose(a, perm=None, conjugate=False, name="t"):
    c = nd.transpose(t(a), [builtins.int(p) for p in perm] if perm is not None else None)
    r = Tn(c)
    return conj(r) if conjugate else r


def expand_dims(x, axis, name=None):
    c = t(x)
    axis = builtins.int(axis)
    if axis < 0:
        axis += c.rank + 1
    return Tn(nd.getitem(c, tuple([slice(None)] * axis + [None, Ellipsis]))[0])


def squeeze(x, axis=None, name=None):
    c = t(x)
    if axis is None:
        raise Unsupported("tf.squeeze without axis")
    axes = [axis] if pk(axis) else axis
    axes = {builtins.int(a) % c.rank for a in axes}
    for a in axes:
        if not cur().decide(T.eq(c.shape[a], num(1))):
            raise InvalidArgumentError("squeeze")
    keep = [k for k in builtins.range(c.rank) if k not in axes]

    def f(*i):
        j = [num(0)] * c.rank
        for k, v in builtins.zip(keep, i):
            j[k] = v
        return c.at(*j)
    return Tn(Core([c.shape[k] for k in keep], c.dtype, f))


@guard
def stack(values, axis=0, name="stack"):
    if symseq(values) is not None and not isinstance(values, TfBase):
        if axis != 0:
            raise Unsupported("tf.stack of a symbolic list")
        return conv_tf(values)
    cs = [t(v) for v in values]
    if len({c.dtype for c in cs}) > 1:
        raise InvalidArgumentError("stack dtypes")
    return Tn(nd.stack(cs, axis, cs[0].dtype))


@guard
def concat(values, axis, name="concat"):
    if symseq(values) is not None:
        raise Unsupported("tf.concat of a symbolic list")
    cs = [t(v) for v in values]
    if len({c.dtype for c in cs}) > 1:
        raise InvalidArgumentError("concat dtypes")
    return Tn(nd.concat(cs, builtins.int(axis), cs[0].dtype))


@guard
def broadcast_to(x, shape, name=None):
    return Tn(t(x).broadcast_to(to_dims(shape)))


def ensure_shape(x, shape, name=None):
    c = t(x)
    if not nd.shape_eq(c.shape, to_dims(shape)):
        raise InvalidArgumentError("ensure_shape")
    return Tn(c)


def reverse(x, axis, name=None):
    c = t(x)
    axes = [builtins.int(X.tonum(a)) % c.rank for a in axis]

    def f(*i):
        return c.at(*[T.sub(T.sub(c.shape[k], num(1)), v) if k in axes else v for k, v in enumerate(i)])
    return Tn(Core(c.shape, c.dtype, f))


def roll(input, shift, axis, name=None):
    c = t(input)
    sh = shift if isinstance(shift, (list, tuple)) else [shift]
    ax = axis if isinstance(axis, (list, tuple)) else [axis]
    for s, a in builtins.zip(sh, ax):
        c = nd.roll(c, X.idx_term(nval(X.tonum(s))), builtins.int(X.tonum(a)) % c.rank)
    return Tn(c)


def pad(tensor, paddings, mode="CONSTANT", constant_values=0, name=None):
    c = t(tensor)
    if mode.upper() != "CONSTANT":
        raise Unsupported("tf.pad mode %s" % mode)
    if isinstance(paddings, (TfBase, NpArray)):
        p = paddings.core
        pairs = [(p.at(num(k), num(0)), p.at(num(k), num(1))) for k in builtins.range(c.rank)]
    else:
        pairs = [tuple(X.idx_term(nval(X.tonum(v))) for v in row) for row in paddings]
    if len(pairs) != c.rank:
        raise InvalidArgumentError("The first dimension of paddings must be the rank of inputs")
    for p in pairs:
        for v in p:
            if not cur().decide(T.le(num(0), v)):
                raise InvalidArgumentError("Paddings must be non-negative")
    v = nd.convert(val(constant_values), {"b": "bool", "i": "int64", "f": "float64", "c": "complex128"}[pk(constant_values)], c.dtype)
    return Tn(nd.pad(c, [p[0] for p in pairs], [p[1] for p in pairs], v))


def tf_slice(x, begin, size, name=None):
    raise Unsupported("tf.slice")


def gather(params, indices, axis=None, **k):
    c, i = t(params), t(indices)
    a = 0 if axis is None else builtins.int(axis) % c.rank
    if kind(i.dtype) != "i":
        raise InvalidArgumentError("gather")
    r = i.rank

    def f(*ix):
        return c.at(*ix[:a], i.at(*ix[a:a + r]), *ix[a + r:])
    return Tn(Core(tuple(c.shape[:a]) + tuple(i.shape) + tuple(c.shape[a + 1:]), c.dtype, f))


def repeat(*a, **k): raise Unsupported("tf.repeat")


def tile(x, multiples, name=None):
    c = t(x)
    m = to_dims(multiples)
    return Tn(Core([T.mul(s, k) for s, k in builtins.zip(c.shape, m)], c.dtype,
                   lambda *i: c.at(*[T.mod(v, s) for v, s in builtins.zip(i, c.shape)])))


# ---- selection -----------------------------------------------------------------------------------------------------------
@guard
def where(condition, x=None, y=None, name=None):
    if x is None and y is None:
        raise Unsupported("tf.where with one argument")
    c = t(condition)
    if c.dtype != "bool":
        c = c.astype("bool")
    a, b = tf_pair(x, y)
    return Tn(emap(lambda p, q, r: ite_v(p, q, r), a.dtype, c, a, b))


@guard
def boolean_mask(*a, **k): raise Unsupported("tf.boolean_mask")


def cond(pred, true_fn=None, false_fn=None, name=None):
    return true_fn() if builtins.bool(pred) else false_fn()


def clip_by_value(x, lo, hi, name=None):
    return maximum(minimum(x, hi), lo)


def case(*a, **k): raise Unsupported("tf.case")


# ---- elementwise ----------------------------------------------------------------------------------------------------------
def binary(op):
    return lambda x, y, name=None: tf_bin(op, x, y)


def unary(name_, floats=True):
    def f(x, name=None):
        c = conv_tf(x)
        return tf_un(name_, c)
    return f


maximum, minimum = binary("max"), binary("min")


def real(x, name=None):
    c = t(x)
    return Tn(emap(lambda v: cx(v).re, nd.real_of(c.dtype), c)) if kind(c.dtype) == "c" else Tn(c)


def imag(x, name=None):
    c = t(x)
    if kind(c.dtype) == "c":
        return Tn(emap(lambda v: cx(v).im, nd.real_of(c.dtype), c))
    return Tn(const(num(0), c.dtype, c.shape))


def conj(x, name=None):
    c = t(x)
    return Tn(emap(lambda v: v.conj(), c.dtype, c)) if kind(c.dtype) == "c" else Tn(c)


def angle(x, name=None):
    c = t(x)
    if kind(c.dtype) == "c":
        return Tn(emap(lambda v: cx(v).angle(), nd.real_of(c.dtype), c))
    return Tn(emap(lambda v: T.ite(T.lt(v, num(0)), T.PI(), num(0)), c.dtype, c))


@guard
def complex_(re, im, name=None):
    a, b = tf_pair(re, im)
    if a.dtype not in ("float32", "float64"):
        raise TypeError("Types of real and imag don't match: %s" % a.dtype)
    return Tn(emap(lambda p, q: Cx(p, q), nd.complex_of(a.dtype), a, b))


def atan2(y, x, name=None):
    return tf_bin("atan2", y, x)


def divide_no_nan(x, y, name=None):
    a, b = tf_pair(x, y)
    kd = kind(a.dtype)

    def f(p, q):
        if kd == "c":
            z = T.and_(T.eq(cx(q).re, num(0)), T.eq(cx(q).im, num(0)))
            return ite_v(z, Cx(0), cx(p) / cx(q))
        return T.ite(T.eq(q, num(0)), num(0), T.div(p, q))
    return Tn(guard(emap)(f, a.dtype, a, b))


def multiply_no_nan(x, y, name=None):
    return tf_bin("mul", x, y)


def squared_difference(x, y, name=None):
    d = tf_bin("sub", x, y)
    return tf_bin("mul", d, conj(d))


@guard
def polyval(coeffs, x, name=None):
    xc = t(x)
    kd = kind(xc.dtype)
    s = coeffs if isinstance(coeffs, SList) else getattr(coeffs, "sym", None)
    if not isinstance(coeffs, (list, SList)):
        raise ValueError("Argument coeffs must be list type. Received type %s." % type(coeffs))
    if s is not None and not T.is_num(s.n):
        probe, = A.binders(1)
        with A.scope():
            d = conv_tf(s.fn(probe), hint=None).core
        if d.rank:
            raise Unsupported("polyval with tensor coefficients")
        if d.dtype != xc.dtype:
            raise InvalidArgumentError("polyval dtypes")
        if kd == "c":
            raise Unsupported("complex polyval of symbolic order")

        def fn(*i):
            xv = xc.at(*i)
            return A.sum_term([s.n], lambda k: T.mul(conv_tf(s.fn(k)).core.at(), pow_k(xv, T.sub(T.sub(s.n, num(1)), k))))
        return Tn(Core(xc.shape, xc.dtype, fn))
    items = builtins.list(coeffs)
    if not items:
        return Tn(const(nd.zero_of(xc.dtype), xc.dtype, xc.shape))
    p = conv_tf(items[0], hint=xc.dtype)
    for c in items[1:]:
        p = tf_bin("add", tf_bin("mul", p, x), c)
    return p


def pow_k(x, k):
    """x**k for a nonnegative integer exponent (0**0 = 1)"""
    if T.is_num(k):
        return T.power(x, builtins.int(k.val))
    return T.fn("powr", x, k)


# ---- reductions ------------------------------------------------------------------------------------------------------------
def reducer(op):
    def f(input_tensor, axis=None, keepdims=False, name=None):
        c = t(input_tensor)
        if op in ("any", "all"):
            if c.dtype != "bool":
                raise InvalidArgumentError("reduce_any of %s" % c.dtype)
        elif c.dtype == "bool" or (op in ("max", "min") and kind(c.dtype) == "c"):
            raise InvalidArgumentError("reduce of %s" % c.dtype)
        return Tn(nd.reduce(c, op, X.norm_axes(axis, c.rank), keepdims))
    return f


reduce_sum, reduce_max, reduce_min, reduce_any, reduce_all = [reducer(o) for o in ("sum", "max", "min", "any", "all")]


def reduce_mean(input_tensor, axis=None, keepdims=False, name=None):
    c = t(input_tensor)
    if kind(c.dtype) == "i":
        raise Unsupported("integer mean")
    r = X.np_mean(NpArray(c), axis, keepdims)
    return Tn(r.core)


def count_nonzero(x, axis=None, keepdims=None, dtype=None, name=None):
    c = t(x).astype("bool").astype("int64")
    return Tn(nd.reduce(c, "sum", X.norm_axes(axis, c.rank), builtins.bool(keepdims)))


# ---- transforms ------------------------------------------------------------------------------------------------------------
def fft_core(c, kd, dtype):
    if c.rank < 2:
        raise InvalidArgumentError("Input must have rank of at least 2 but got: %d" % c.rank)
    a = A.transform(kd, c.shape, lambda *i: cx(c.at(*i)))
    s, d = free_params(c)
    return Core(c.shape, dtype, lambda *i: a.at(i))


def free_params(c):
    return None, None


def fft2d(input, name=None):
    c = t(input)
    if kind(c.dtype) != "c":
        raise InvalidArgumentError("fft2d of %s" % c.dtype)
    cur().fft_log.append("tensorflow")
    return Tn(fft_core(c, "fft2", c.dtype))


def ifft2d(input, name=None):
    c = t(input)
    if kind(c.dtype) != "c":
        raise InvalidArgumentError("ifft2d of %s" % c.dtype)
    cur().fft_log.append("tensorflow")
    return Tn(fft_core(c, "ifft2", c.dtype))


def _axes(axes, c):
    if axes is None:
        return None
    if pk(axes):
        return [builtins.int(axes) % c.rank]
    return [builtins.int(X.tonum(a)) % c.rank for a in axes]


def fftshift(x, axes=None, name=None):
    c = t(x)
    return Tn(nd.fftshift(c, _axes(axes, c)))


def ifftshift(x, axes=None, name=None):
    c = t(x)
    return Tn(nd.fftshift(c, _axes(axes, c), inverse=True))


@guard
def numpy_function(func=None, inp=None, Tout=None, stateful=True, name=None):
    args = [NpArray(t(x)) for x in inp]
    with outside_trace():
        r = func(*args)

    def fin(v, d):
        a = X.to_np(v)
        if a.core.dtype != dtname(d):
            raise InvalidArgumentError("expected %s, got %s" % (dtname(d), a.core.dtype))
        return Tn(a.core)
    if isinstance(Tout, (list, tuple)):
        return L.JList([fin(v, d) for v, d in builtins.zip(r, Tout)])
    return fin(r, Tout)


class init_scope:
    "lifted out of the function that is being traced: runs once, when it is traced"
    def __enter__(self):
        cur().init_scope += 1

    def __exit__(self, *a):
        cur().init_scope -= 1


def py_function(func=None, inp=None, Tout=None, name=None):
    with outside_trace():
        r = func(*[Tn(t(x)) for x in inp])

    def fin(v, d):
        return Tn(conv_tf(v).core.astype(dtname(d)))
    if isinstance(Tout, (list, tuple)):
        return L.JList([fin(v, d) for v, d in builtins.zip(r, Tout)])
    return fin(r, Tout)


# ---- random -----------------------------------------------------------------------------------------------------------------
def uniform(shape, minval=0, maxval=None, dtype=None, seed=None, name=None):
    if seed is not None:
        raise Unsupported("seeded random tensor")
    d = dt(dtype) or "float32"
    if kind(d) != "f":
        raise Unsupported("integer random tensor")
    dims = to_dims(shape)
    u = fresh_uniform(dims)
    lo = nval(X.tonum(minval))
    hi = num(1) if maxval is None else nval(X.tonum(maxval))
    if T.is_num(lo) and lo.val == 0 and T.is_num(hi) and hi.val == 1:
        return Tn(Core(dims, d, lambda *i: u.at(i)))
    return Tn(Core(dims, d, lambda *i: T.add(lo, T.mul(T.sub(hi, lo), u.at(i)))))


def fresh_uniform(dims):
    ctx = cur()
    if ctx.loop_stack:
        raise Unsupported("random draw inside a symbolic loop")
    n = ctx.uniform_serial
    ctx.uniform_serial += 1
    return A.uniform_array(n, dims)


class _Any(type):
    def __instancecheck__(cls, o): return isinstance(o, TfTensor)


class Tensor(metaclass=_Any):
    pass


class VarMeta(type):
    def __instancecheck__(cls, o): return isinstance(o, TfVariable)
    def __call__(cls, *a, **k): return TfVariable(*a, **k)


class Variable(metaclass=VarMeta):
    pass


def make_tf():
    m = dict(
        sin=unary("sin"), cos=unary("cos"), tan=unary("tan"), asin=unary("asin"), acos=unary("acos"), atan=unary("atan"),
        sinh=unary("sinh"), cosh=unary("cosh"), tanh=unary("tanh"), exp=unary("exp"), log=unary("log"), sqrt=unary("sqrt"),
        rsqrt=unary("rsqrt"), square=unary("square"), floor=unary("floor"), ceil=unary("ceil"), sign=unary("sign"),
        negative=unary("neg"), reciprocal=unary("reciprocal"), rint=unary("rint"), round=unary("rint"), abs=lambda x, name=None: tf_abs(x),
        add=binary("add"), subtract=binary("sub"), multiply=binary("mul"), divide=binary("div"), truediv=binary("div"),
        floordiv=binary("fdiv"), floormod=binary("mod"), mod=binary("mod"), pow=binary("pow"), maximum=maximum, minimum=minimum,
        atan2=atan2, real=real, imag=imag, conj=conj, angle=angle, divide_no_nan=divide_no_nan,
        multiply_no_nan=multiply_no_nan, squared_difference=squared_difference, polyval=polyval,
        reduce_sum=reduce_sum, reduce_max=reduce_max, reduce_min=reduce_min, reduce_any=reduce_any, reduce_all=reduce_all,
        reduce_mean=reduce_mean, count_nonzero=count_nonzero,
        equal=lambda x, y, name=None: tf_cmp("eq", x, y), not_equal=lambda x, y, name=None: tf_cmp("ne", x, y),
        less=lambda x, y, name=None: tf_cmp("lt", x, y), less_equal=lambda x, y, name=None: tf_cmp("le", x, y),
        greater=lambda x, y, name=None: tf_cmp("gt", x, y), greater_equal=lambda x, y, name=None: tf_cmp("ge", x, y),
        logical_and=lambda x, y, name=None: tf_logic("and", x, y), logical_or=lambda x, y, name=None: tf_logic("or", x, y),
        logical_xor=lambda x, y, name=None: tf_logic("xor", x, y), logical_not=lambda x, name=None: ~conv_tf(x),
        add_n=lambda xs, name=None: _add_n(xs), scalar_mul=lambda s, x, name=None: tf_bin("mul", s, x),
    )
    math_ns = Namespace("tf.math", m)
    top = {k: m[k] for k in ("sin cos tan asin acos atan sinh cosh tanh exp sqrt square floor sign negative round abs add subtract "
                             "multiply divide truediv floor pow maximum minimum atan2 reduce_sum reduce_max reduce_min reduce_any "
                             "reduce_all reduce_mean equal not_equal less less_equal greater greater_equal logical_and logical_or "
                             "logical_not add_n scalar_mul").split()}
    sig = Namespace("tf.signal", dict(fft2d=fft2d, ifft2d=ifft2d, fftshift=fftshift, ifftshift=ifftshift))
    top.update({n: TF[n] for n in nd.DT})
    top.update(double=TF["float64"], half=TF["float16"])
    top.update(
        math=math_ns, signal=sig, Variable=Variable, Tensor=Tensor, function=tf_function, constant=constant,
        convert_to_tensor=convert_to_tensor, cast=cast, fill=fill, zeros=zeros, ones=ones, zeros_like=zeros_like,
        ones_like=ones_like, identity=identity, range=tf_range, linspace=linspace, meshgrid=meshgrid, shape=shape, rank=rank,
        size=size, reshape=reshape, transpose=transpose, expand_dims=expand_dims, squeeze=squeeze, stack=stack, concat=concat,
        broadcast_to=broadcast_to, ensure_shape=ensure_shape, reverse=reverse, roll=roll, pad=pad, gather=gather, tile=tile,
        where=where, cond=cond, clip_by_value=clip_by_value, complex=complex_, numpy_function=numpy_function,
        py_function=py_function, newaxis=None, is_tensor=lambda x: isinstance(x, TfBase), stop_gradient=identity,
        DType=X.DType, TensorShape=lambda s: X.TShape([nval(v) for v in s]), errors=Namespace("tf.errors", {"InvalidArgumentError": InvalidArgumentError}),
        dtypes=Namespace("tf.dtypes", {**TF, "DType": X.DType, "cast": cast, "complex": complex_, "as_dtype": lambda d: TF[dtname(d)]}),
        as_dtype=lambda d: TF[dtname(d)],
        random=Namespace("tf.random", dict(uniform=uniform)),
        config=Namespace("tf.config", dict(list_logical_devices=lambda *a: gpu(a), list_physical_devices=lambda *a: gpu(a),
                                           run_functions_eagerly=_unsup("run_functions_eagerly"))),
        nn=Namespace("tf.nn", {}), autograph=Namespace("tf.autograph", {}), name_scope=_unsup("name_scope"),
        executing_eagerly=lambda: not cur().traces or cur().init_scope > 0, init_scope=init_scope, debugging=Namespace("tf.debugging", {}),
        TensorArray=_unsup("TensorArray"), while_loop=_unsup("while_loop"), map_fn=_unsup("map_fn"),
        control_dependencies=_unsup("control_dependencies"), print=lambda *a, **k: None,
    )
    top["linalg"] = Namespace("tf.linalg", {})
    return Namespace("tf", top)


def _unsup(n):
    def f(*a, **k):
        raise Unsupported("tf." + n)
    return f


def _add_n(xs):
    r = xs[0]
    for x in xs[1:]:
        r = tf_bin("add", r, x)
    return conv_tf(r)


def gpu(a):
    """whether a GPU is present is arbitrary"""
    c = cur()
    if a and a[0] == "GPU":
        return ["GPU:0"] if c.config.get("gpu") else []
    return ["CPU:0"]

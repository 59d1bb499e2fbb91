"""Value types of the TensorFlow and NumPy models."""
import builtins
from fractions import Fraction
import numpy as _np
from . import terms as T
from . import arr as A
from . import nd
from .arr import Cx, cx, ite_v
from .nd import Core, kind, const, emap
from .terms import num
from .ctx import cur, Unsupported
from .pyvals import (PyNum, SInt, SFloat, SBool, SComplex, mk, mkb, val, pk, cpow, SList, nval)


class InvalidArgumentError(Exception):
    pass


# ---- dtypes -----------------------------------------------------------------------------------------------------------
class DType:
    """tf.DType"""
    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        if isinstance(o, DType):
            return self is o
        try:
            return dtname(o) == self.name
        except TypeError:
            return False

    def __ne__(self, o): return not self == o
    def __hash__(self): return hash(self.name)
    def __repr__(self): return "tf." + self.name
    is_complex = property(lambda s: kind(s.name) == "c")
    is_floating = property(lambda s: kind(s.name) == "f")
    is_integer = property(lambda s: kind(s.name) == "i")
    is_bool = property(lambda s: kind(s.name) == "b")
    base_dtype = property(lambda s: s)
    real_dtype = property(lambda s: TF[nd.real_of(s.name)])
    as_numpy_dtype = property(lambda s: NPT[s.name])
    as_datatype_enum = property(lambda s: hash(s.name))
    size = property(lambda s: _np.dtype(s.name).itemsize)


TF = {n: DType(n) for n in nd.DT}


class NpDtype:
    """np.dtype instances"""
    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        try:
            return dtname(o) == self.name
        except TypeError:
            return False

    def __ne__(self, o): return not self == o
    def __hash__(self): return hash(self.name)
    def __repr__(self): return "dtype('%s')" % self.name
    __str__ = lambda self: self.name
    kind = property(lambda s: _np.dtype(s.name).kind)
    char = property(lambda s: _np.dtype(s.name).char)
    itemsize = property(lambda s: _np.dtype(s.name).itemsize)
    type = property(lambda s: NPT[s.name])

    def __call__(self, v):
        return NPT[self.name](v)


NP = {n: NpDtype(n) for n in nd.DT}


class NpMeta(type):
    def __instancecheck__(cls, o):
        if cls._name is None:
            return isinstance(o, NpArray) and o.core.rank == 0 and kind(o.core.dtype) in cls._kinds and o._scalar
        return isinstance(o, NpArray) and o._scalar and o.core.dtype == cls._name

    def __eq__(cls, o):
        if isinstance(o, (NpMeta,)):
            return cls is o
        if isinstance(o, (DType, NpDtype)):
            return o.name == cls._name
        return NotImplemented

    def __hash__(cls): return hash(cls._name)

    def __call__(cls, v=0):
        if cls._name is None:
            raise Unsupported("abstract numpy scalar type")
        a = to_np(v).astype(cls._name)
        if a.core.rank == 0:
            a._scalar = True
        return a


def _np_type(name):
    return NpMeta(name, (), {"_name": name, "_kinds": kind(name)})


NPT = {n: _np_type(n) for n in nd.DT}
ABSTRACT = {n: NpMeta(n, (), {"_name": None, "_kinds": k}) for n, k in
            {"integer": "i", "floating": "f", "complexfloating": "c", "number": "ifc", "inexact": "fc", "generic": "bifc",
             "signedinteger": "i"}.items()}

PYT = {}      # filled by shim_py: shim types for bool, int, float, complex


def dtname(d):
    if isinstance(d, (DType, NpDtype)):
        return d.name
    if isinstance(d, NpMeta):
        if d._name is None:
            raise Unsupported("abstract dtype")
        return d._name
    if d is builtins.bool or d is PYT.get("bool"):
        return "bool"
    if d is builtins.int or d is PYT.get("int"):
        return "int64"
    if d is builtins.float or d is PYT.get("float"):
        return "float64"
    if d is builtins.complex or d is PYT.get("complex"):
        return "complex128"
    if isinstance(d, str):
        n = {"float": "float64", "int": "int64", "complex": "complex128", "?": "bool", "f4": "float32", "f8": "float64",
             "c8": "complex64", "c16": "complex128", "i8": "int64", "i4": "int32", "u1": "uint8"}.get(d, d)
        if n in nd.DT:
            return n
    if isinstance(d, _np.dtype) or (isinstance(d, type) and issubclass(d, _np.generic)):
        return _np.dtype(d).name
    if isinstance(d, str) and known_dtype(d):
        raise Unsupported("dtype %r" % (d,))
    raise TypeError("not a dtype: %r" % (d,))


def known_dtype(s):
    if s in ("bfloat16", "string", "resource", "variant", "half", "float", "double"):
        return True
    try:
        _np.dtype(s)
        return True
    except TypeError:
        return False


# ---- shapes -----------------------------------------------------------------------------------------------------------
def dim_value(t):
    return mk(t, "i")


class TShape(tuple):
    """tf.TensorShape"""
    def __new__(cls, dims):
        return tuple.__new__(cls, [dim_value(d) for d in dims])

    rank = property(lambda s: len(s))
    ndims = rank
    dims = property(lambda s: list(s))
    def as_list(self): return list(self)
    def num_elements(self):
        r = 1
        for x in self:
            r = r * x
        return r
    def is_fully_defined(self): return True
    def __add__(self, o): return TShape([val(x) for x in list(self) + list(o)])
    def __radd__(self, o): return TShape([val(x) for x in list(o) + list(self)])
    def __eq__(self, o):
        o = tuple(o)
        return len(o) == len(self) and all(bool(a == b) for a, b in zip(self, o))
    def __ne__(self, o): return not self == o
    __hash__ = tuple.__hash__


def to_dims(shape):
    """user shape -> list of Terms (None for -1)"""
    from .loops import JList
    if isinstance(shape, (TfTensor, NpArray)):
        c = shape.core
        if c.rank == 0:
            return [idx_term(c.at())]
        if not T.is_num(c.shape[0]):
            raise Unsupported("shape tensor of symbolic length")
        return [idx_term(c.at(num(k))) for k in range(int(c.shape[0].val))]
    if pk(shape) is not None:
        shape = [shape]
    out = []
    for s in shape:
        if isinstance(s, (TfTensor, NpArray, TfVariable)):
            s = scalar_of(s)
        t = nval(s)
        if T.is_num(t) and t.val == -1:
            out.append(None)
        else:
            out.append(idx_term(t))
    return out


def idx_term(t):
    if t.sort == "I":
        return t
    f = T.floor(t)
    if cur().entails(T.eq(f, t)):
        return f
    raise Unsupported("integer expected")


def scalar_of(x):
    """python number of a rank-0 array"""
    c = x.core
    if c.rank:
        if not all(cur().decide(T.eq(s, num(1))) for s in c.shape):
            raise TypeError("only length-1 arrays can be converted to scalars")
        v = c.at(*[num(0)] * c.rank)
    else:
        v = c.at()
    return mk(v, {"b": "b", "i": "i", "f": "f", "c": "c"}[kind(c.dtype)])


# ---- elementwise kernels ------------------------------------------------------------------------------------------------
def k_arith(op, x, y, kd):
    if op == "add": return x + y
    if op == "sub": return x - y
    if op == "mul": return x * y
    if op == "div":
        return cx(x) / (cx(y)) if kd == "c" else T.div(x, y)
    if op == "fdiv":
        return T.fdiv(x, y) if kd == "i" else T.floor(T.div(x, y))
    if op == "mod":
        return T.mod(x, y) if kd == "i" else T.sub(x, T.mul(y, T.floor(T.div(x, y))))
    if op == "pow":
        if kd == "c":
            return cpow(cx(x), y)
        if T.is_num(x) and x.val == -1 and y.sort == "I":
            return T.signpow(y)
        if T.is_num(y) and y.val == Fraction(1, 2):
            return T.fn("sqrt", x)
        r = T.power(x, y)
        if kd == "i" and r.sort != "I":
            raise Unsupported("integer power")
        return r
    if op == "max": return T.ite(T.le(y, x), x, y)
    if op == "min": return T.ite(T.le(x, y), x, y)
    if op == "atan2": return T.fn("atan2", x, y)
    raise AssertionError(op)


def k_cmp(op, x, y):
    from .pyvals import cmp_terms
    if not isinstance(x, Cx) and not isinstance(y, Cx) and x.sort == "B":
        if op == "eq": return T.iff(x, y)
        if op == "ne": return T.not_(T.iff(x, y))
        x, y = T.ite(x, num(1), num(0)), T.ite(y, num(1), num(0))
    return cmp_terms(op, x, y)


def k_unary(name, v, kd):
    if kd == "c":
        z = cx(v)
        if name == "exp": return z.exp()
        if name == "neg": return -z
        if name == "conj": return z.conj()
        if name == "square": return z * z
        if name in ("cos", "sin"):
            ch, sh = _cosh(z.im), _sinh(z.im)
            c, s = T.fn("cos", z.re), T.fn("sin", z.re)
            return Cx(c * ch, -(s * sh)) if name == "cos" else Cx(s * ch, c * sh)
        if name == "reciprocal": return Cx(1) / z
        if name in ("sqrt", "log", "tanh", "tan", "sinh", "cosh"):
            return Cx(T.fn("c%s_re" % name, z.re, z.im), T.fn("c%s_im" % name, z.re, z.im))
        raise Unsupported("complex " + name)
    if name == "neg": return T.scale(v, -1)
    if name == "square": return v * v
    if name == "abs": return T.fn("abs", v)
    if name == "sign": return T.ite(T.lt(num(0), v), num(1), T.ite(T.lt(v, num(0)), num(-1), num(0)))
    if name == "floor": return T.floor(v)
    if name == "ceil": return T.ceil(v)
    if name == "rint":
        from .pyvals import round_term
        return round_term(v)
    if name == "conj": return v
    if name == "reciprocal": return T.inv(v)
    if name == "deg2rad": return v * T.PI() / 180
    if name == "exp2": return T.fn("powr", num(2), v)
    if name == "rsqrt": return T.inv(T.fn("sqrt", v))
    if name == "sinc":
        x = v * T.PI()
        return T.ite(T.eq(v, num(0)), num(1), T.fn("sin", x) / x)
    return T.fn(name, v)


def _cosh(x):
    if T.is_num(x) and x.val == 0: return num(1)
    return T.scale(T.fn("exp", x) + T.fn("exp", -x), Fraction(1, 2))


def _sinh(x):
    if T.is_num(x) and x.val == 0: return num(0)
    return T.scale(T.fn("exp", x) - T.fn("exp", -x), Fraction(1, 2))


# ---- TensorFlow -------------------------------------------------------------------------------------------------------------
class TfBase:
    __array_priority__ = 100
    __hash__ = None

    def __add__(self, o): return tf_bin("add", self, o)
    def __radd__(self, o): return tf_bin("add", o, self)
    def __sub__(self, o): return tf_bin("sub", self, o)
    def __rsub__(self, o): return tf_bin("sub", o, self)
    def __mul__(self, o): return tf_bin("mul", self, o)
    def __rmul__(self, o): return tf_bin("mul", o, self)
    def __truediv__(self, o): return tf_bin("div", self, o)
    def __rtruediv__(self, o): return tf_bin("div", o, self)
    def __floordiv__(self, o): return tf_bin("fdiv", self, o)
    def __rfloordiv__(self, o): return tf_bin("fdiv", o, self)
    def __mod__(self, o): return tf_bin("mod", self, o)
    def __rmod__(self, o): return tf_bin("mod", o, self)
    def __pow__(self, o): return tf_bin("pow", self, o)
    def __rpow__(self, o): return tf_bin("pow", o, self)
    def __neg__(self): return tf_un("neg", self)
    def __pos__(self): return self
    def __abs__(self): return tf_abs(self)
    def __lt__(self, o): return tf_cmp("lt", self, o)
    def __le__(self, o): return tf_cmp("le", self, o)
    def __gt__(self, o): return tf_cmp("gt", self, o)
    def __ge__(self, o): return tf_cmp("ge", self, o)
    def __eq__(self, o):
        if o is None:
            return False
        return tf_cmp("eq", self, o)
    def __ne__(self, o):
        if o is None:
            return True
        return tf_cmp("ne", self, o)
    def __and__(self, o): return tf_logic("and", self, o)
    def __rand__(self, o): return tf_logic("and", o, self)
    def __or__(self, o): return tf_logic("or", self, o)
    def __ror__(self, o): return tf_logic("or", o, self)
    def __xor__(self, o): return tf_logic("xor", self, o)
    def __invert__(self):
        c = conv_tf(self).core
        if c.dtype != "bool":
            raise Unsupported("bitwise invert")
        return TfTensor(emap(T.not_, "bool", c))

    def __bool__(self):
        c = self.core
        v = c.at(*[num(0)] * c.rank)
        if c.rank and not all(cur().decide(T.eq(s, num(1))) for s in c.shape):
            raise ValueError("truth value of a tensor with more than one element")
        return cur().decide(nd.convert(v, c.dtype, "bool"))

    def __float__(self): return py_float(self)
    def __int__(self): return scalar_of(self).__index__()
    def __index__(self): return scalar_of(self).__index__()

    def __len__(self):
        return dim_value(self.core.shape[0]).__index__()

    def __iter__(self):
        s = self.core.shape
        if not s:
            raise TypeError("iteration over a scalar tensor")
        if not T.is_num(s[0]):
            raise Unsupported("iteration over a tensor of symbolic length")
        return iter([self[k] for k in range(int(s[0].val))])

    def __slmv_seq__(self):
        s = self.core.shape
        if not s:
            return None
        c = self.core
        return (s[0], lambda k: TfTensor(Core(c.shape[1:], c.dtype, lambda *i: c.at(k, *i))))

    @property
    def dtype(self): return TF[self.core.dtype]
    @property
    def shape(self): return TShape(self.core.shape)
    @property
    def ndim(self): return self.core.rank
    def get_shape(self): return self.shape
    def numpy(self): return NpArray(self.core, scalar=self.core.rank == 0)
    def __array__(self, *a, **k): raise Unsupported("native numpy conversion of a symbolic tensor")

    def __getitem__(self, key):
        return TfTensor(tf_getitem(conv_tf(self).core, key))

    def __getattr__(self, n):
        if n.startswith("__") and n.endswith("__"):
            raise AttributeError(n)
        raise Unsupported("tf.Tensor.%s" % n)

    def __repr__(self):
        return "%s(%s, %s)" % (type(self).__name__, self.core.dtype, self.core.shape)
    def __format__(self, s): return "<tensor>"
    def __deepcopy__(self, memo): return TfTensor(self.core)
    def __copy__(self): return TfTensor(self.core)


class TfTensor(TfBase):
    def __init__(self, core):
        self.core = core


class TfVariable(TfBase):
    """tf.Variable: read through .core; reads are never frozen by tracing."""
    def __init__(self, initial_value=None, trainable=None, dtype=None, name=None, shape=None, **kw):
        if callable(initial_value):
            initial_value = initial_value()
        if kw:
            raise Unsupported("tf.Variable arguments %s" % sorted(kw))
        t = conv_tf(initial_value, dtname(dtype) if dtype is not None else None)
        self._core = t.core
        self._dt = t.core.dtype
        c = cur()
        if c is not None:
            c.objects.append(self)
        if c is not None and c.journal is not None:
            c.journal.fresh[id(self)] = self
            c.loop_objects[id(self)] = self

    def __slmv_subst__(self, m):
        if id(self) in cur().loop_objects:
            raise Unsupported("variable created in a loop with symbolic trip count leaves it")
        return self

    @property
    def core(self):
        c = cur()
        if c is not None and c.init_scope and c.traces:      # read eagerly while a function is traced: a constant of that trace
            from .pyshim import trace_read
            return trace_read(("var", id(self)), self, lambda: self._core, 0, c)
        if c is not None and c.traces and id(self) not in c.traces[-1].args:
            for t in c.traces:
                t.snap.watched[id(self)] = self
        return self._core

    def _set(self, core):
        c = cur()
        if c is not None and c.journal is not None:
            c.journal.mutated(self)
        self._core = core

    def assign(self, value, use_locking=False, name=None, read_value=True):
        t = conv_tf(value, self._dt)
        if t.core.dtype != self._dt:
            raise ValueError("Tensor conversion requested dtype %s for Tensor with dtype %s" % (self._dt, t.core.dtype))
        if not nd.shape_eq(t.core.shape, self._core.shape):
            raise ValueError("Cannot assign value with a different shape")
        self._set(t.core)
        return self

    def assign_add(self, d, **k): return self.assign(self + d)
    def assign_sub(self, d, **k): return self.assign(self - d)
    def value(self): return TfTensor(self.core)
    def read_value(self): return TfTensor(self.core)
    trainable = True
    __hash__ = None


def tf_getitem(c, key):
    if not isinstance(key, tuple):
        key = (key,)
    out = []
    for k in key:
        if isinstance(k, slice):
            out.append(slice(*[None if x is None else idx_term(nval(tonum(x))) for x in (k.start, k.stop, k.step)]))
        elif k is None or k is Ellipsis:
            out.append(k)
        elif pk(k) is not None or (isinstance(k, (TfBase, NpArray)) and k.core.rank == 0):
            if pk(k) == "b":
                raise Unsupported("boolean index")
            out.append(nval(tonum(k)))
        else:
            raise Unsupported("tensor index %r" % type(k).__name__)
    return nd.getitem(c, tuple(out))[0]


def tonum(x):
    return scalar_of(x) if isinstance(x, (TfBase, NpArray)) else x


def conv_tf(v, dtype=None, hint=None):
    """tf.convert_to_tensor"""
    from .loops import JList
    if isinstance(v, TfBase):
        if dtype is not None and v.core.dtype != dtype:
            if isinstance(v, TfVariable) or True:
                raise ValueError("Tensor conversion requested dtype %s for Tensor with dtype %s" % (dtype, v.core.dtype))
        return v if isinstance(v, TfTensor) else TfTensor(v.core)
    if isinstance(v, NpArray):
        c = v.core
        if dtype is None and hint is not None and kind(hint) != "b" and c.dtype != "bool":
            if not (kind(c.dtype) == "c" and kind(hint) != "c"):
                dtype = hint
        return TfTensor(c.astype(dtype) if dtype else c)
    k = pk(v)
    if k is not None:
        d = dtype or hint
        if d is None:
            d = {"b": "bool", "i": "int32", "f": "float32", "c": "complex128"}[k]
        kd = kind(d)
        if dtype is None and hint is not None:
            if "bifc".index(k) > "bifc".index(kd) or (k == "b" and kd != "b") :
                raise TypeError("Cannot convert %r to EagerTensor of dtype %s" % (v, d))
        elif dtype is not None:
            if "bifc".index(k) > "bifc".index(kd) or (kd == "b" and k != "b"):
                raise TypeError("Cannot convert %r to EagerTensor of dtype %s" % (v, d))
        return TfTensor(const(nd.convert(val(v), {"b": "bool", "i": "int64", "f": "float64", "c": "complex128"}[k], d), d))
    if isinstance(v, (list, tuple, SList)):
        return TfTensor(seq_core(v, lambda x: conv_tf(x, dtype, hint).core, dtype))
    raise ValueError("Attempt to convert a value (%r) with an unsupported type (%r) to a Tensor." % (v, type(v)))


def seq_core(v, conv, dtype=None):
    from .loops import vsubst, JList
    s = v if isinstance(v, SList) else getattr(v, "sym", None)
    if s is not None:
        k0, = A.binders(1)
        with A.scope():
            first = conv(s.fn(k0))
        sh = first.shape

        def fn(k, *i):
            return conv(s.fn(k)).at(*i)
        return Core((s.n,) + tuple(sh), dtype or first.dtype, lambda k, *i: nd.convert(fn(k, *i), first.dtype, dtype or first.dtype))
    items = [conv(x) for x in v]
    if not items:
        return Core((num(0),), dtype or "float32", lambda i: num(0))
    dt = dtype or max((c.dtype for c in items), key=lambda d: ("bifc".index(kind(d)), d))
    return nd.stack(items, 0, dt)


def tf_pair(a, b):
    if isinstance(a, TfBase):
        a2 = conv_tf(a)
        b2 = conv_tf(b, hint=a2.core.dtype) if not isinstance(b, TfBase) else conv_tf(b)
    elif isinstance(b, TfBase):
        b2 = conv_tf(b)
        a2 = conv_tf(a, dtype=None, hint=b2.core.dtype)
    else:
        a2 = conv_tf(a)
        b2 = conv_tf(b, hint=a2.core.dtype)
    if a2.core.dtype != b2.core.dtype:
        raise InvalidArgumentError("expected a %s tensor but is a %s tensor" % (a2.core.dtype, b2.core.dtype))
    return a2.core, b2.core


def guard(f):
    def g(*a, **k):
        try:
            return f(*a, **k)
        except nd.ShapeError as e:
            raise InvalidArgumentError(str(e))
    return g


@guard
def tf_bin(op, a, b):
    x, y = tf_pair(a, b)
    d = x.dtype
    kd = kind(d)
    if kd == "b":
        raise InvalidArgumentError("bool arithmetic")
    if op == "div" and kd == "i":
        d = "float64"
        return TfTensor(emap(lambda p, q: T.div(p, q), d, x, y))
    if op in ("fdiv", "mod", "max", "min", "atan2") and kd == "c":
        raise InvalidArgumentError("complex " + op)
    return TfTensor(emap(lambda p, q: k_arith(op, p, q, kd), d, x, y))


@guard
def tf_cmp(op, a, b):
    if op in ("eq", "ne"):
        try:
            x, y = tf_pair(a, b)
        except (ValueError, TypeError):
            if isinstance(a, TfBase) and isinstance(b, TfBase):
                raise
            if pk(b) is None and not isinstance(b, (list, tuple, NpArray)):
                return op == "ne"
            raise
    else:
        x, y = tf_pair(a, b)
        if kind(x.dtype) in "cb":
            raise InvalidArgumentError("ordering of %s tensors" % x.dtype)
    return TfTensor(emap(lambda p, q: k_cmp(op, p, q), "bool", x, y))


@guard
def tf_logic(op, a, b):
    x, y = tf_pair(a, b)
    if x.dtype != "bool":
        raise Unsupported("bitwise tensors")
    f = {"and": T.and_, "or": T.or_, "xor": lambda p, q: T.not_(T.iff(p, q))}[op]
    return TfTensor(emap(f, "bool", x, y))


def tf_un(name, x):
    c = conv_tf(x).core
    kd = kind(c.dtype)
    if kd == "b" or (kd == "i" and name not in ("neg", "abs", "sign", "square", "conj", "floor", "ceil", "rint")):
        raise InvalidArgumentError("%s of %s tensor" % (name, c.dtype))
    return TfTensor(emap(lambda v: k_unary(name, v, kd), c.dtype, c))


def tf_abs(x):
    c = conv_tf(x).core
    if kind(c.dtype) == "c":
        return TfTensor(emap(lambda v: cx(v).abs(), nd.real_of(c.dtype), c))
    return tf_un("abs", x)


# ---- NumPy ------------------------------------------------------------------------------------------------------------------------
class NpArray:
    """numpy.ndarray or numpy scalar: a mutable reference to a core; views share their base."""
    __array_priority__ = 10
    __hash__ = None

    def __init__(self, core=None, scalar=False, view=None):
        self._core, self._scalar, self._view = core, scalar, view
        self.frozen = False
        c = cur()
        if c is not None and c.journal is not None:
            c.journal.fresh[id(self)] = self

    @property
    def core(self):
        c = cur()
        if c is not None and c.traces:
            return c.traces[0].array_read(self, c)
        return self.live_core()

    def live_core(self):
        if self._view is not None:
            base, f = self._view
            return f(base.live_core())
        return self._core

    def _write(self, core):
        c = cur()
        if c is not None and c.journal is not None:
            c.journal.mutated(self)
        if self._view is not None:
            raise Unsupported("write through a view")
        if self._scalar:
            raise TypeError("numpy scalar does not support item assignment")
        self._core = core

    # -- attributes
    @property
    def dtype(self): return NP[self.core.dtype]
    @property
    def shape(self): return tuple(dim_value(d) for d in self.core.shape)
    @shape.setter
    def shape(self, s): self._write(nd.reshape(self.core, to_dims(s)))
    @property
    def ndim(self): return self.core.rank
    @property
    def size(self): return dim_value(nd.size(self.core.shape))
    @property
    def nbytes(self): return self.size * self.dtype.itemsize
    @property
    def T(self): return NpArray(view=(self, nd.transpose))
    @property
    def real(self): return np_real(self)
    @property
    def imag(self): return np_imag(self)
    @property
    def flat(self): return self.ravel()
    def item(self, *a):
        if a:
            return tonum(self[a])
        return scalar_of(self)
    def copy(self, order="C"): return NpArray(self.core, self._scalar)
    def __copy__(self): return self.copy()
    def __deepcopy__(self, memo): return self.copy()
    def view(self, *a): raise Unsupported("ndarray.view")
    def astype(self, dt, copy=True, **k):
        n = dtname(dt) if not isinstance(dt, str) or dt not in nd.DT else dt
        return NpArray(self.core.astype(n), self._scalar)
    def conj(self): return np_un("conj", self)
    conjugate = conj
    def ravel(self, order="C"):
        if order != "C":
            raise Unsupported("ravel order")
        return NpArray(view=(self, lambda c: nd.reshape(c, [None])))
    def flatten(self, order="C"):
        if order != "C":
            raise Unsupported("flatten order")
        return NpArray(nd.reshape(self.core, [None]))
    def reshape(self, *shape, order="C"):
        if order != "C":
            raise Unsupported("reshape order")
        if len(shape) == 1 and not (pk(shape[0]) is not None):
            shape = shape[0]
        dims = to_dims(shape)
        return NpArray(view=(self, lambda c: nd.reshape(c, dims)))
    def transpose(self, *axes):
        p = None if not axes or axes[0] is None else list(axes[0]) if isinstance(axes[0], (tuple, list)) else list(axes)
        return NpArray(view=(self, lambda c: nd.transpose(c, p)))
    def squeeze(self): raise Unsupported("squeeze")
    def fill(self, v):
        dt = self.core.dtype
        x = to_np(v).core.astype(dt)
        self._write(x.broadcast_to(self.core.shape))
    def tobytes(self, order="C"): return SBytes(self.core)
    def tolist(self):
        c = self.core
        if c.rank == 0:
            return scalar_of(self)
        raise Unsupported("tolist")
    def sum(self, axis=None, dtype=None, keepdims=False): return np_reduce("sum", self, axis, keepdims)
    def mean(self, axis=None, dtype=None, keepdims=False): return np_mean(self, axis, keepdims)
    def max(self, axis=None, keepdims=False): return np_reduce("max", self, axis, keepdims)
    def min(self, axis=None, keepdims=False): return np_reduce("min", self, axis, keepdims)
    def any(self, axis=None, keepdims=False): return np_reduce("any", self, axis, keepdims)
    def all(self, axis=None, keepdims=False): return np_reduce("all", self, axis, keepdims)
    def dot(self, o): raise Unsupported("dot")
    def setflags(self, write=None, **k):
        pass

    # -- arithmetic
    def __add__(self, o): return np_bin("add", self, o)
    def __radd__(self, o): return np_bin("add", o, self)
    def __sub__(self, o): return np_bin("sub", self, o)
    def __rsub__(self, o): return np_bin("sub", o, self)
    def __mul__(self, o): return np_bin("mul", self, o)
    def __rmul__(self, o): return np_bin("mul", o, self)
    def __truediv__(self, o): return np_bin("div", self, o)
    def __rtruediv__(self, o): return np_bin("div", o, self)
    def __floordiv__(self, o): return np_bin("fdiv", self, o)
    def __rfloordiv__(self, o): return np_bin("fdiv", o, self)
    def __mod__(self, o): return np_bin("mod", self, o)
    def __rmod__(self, o): return np_bin("mod", o, self)
    def __pow__(self, o): return np_bin("pow", self, o)
    def __rpow__(self, o): return np_bin("pow", o, self)
    def __neg__(self): return np_un("neg", self)
    def __pos__(self): return self
    def __abs__(self): return np_abs(self)
    def __lt__(self, o): return np_cmp("lt", self, o)
    def __le__(self, o): return np_cmp("le", self, o)
    def __gt__(self, o): return np_cmp("gt", self, o)
    def __ge__(self, o): return np_cmp("ge", self, o)
    def __eq__(self, o):
        if o is None:
            return False
        return np_cmp("eq", self, o)
    def __ne__(self, o):
        if o is None:
            return True
        return np_cmp("ne", self, o)
    def __and__(self, o): return np_logic("and", self, o)
    def __rand__(self, o): return np_logic("and", o, self)
    def __or__(self, o): return np_logic("or", self, o)
    def __ror__(self, o): return np_logic("or", o, self)
    def __xor__(self, o): return np_logic("xor", self, o)
    def __rxor__(self, o): return np_logic("xor", o, self)
    def __invert__(self):
        if self.core.dtype != "bool":
            raise Unsupported("bitwise invert of integers")
        return res(emap(T.not_, "bool", self.core))

    def _inplace(self, op, o):
        r = np_bin(op, self, o) if op not in ("and", "or", "xor") else np_logic(op, self, o)
        if self._scalar:
            return r
        if isinstance(r, TfBase):
            return r
        c = r.core
        if "bifc".index(kind(c.dtype)) > "bifc".index(kind(self.core.dtype)):
            raise TypeError("Cannot cast ufunc output from %s to %s" % (c.dtype, self.core.dtype))
        self._write(c.astype(self.core.dtype).broadcast_to(self.core.shape))
        return self
    def __iadd__(self, o): return self._inplace("add", o)
    def __isub__(self, o): return self._inplace("sub", o)
    def __imul__(self, o): return self._inplace("mul", o)
    def __itruediv__(self, o): return self._inplace("div", o)
    def __ipow__(self, o): return self._inplace("pow", o)
    def __iand__(self, o): return self._inplace("and", o)
    def __ior__(self, o): return self._inplace("or", o)
    def __ixor__(self, o): return self._inplace("xor", o)

    def __bool__(self):
        c = self.core
        if c.rank and not all(cur().decide(T.eq(s, num(1))) for s in c.shape):
            raise ValueError("The truth value of an array with more than one element is ambiguous.")
        return cur().decide(nd.convert(c.at(*[num(0)] * c.rank), c.dtype, "bool"))

    def __float__(self): return scalar_of(self).__float__()
    def __int__(self): return scalar_of(self).__index__()
    def __index__(self): return scalar_of(self).__index__()
    def __complex__(self): raise Unsupported("complex()")
    def __len__(self):
        if not self.core.rank:
            raise TypeError("len() of unsized object")
        return dim_value(self.core.shape[0]).__index__()
    def __slmv_len__(self):
        if not self.core.rank:
            raise TypeError("len() of unsized object")
        return dim_value(self.core.shape[0])
    def __slmv_seq__(self):
        s = self.core.shape
        if not s:
            raise TypeError("iteration over a 0-d array")
        c = self.core
        return (s[0], lambda k: NpArray(Core(c.shape[1:], c.dtype, lambda *i: c.at(k, *i)), scalar=c.rank == 1))
    def __iter__(self):
        n, get = self.__slmv_seq__()
        if not T.is_num(n):
            raise Unsupported("iteration over an array of symbolic length")
        return iter([get(num(k)) for k in range(int(n.val))])
    def __round__(self, n=None):
        if n is not None:
            raise Unsupported("round")
        return scalar_of(self).__round__()
    def __repr__(self): return "NpArray(%s, %s)" % (self.core.dtype, self.core.shape)
    def __str__(self): return "<array>"
    def __format__(self, s): return "<array>"
    def __getattr__(self, n):
        if n.startswith("__") and n.endswith("__"):
            raise AttributeError(n)
        raise Unsupported("ndarray.%s" % n)

    # -- indexing
    def __getitem__(self, key):
        key, mask, fancy = np_key(self, key)
        if mask is not None:
            return MaskedVec(self.core, mask)
        if fancy:
            return res(np_fancy(self.core, key))
        c, maps = nd.getitem(self.core, key)
        if c.rank == 0:
            return NpArray(c, scalar=True)
        return NpArray(view=(self, lambda base: nd.getitem(base, key)[0]))

    def __setitem__(self, key, value):
        key, mask, fancy = np_key(self, key)
        c = self.live_core()
        dt = c.dtype
        if mask is not None:
            m = mask.broadcast_to(c.shape) if mask.rank == c.rank else None
            if m is None:
                raise Unsupported("partial boolean mask")
            if isinstance(value, MaskedVec):
                if not same_mask(value.mask, mask):
                    raise Unsupported("assignment of elements selected by a different mask")
                v = value.core.astype(dt)
            else:
                v = to_np(value).core
                if v.rank:
                    raise Unsupported("assignment of a vector under a mask")
                v = v.astype(dt).broadcast_to(c.shape)
            self._write(Core(c.shape, dt, lambda *i: ite_v(m.at(*i), v.at(*i), c.at(*i))))
            return
        if fancy:
            raise Unsupported("assignment with index arrays")
        sub, maps = nd.getitem(c, key)
        if isinstance(value, MaskedVec):
            raise Unsupported("assignment of masked elements")
        v = to_np(value).core
        v = (v.astype(dt)).broadcast_to(sub.shape) if sub.rank or v.rank == 0 else v.astype(dt)

        def fn(*i):
            conds, pos, d = [], [], 0
            p = 0
            for mp in maps:
                if mp[0] == "new":
                    pos.append(num(0))
                    continue
                if mp[0] == "int":
                    conds.append(T.eq(i[d], mp[1]))
                else:
                    st, step = mp[1], mp[2]
                    off = T.sub(i[d], st)
                    cnt = sub.shape[len(pos)]
                    if T.is_num(step) and step.val == 1:
                        q = off
                    elif T.is_num(step) and step.val == -1:
                        q = T.scale(off, -1)
                    else:
                        q = T.fdiv(off, step)
                        conds.append(T.eq(T.mul(q, step), off))
                    conds += [T.le(num(0), q), T.lt(q, cnt)]
                    pos.append(q)
                d += 1
            hit = T.and_(*conds)
            if hit.op == "bool" and not hit.val:
                return c.at(*i)
            return ite_v(hit, v.at(*pos), c.at(*i))
        self._write(Core(c.shape, dt, fn))


class SBytes:
    """bytes of a symbolic array"""
    def __init__(self, core): self.core = core
    def __len__(self): return (dim_value(nd.size(self.core.shape)) * _np.dtype(self.core.dtype).itemsize).__index__()
    def __slmv_len__(self): return dim_value(nd.size(self.core.shape)) * _np.dtype(self.core.dtype).itemsize


class MaskedVec:
    """array[mask]: the vector of the elements selected by a boolean mask (order preserved)."""
    def __init__(self, core, mask):
        if mask.rank != core.rank:
            raise Unsupported("partial boolean mask")
        if not nd.shape_eq(mask.shape, core.shape):
            raise IndexError("boolean index did not match indexed array")
        self.core, self.mask = core, mask

    __array_priority__ = 20
    __hash__ = None

    @property
    def dtype(self): return NP[self.core.dtype]

    def _lift(self, o):
        if isinstance(o, MaskedVec):
            if not same_mask(o.mask, self.mask):
                raise Unsupported("combination of differently masked vectors")
            return NpArray(o.core)
        if isinstance(o, (NpArray, TfBase)) and o.core.rank:
            raise Unsupported("combination of a masked vector with an array")
        return o

    def _bin(self, f, o, swap=False):
        a = NpArray(self.core)
        b = self._lift(o)
        r = f(b, a) if swap else f(a, b)
        return MaskedVec(r.core.broadcast_to(self.core.shape), self.mask)

    def __add__(self, o): return self._bin(lambda a, b: a + b, o)
    def __radd__(self, o): return self._bin(lambda a, b: a + b, o, True)
    def __sub__(self, o): return self._bin(lambda a, b: a - b, o)
    def __rsub__(self, o): return self._bin(lambda a, b: a - b, o, True)
    def __mul__(self, o): return self._bin(lambda a, b: a * b, o)
    def __rmul__(self, o): return self._bin(lambda a, b: a * b, o, True)
    def __truediv__(self, o): return self._bin(lambda a, b: a / b, o)
    def __rtruediv__(self, o): return self._bin(lambda a, b: a / b, o, True)
    def __pow__(self, o): return self._bin(lambda a, b: a ** b, o)
    def __neg__(self): return MaskedVec(np_un("neg", NpArray(self.core)).core, self.mask)
    def __abs__(self): return MaskedVec(np_abs(NpArray(self.core)).core, self.mask)
    def copy(self): return self
    def astype(self, dt): return MaskedVec(self.core.astype(dtname(dt)), self.mask)
    def conj(self): return MaskedVec(np_un("conj", NpArray(self.core)).core, self.mask)

    def count(self):
        m = self.mask
        return A.sum_term(m.shape, lambda *i: T.ite(m.at(*i), num(1), num(0)))

    @property
    def size(self): return mk(T.floor(self.count()), "i")
    def __slmv_len__(self): return self.size
    def __len__(self): return self.size.__index__()

    def sum(self, axis=None):
        if axis not in (None, 0, -1):
            raise Unsupported("axis")
        c, m = self.core, self.mask
        v = A.sum_term(c.shape, lambda *i: ite_v(m.at(*i), nd.convert(c.at(*i), c.dtype, c.dtype if c.dtype != "bool" else "int64"), zero_like(c.dtype)))
        return NpArray(const(v, c.dtype if kind(c.dtype) in "fc" else "float64"), scalar=True)

    def mean(self, axis=None):
        s = self.sum(axis)
        n = self.count()
        c = s.core
        v = c.at()
        r = Cx(v.re / n, v.im / n) if isinstance(v, Cx) else v / n
        return NpArray(const(r, c.dtype), scalar=True)

    def __getattr__(self, n):
        if n.startswith("__") and n.endswith("__"):
            raise AttributeError(n)
        raise Unsupported("masked vector .%s" % n)


def zero_like(dt):
    return Cx(num(0)) if kind(dt) == "c" else num(0)


def same_mask(a, b):
    if a is b:
        return True
    if len(a.shape) != len(b.shape):
        return False
    bi = A.binders(a.rank)
    with A.scope():
        x, y = a.at(*bi), b.at(*bi)
    if x is y:
        return True
    ctx = cur()
    from . import prove as P
    hyps = ctx.pc + ctx.index_hyps(*ctx.pc) + [h for v, s in zip(bi, a.shape) for h in (T.le(num(0), v), T.lt(v, s))]
    return P.Prover(hyps, deadline=5).prove(T.iff(x, y)).status == "proved"


def np_key(self, key):
    """-> (basic key tuple, mask core or None, fancy)"""
    if isinstance(key, (NpArray, TfBase)) and key.core.dtype == "bool" and key.core.rank:
        return None, key.core, False
    if isinstance(key, list):
        return [key], None, True
    if not isinstance(key, tuple):
        key = (key,)
    out, fancy = [], False
    for k in key:
        if isinstance(k, slice):
            out.append(slice(*[None if x is None else idx_term(nval(tonum(x))) for x in (k.start, k.stop, k.step)]))
        elif k is None or k is Ellipsis:
            out.append(k)
        elif pk(k) is not None:
            if pk(k) == "f":
                raise IndexError("only integers, slices are valid indices")
            if pk(k) == "b":
                raise Unsupported("boolean scalar index")
            out.append(nval(k))
        elif isinstance(k, (NpArray, TfBase)):
            if k.core.rank == 0 and kind(k.core.dtype) == "i":
                out.append(k.core.at())
            elif kind(k.core.dtype) == "i":
                out.append(k)
                fancy = True
            else:
                raise Unsupported("index array of dtype %s" % k.core.dtype)
        else:
            raise Unsupported("index of type %s" % type(k).__name__)
    return tuple(out), None, fancy


def np_fancy(c, key):
    """index arrays (all integer arrays, one per leading dimension)"""
    key = [to_np(k).core if not isinstance(k, T.Term) else const(k, "int64") for k in key]
    shape = nd.broadcast_shapes(*[k.shape for k in key])
    ks = [k.broadcast_to(shape) for k in key]
    r = len(shape)

    def fn(*i):
        ix = []
        for d, k in enumerate(ks):
            v = k.at(*i[:r])
            ix.append(T.ite(T.lt(v, num(0)), T.add(v, c.shape[d]), v))
        return c.at(*ix, *i[r:])
    return Core(tuple(shape) + c.shape[len(ks):], c.dtype, fn)


def res(core):
    return NpArray(core, scalar=core.rank == 0)


def to_np(v, dtype=None):
    """np.asarray"""
    if isinstance(v, NpArray):
        r = v
    elif isinstance(v, TfBase):
        r = NpArray(v.core)
    elif pk(v) is not None:
        r = NpArray(const(val(v), {"b": "bool", "i": "int64", "f": "float64", "c": "complex128"}[pk(v)]))
    elif isinstance(v, MaskedVec):
        return v
    elif isinstance(v, _np.generic):
        r = to_np(v.item()).astype(str(v.dtype))
    elif isinstance(v, _np.ndarray):
        r = from_native(v)
    elif isinstance(v, (list, tuple, SList)):
        r = NpArray(seq_core(v, lambda x: to_np(x).core, None))
        if not isinstance(v, SList) and getattr(v, "sym", None) is None and len(v) == 0:
            r = NpArray(Core((num(0),), "float64", lambda i: num(0)))
        elif dtype is None and isinstance(v, (list, tuple)) and getattr(v, "sym", None) is None:
            ds = [to_np(x).core.dtype for x in v]
            r = NpArray(r.core.astype(promote(*ds)))
    elif hasattr(v, "__slmv_array__"):
        return v.__slmv_array__()
    else:
        raise Unsupported("np.array of %s" % type(v).__name__)
    if dtype is not None and r.core.dtype != dtype:
        r = NpArray(r.core.astype(dtype))
    return r


def from_native(a):
    a = _np.asarray(a)
    items = {tuple(ix): a[ix] for ix in _np.ndindex(a.shape)}

    def fn(*i):
        if all(T.is_num(x) for x in i):
            return val(items[tuple(int(x.val) for x in i)].item())
        v = None
        for ix, x in items.items():
            t = val(x.item())
            v = t if v is None else ite_v(T.and_(*[T.eq(p, num(q)) for p, q in zip(i, ix)]), t, v)
        return v
    return NpArray(Core([num(s) for s in a.shape], str(a.dtype), fn))


def promote(*ds):
    return str(_np.result_type(*[_np.dtype(d) for d in ds]))


def np_pair(a, b):
    """cores with the NumPy 2 result dtype (python scalars are weak)"""
    ka, kb = pk(a), pk(b)
    x, y = to_np(a), to_np(b)
    if isinstance(x, MaskedVec) or isinstance(y, MaskedVec):
        raise Unsupported("masked operand")
    x, y = x.core, y.core
    if ka is None and kb is None:
        d = promote(x.dtype, y.dtype)
    elif ka is None:
        d = weak(x.dtype, kb)
    elif kb is None:
        d = weak(y.dtype, ka)
    else:
        d = promote(x.dtype, y.dtype)
    return x, y, d


def weak(d, k):
    kd = kind(d)
    if "bifc".index(k) <= "bifc".index(kd):
        return d
    if k == "i":
        return "int64"
    if k == "f":
        return "float64"
    return {"float32": "complex64"}.get(d, "complex128")


def np_err(f):
    def g(*a, **k):
        try:
            return f(*a, **k)
        except nd.ShapeError as e:
            raise ValueError("operands could not be broadcast together: %s" % e)
    return g


@np_err
def np_bin(op, a, b):
    if isinstance(a, MaskedVec) or isinstance(b, MaskedVec):
        return NotImplemented
    if isinstance(a, TfBase) or isinstance(b, TfBase):
        return tf_bin(op, a, b)
    if pk(a) is None and not isinstance(a, (NpArray, list, tuple)) or pk(b) is None and not isinstance(b, (NpArray, list, tuple)):
        return NotImplemented
    x, y, d = np_pair(a, b)
    kd = kind(d)
    if op == "div":
        if kd in "bi":
            d, kd = "float64", "f"
    elif kd == "b":
        if op == "add":
            return res(emap(T.or_, "bool", x, y))
        if op in ("mul", "min"):
            return res(emap(T.and_, "bool", x, y))
        if op == "max":
            return res(emap(T.or_, "bool", x, y))
        if op == "sub":
            raise TypeError("numpy boolean subtract, the `-` operator, is not supported")
        d, kd = "int8", "i"
    x, y = x.astype(d), y.astype(d)
    if kd == "c" and op in ("fdiv", "mod", "max", "min"):
        raise Unsupported("complex " + op)

    def f(p, q):
        r = k_arith(op, p, q, kd)
        if d == "uint8" and op in ("add", "sub", "mul", "pow"):
            if T.is_num(r) and 0 <= r.val < 256:
                return r
            if r.op == "ite" and all(T.is_num(z) and 0 <= z.val < 256 for z in r.args[1:]):
                return r
            if not cur().entails(T.and_(T.le(num(0), r), T.lt(r, num(256)))):
                return T.mod(r, num(256))
        return r
    return res(emap(f, d, x, y))


@np_err
def np_cmp(op, a, b):
    if isinstance(a, TfBase) or isinstance(b, TfBase):
        return tf_cmp(op, a, b)
    if isinstance(b, MaskedVec) or isinstance(a, MaskedVec):
        raise Unsupported("masked comparison")
    if (pk(a) is None and not isinstance(a, (NpArray, list, tuple))) or (pk(b) is None and not isinstance(b, (NpArray, list, tuple))):
        return op == "ne" if op in ("eq", "ne") else NotImplemented
    x, y, d = np_pair(a, b)
    if kind(d) == "c" and op not in ("eq", "ne"):
        x, y = x.astype(d), y.astype(d)

        def f(p, q):
            e = T.eq(p.re, q.re)
            strict = {"lt": T.lt, "le": T.lt, "gt": T.gt, "ge": T.gt}[op]
            full = {"lt": T.lt, "le": T.le, "gt": T.gt, "ge": T.ge}[op]
            return T.or_(strict(p.re, q.re), T.and_(e, full(p.im, q.im)))
        return res(emap(f, "bool", x, y))
    return res(emap(lambda p, q: k_cmp(op, p, q), "bool", x.astype(d), y.astype(d)))


@np_err
def np_logic(op, a, b):
    if isinstance(a, TfBase) or isinstance(b, TfBase):
        return tf_logic(op, a, b)
    x, y, d = np_pair(a, b)
    if d != "bool":
        raise Unsupported("bitwise operation on integer arrays")
    f = {"and": T.and_, "or": T.or_, "xor": lambda p, q: T.not_(T.iff(p, q))}[op]
    return res(emap(f, "bool", x, y))


def np_un(name, x):
    if isinstance(x, MaskedVec):
        return MaskedVec(np_un(name, NpArray(x.core)).core, x.mask)
    a = to_np(x)
    c = a.core
    kd = kind(c.dtype)
    dt = c.dtype
    if name in ("neg", "abs", "sign", "square", "conj", "rint", "floor", "ceil", "reciprocal"):
        if kd == "b":
            if name == "neg":
                raise TypeError("The numpy boolean negative, the `-` operator, is not supported")
            c = c.astype("int8")
            kd, dt = "i", "int8"
    elif kd in "bi":
        dt = "float64"
        c, kd = c.astype(dt), "f"
    return res(emap(lambda v: k_unary(name, v, kd), dt, c))


def np_abs(x):
    if isinstance(x, MaskedVec):
        return abs(x)
    c = to_np(x).core
    if kind(c.dtype) == "c":
        return res(emap(lambda v: cx(v).abs(), nd.real_of(c.dtype), c))
    if c.dtype == "bool":
        return res(c)
    return np_un("abs", x)


def np_real(x):
    c = to_np(x).core
    if kind(c.dtype) == "c":
        return res(emap(lambda v: cx(v).re, nd.real_of(c.dtype), c))
    return x if isinstance(x, NpArray) else res(c)


def np_imag(x):
    c = to_np(x).core
    if kind(c.dtype) == "c":
        return res(emap(lambda v: cx(v).im, nd.real_of(c.dtype), c))
    return res(emap(lambda v: num(0), c.dtype if c.dtype != "bool" else "int64", c))


def norm_axes(axis, rank):
    if axis is None:
        return None
    if pk(axis) is not None:
        return [int(axis)]
    return [int(a) for a in axis]


def np_reduce(op, x, axis=None, keepdims=False):
    if isinstance(x, MaskedVec):
        if op == "sum":
            return x.sum(axis)
        raise Unsupported("reduction %s of a masked vector" % op)
    c = to_np(x).core
    if op in ("any", "all"):
        c = c.astype("bool")
    if op == "sum" and c.dtype == "bool":
        c = c.astype("int64")
    if op in ("max", "min") and c.dtype == "bool":
        op = {"max": "any", "min": "all"}[op]
    if kind(c.dtype) == "c" and op in ("max", "min"):
        raise Unsupported("complex max")
    return res(nd.reduce(c, op, norm_axes(axis, c.rank), keepdims))


def np_mean(x, axis=None, keepdims=False):
    if isinstance(x, MaskedVec):
        return x.mean(axis)
    c = to_np(x).core
    if kind(c.dtype) in "bi":
        c = c.astype("float64")
    ax = norm_axes(axis, c.rank)
    r = nd.reduce(c, "sum", ax, keepdims)
    n = nd.size([c.shape[a] for a in (range(c.rank) if ax is None else ax)])
    return res(emap(lambda v: Cx(v.re / n, v.im / n) if isinstance(v, Cx) else T.div(v, n), r.dtype, r))


def py_float(x):
    """float(x)"""
    if isinstance(x, (TfBase, NpArray)):
        x = scalar_of(x)
    k = pk(x)
    if k == "c":
        raise TypeError("float() argument must be a real number, not 'complex'")
    if k is not None:
        return mk(nval(x), "f")
    return builtins.float(x)

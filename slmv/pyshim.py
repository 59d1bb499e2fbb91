"""Python built-ins, math, functools and tracing, accepting symbolic values. Everything not shimmed is the real thing."""
import builtins
import functools as _functools
import math as _math
from . import terms as T
from . import arr as A
from . import nd
from . import loops as L
from . import tensors as X
from .arr import Cx, cx
from .terms import num
from . import ctx as _ctx
from .ctx import cur, Unsupported
from .pyvals import (PyNum, SInt, SFloat, SBool, SComplex, SList, SRange, LazySeq, symseq, mk, mkb, val, nval, pk,
                     as_slist, binop)
from .tensors import TfBase, NpArray, MaskedVec


# ---- attribute recording (tf.function freezes what it reads while tracing) ---------------------------------------------
class Trace:
    """One invocation of a traced function. snap: attribute / array contents as read when it was traced."""

    def __init__(self, snap, replay):
        self.snap, self.replay, self.overlay, self.keep, self.args = snap, replay, {}, [], ()

    def array_read(self, arr, ctx):
        return trace_read(("arr", id(arr)), arr, lambda: arr.live_core(), 0, ctx)


def trace_read(key, owner, live, level, ctx):
    if level == len(ctx.traces):
        return live()
    t = ctx.traces[level]
    if key in t.overlay:
        return t.overlay[key]
    if key in t.snap:
        return t.snap[key][1]
    v = trace_read(key, owner, live, level + 1, ctx)
    t.snap[key] = (owner, v)
    return v


class SObject:
    """object: instance attributes go through the tracing model"""

    def __new__(cls, *a, **k):
        o = object.__new__(cls)
        ctx = cur()
        if ctx is not None:
            ctx.objects.append(o)
        if ctx is not None and ctx.journal is not None:
            ctx.journal.fresh[id(o)] = o
            ctx.loop_objects[id(o)] = o
        return o

    def __getattribute__(self, n):
        if n[:2] == "__":
            return object.__getattribute__(self, n)
        ctx = cur()
        if ctx is None or not ctx.traces:
            return object.__getattribute__(self, n)
        d = object.__getattribute__(self, "__dict__")
        known = n in d or ("at", id(self), n) in ctx.traces[0].snap
        if not known or isinstance(getattr(type(self), n, None), property):
            return object.__getattribute__(self, n)

        def live():
            return object.__getattribute__(self, n)
        return trace_read(("at", id(self), n), self, live, 0, ctx)

    def __setattr__(self, n, v):
        ctx = cur()
        if ctx is not None:
            if ctx.journal is not None:
                if isinstance(getattr(type(self), n, None), property):
                    return object.__setattr__(self, n, v)
                old = object.__getattribute__(self, "__dict__").get(n, ctx)
                if not (old is v or isinstance(v, (builtins.bool, builtins.str)) and type(old) is type(v) and old == v):
                    ctx.journal.mutated(self)
            if ctx.traces and not isinstance(getattr(type(self), n, None), property):
                for t in ctx.traces:
                    t.overlay[("at", id(self), n)] = v
                if any(t.replay for t in ctx.traces):
                    return
        object.__setattr__(self, n, v)

    def __slmv_subst__(self, m):
        if id(self) in cur().loop_objects:
            raise Unsupported("object created in a loop with symbolic trip count leaves it")
        return self


def sig(v, al=None):
    """cache key of an argument of a traced function; al: variables met so far (traces are shared by variables of one type)"""
    if isinstance(v, X.TfVariable):
        if al is None:
            return ("var", id(v))
        return ("var", v._dt, tuple(s.id for s in v._core.shape), al.setdefault(id(v), len(al)))
    if isinstance(v, TfBase):
        return ("t", v.core.dtype, tuple(s.id for s in v.core.shape))
    if isinstance(v, NpArray):
        return ("t", v.core.dtype, tuple(s.id for s in v.core.shape))
    if isinstance(v, PyNum):
        z = val(v)
        return ("n", type(v).__name__, (z.re.id, z.im.id) if isinstance(z, Cx) else z.id)
    if isinstance(v, (builtins.bool, builtins.int, builtins.float, builtins.complex, builtins.str, builtins.bytes)) or v is None:
        return ("p", type(v).__name__, v)
    if isinstance(v, (tuple, list)):
        if getattr(v, "sym", None) is not None:
            return ("o", id(v))
        return ("s", type(v).__name__, tuple(sig(x, al) for x in v))
    if isinstance(v, dict):
        return ("d", tuple((k, sig(x, al)) for k, x in sorted(v.items())))
    return ("o", id(v))


def variables_in(v):
    if isinstance(v, X.TfVariable):
        return [v]
    if isinstance(v, (tuple, list)) and getattr(v, "sym", None) is None:
        return [y for x in v for y in variables_in(x)]
    if isinstance(v, dict):
        return [y for x in v.values() for y in variables_in(x)]
    return []


class BoundTf:
    """a traced function bound to an instance: it refers to the instance weakly"""
    def __init__(self, fn, obj):
        self.fn, self.obj = fn, obj

    def __call__(self, *a, **k):
        if id(self.obj) in cur().dead:
            raise ReferenceError("weakly-referenced object no longer exists: the instance of a traced method was collected")
        return self.fn(self.obj, *a, **k)


class Snap(dict):
    """what a trace has frozen; the variables it refers to (weakly)"""
    def __init__(self):
        self.watched = {}


class TfFunction:
    """tf.function: traced once per signature; python state read during tracing is frozen, variables are read live."""

    def __init__(self, f, **kw):
        self.f, self.cache, self.keep = f, {}, []
        try:
            _functools.update_wrapper(self, f)
        except Exception:
            pass

    python_function = property(lambda s: s.f)
    function_spec = property(lambda s: (_ for _ in ()).throw(Unsupported("function_spec")))

    def __get__(self, obj, cls=None):
        if obj is None:
            return self
        return BoundTf(self, obj)

    def __call__(self, *args, **kwargs):
        ctx = cur()
        args = [X.conv_tf(a) if isinstance(a, NpArray) else a for a in args]
        kwargs = {k: X.conv_tf(a) if isinstance(a, NpArray) else a for k, a in kwargs.items()}
        al = {}
        key = (tuple(sig(a, al) for a in args), tuple((k, sig(v, al)) for k, v in sorted(kwargs.items())))
        snap = self.cache.get(key)
        replay = snap is not None
        if not replay:
            snap = Snap()
            self.keep.append((args, kwargs))
        t = Trace(snap, replay)
        if ctx.traces:
            # the enclosing traces refer (weakly) to the variables of the traces they call
            if replay and not ctx.traces[-1].replay and any(id(v) in ctx.dead for v in snap.watched.values()):
                raise AssertionError("Called a function referencing variables which have been deleted.")
            for v in variables_in([args, kwargs]) if not replay else snap.watched.values():
                for o in ctx.traces:
                    o.snap.watched[id(v)] = v
        t.args = {id(v) for v in variables_in([args, kwargs])}
        ctx.traces.append(t)
        try:
            r = self.f(*args, **kwargs)
        finally:
            ctx.traces.remove(t)
        if not replay:
            self.cache[key] = snap
        return to_tensors(r)


def to_tensors(r):
    """python numbers and arrays returned by a traced function become tensors"""
    if isinstance(r, TfBase) or r is None:
        return X.TfTensor(r.core) if isinstance(r, X.TfVariable) else r
    if isinstance(r, tuple):
        return tuple(to_tensors(x) for x in r)
    if isinstance(r, list):
        return type(r)([to_tensors(x) for x in r])
    if pk(r) is not None or isinstance(r, NpArray):
        return X.conv_tf(r)
    if isinstance(r, dict):
        return {k: to_tensors(v) for k, v in r.items()}
    return r


def tf_function(func=None, **kw):
    if func is None:
        return lambda f: TfFunction(f)
    return TfFunction(func)


class outside_trace:
    """numpy_function bodies run at execution time"""
    def __enter__(self):
        c = cur()
        self.saved, c.traces = c.traces, []
    def __exit__(self, *a):
        cur().traces = self.saved


# ---- type shims ---------------------------------------------------------------------------------------------------------
class PyType(type):
    def __instancecheck__(cls, o): return cls._inst(o)
    def __subclasscheck__(cls, o): return o is cls or builtins.issubclass(o, cls._real) if builtins.isinstance(o, type) else False
    def __call__(cls, *a, **k): return cls._conv(*a, **k)
    def __repr__(cls): return "<class '%s'>" % cls._real.__name__
    def __getattr__(cls, n): return getattr(cls._real, n)


def _pytype(real, inst, conv):
    return PyType(real.__name__, (), {"_real": real, "_inst": staticmethod(inst), "_conv": staticmethod(conv)})


def _sc(x):
    return X.scalar_of(x) if isinstance(x, (TfBase, NpArray)) else x


def c_int(x=0, *a):
    if a or isinstance(x, (str, bytes)):
        return builtins.int(x, *a)
    x = _sc(x)
    if isinstance(x, PyNum) or isinstance(x, builtins.float) or hasattr(x, "numerator") and pk(x):
        if pk(x) == "c":
            raise TypeError("int() argument must be a string, a bytes-like object or a real number, not 'complex'")
        return mk(T.trunc(nval(x)), "i")
    return builtins.int(x)


def c_float(x=0.0):
    if isinstance(x, str):
        return builtins.float(x)
    x = _sc(x)
    if pk(x) is not None:
        if pk(x) == "c":
            raise TypeError("float() argument must be a string or a real number, not 'complex'")
        return SFloat(nval(x))
    return builtins.float(x)


def c_bool(x=False):
    if isinstance(x, PyNum):
        v = val(x)
        if isinstance(v, Cx):
            return mkb(nd.convert(v, "complex128", "bool"))
        return mkb(v if v.sort == "B" else T.ne(v, num(0)))
    if isinstance(x, (TfBase, NpArray)):
        return c_bool(_sc(x))
    return builtins.bool(x)


def c_complex(a=0, b=0):
    a, b = _sc(a), _sc(b)
    if pk(a) is None or pk(b) is None:
        return builtins.complex(a, b)
    z = cx(nval(a)) + cx(nval(b)) * Cx(0, 1)
    return SComplex(z)


def c_list(x=()):
    s = symseq(x)
    if s is not None:
        return L.JList.symbolic(SList(s[0], s[1]))
    return L.JList(x)


def c_tuple(x=()):
    s = symseq(x)
    if s is not None and not T.is_num(s[0]):
        return L.JList.symbolic(SList(s[0], s[1]))
    return builtins.tuple(x)


def c_str(x="", *a):
    return builtins.str(x, *a)


def c_type(*a):
    if len(a) == 1:
        k = pk(a[0])
        if k is not None:
            return {"b": Bool, "i": Int, "f": Float, "c": Complex}[k]
        if isinstance(a[0], list):
            return List
        if isinstance(a[0], NpArray):
            return X.NPT[a[0].core.dtype] if a[0]._scalar else NDARRAY[0]
        return builtins.type(a[0])
    return builtins.type(*a)


NDARRAY = [NpArray]

Int = _pytype(int, lambda o: isinstance(o, (builtins.int, SInt, SBool)), c_int)
Float = _pytype(float, lambda o: isinstance(o, (builtins.float, SFloat)) or
                (isinstance(o, NpArray) and o._scalar and o.core.dtype == "float64"), c_float)
Bool = _pytype(bool, lambda o: isinstance(o, (builtins.bool, SBool)), c_bool)
Complex = _pytype(complex, lambda o: isinstance(o, (builtins.complex, SComplex)) or
                  (isinstance(o, NpArray) and o._scalar and o.core.dtype == "complex128"), c_complex)
List = _pytype(list, lambda o: isinstance(o, (builtins.list, SList)), c_list)
Tuple_ = _pytype(tuple, lambda o: isinstance(o, builtins.tuple), c_tuple)
Type_ = _pytype(type, lambda o: isinstance(o, builtins.type), c_type)
X.PYT.update({"int": Int, "float": Float, "bool": Bool, "complex": Complex})


# ---- functions ------------------------------------------------------------------------------------------------------------
def s_len(x):
    if hasattr(x, "__slmv_len__"):
        return x.__slmv_len__()
    if isinstance(x, L.JList) and x.sym is not None:
        x._read()
        return x.sym.slen()
    if isinstance(x, SList):
        return x.slen()
    if isinstance(x, (SRange, LazySeq)):
        return mk(x.n(), "i")
    if isinstance(x, TfBase):
        if not x.core.rank:
            raise TypeError("Scalar tensor has no `len()`")
        return X.dim_value(x.core.shape[0])
    return builtins.len(x)


def s_range(*a):
    a = [_sc(x) if isinstance(x, (TfBase, NpArray)) else x for x in a]
    if any(pk(x) == "f" for x in a):
        raise TypeError("'float' object cannot be interpreted as an integer")
    if not any(isinstance(x, PyNum) for x in a):
        return builtins.range(*a)
    if len(a) == 1:
        return SRange(0, a[0])
    return SRange(*a)


def seq_of(x):
    s = symseq(x)
    if s is None and hasattr(x, "__slmv_range__"):
        s = x.__slmv_range__()
    return s if s is not None and not T.is_num(s[0]) else None


def s_enumerate(x, start=0):
    s = seq_of(x)
    if s is None:
        if isinstance(start, PyNum):
            return iter([(start + k, v) for k, v in builtins.enumerate(x)])
        return builtins.enumerate(x, start)
    return LazySeq(s[0], lambda k: (mk(T.add(k, val(start)), "i"), s[1](k)))


def s_zip(*xs, strict=False):
    ss = [seq_of(x) for x in xs]
    if all(s is None for s in ss):
        return builtins.zip(*xs)
    ctx = cur()
    n = None
    gets = []
    for x, s in zip(xs, ss):
        if s is None:
            x = builtins.list(x)
            s = (num(len(x)), as_slist(x).fn)
        gets.append(s[1])
        n = s[0] if n is None else n if ctx.decide(T.le(n, s[0])) else s[0]
    return LazySeq(n, lambda k: tuple(g(k) for g in gets))


def s_map(f, *xs):
    if all(seq_of(x) is None for x in xs):
        return builtins.map(f, *xs)
    z = s_zip(*xs)
    l = L.listcomp(z, lambda t: f(*t))
    return LazySeq(l.sym.n, l.sym.fn) if l.sym is not None else iter(l)


def s_reversed(x):
    s = seq_of(x)
    if s is None:
        return builtins.reversed(x) if not isinstance(x, (SRange,)) else iter(builtins.list(x)[::-1])
    n, g = s
    return LazySeq(n, lambda k: g(T.sub(T.sub(n, num(1)), k)))


def s_sum(x, start=0):
    s = seq_of(x)
    if s is None:
        if isinstance(x, (NpArray, TfBase)):
            it = iter(x)
        r = start
        for v in x:
            r = r + v
        return r
    n, g = s
    if not cur().decide(T.lt(num(0), n)):
        return start
    kk, = A.binders(1)
    with A.scope():
        first = g(kk)
    vc = L.value_core(first)
    if vc is None:
        raise Unsupported("sum over a symbolic sequence of %s" % type(first).__name__)
    tag, core = vc

    def fn(*i):
        return A.sum_term([n], lambda k: L.value_core(g(k))[1].at(*i))
    if tag == "b":
        tag, dt = "i", "int64"
    else:
        dt = core.dtype

    def fi(*i):
        v = fn(*i)
        return nd._int(v) if nd.kind(dt) == "i" and not isinstance(v, Cx) else v
    return start + L.rebuild(tag, nd.Core(core.shape, dt, fi))


def _minmax(op):
    real = builtins.min if op == "min" else builtins.max

    def f(*a, **k):
        xs = a
        if len(a) == 1:
            if isinstance(a[0], (NpArray,)):
                if a[0].core.rank == 1:
                    return X.np_reduce(op, a[0])
                raise Unsupported("builtin max of an array")
            if seq_of(a[0]) is not None:
                raise Unsupported("max over a symbolic sequence")
            xs = builtins.list(a[0])
        if k or not any(isinstance(x, (PyNum, NpArray)) for x in xs):
            return real(*a, **k)
        if any(isinstance(x, NpArray) for x in xs):
            for x in xs:
                if isinstance(x, NpArray) and x.core.rank or pk(x) is None and not isinstance(x, NpArray):
                    raise Unsupported("builtin %s of arrays" % op)
            r = xs[0]
            for x in xs[1:]:
                r = x if (x < r if op == "min" else x > r) else r
            return r
        r = xs[0]
        for x in xs[1:]:
            p, q = nval(r), nval(x)
            kd = max(pk(r), pk(x), key="bifc".index)
            if pk(r) != pk(x):
                c = x < r if op == "min" else x > r
                r = x if c else r
            else:
                r = mk(T.ite(T.lt(q, p) if op == "min" else T.lt(p, q), q, p), "i" if kd == "b" else kd)
        return r
    return f


def s_round(x, n=None):
    if isinstance(x, (TfBase, NpArray)):
        x = _sc(x)
    if isinstance(x, PyNum):
        return x.__round__(n)
    return builtins.round(x, n) if n is not None else builtins.round(x)


def s_print(*a, **k):
    c = cur()
    if c is not None:
        c.stdout.append(a)


def s_any(x):
    for v in x:
        if v:
            return True
    return False


def s_all(x):
    for v in x:
        if not v:
            return False
    return True


def s_pow(a, b, m=None):
    if m is not None:
        return builtins.pow(a, b, m)
    return a ** b


def s_isinstance(o, c):
    return builtins.isinstance(o, c)


def s_hash(x):
    return builtins.hash(x)


def s_fliteral(x):
    return SFloat(T.num(T.frac(x)))


def s_cliteral(x):
    return SComplex(Cx(T.num(T.frac(x.real)), T.num(T.frac(x.imag))))


# ---- math ---------------------------------------------------------------------------------------------------------------------
class Namespace:
    def __init__(self, name, d):
        self.__dict__["_n"] = name
        self.__dict__.update(d)

    def __getattribute__(self, n):
        "notes which assumed operations of a dependency the verified code uses"
        r = object.__getattribute__(self, n)
        if n[:1] != "_" and not isinstance(r, Namespace):
            c = _ctx.CUR[0]
            if c is not None:
                c.externals.add(object.__getattribute__(self, "__dict__")["_n"] + "." + n)
        return r

    def __getattr__(self, n):
        if n[:2] == "__":
            raise AttributeError(n)
        raise Unsupported("%s.%s" % (self.__dict__["_n"], n))


def _num1(x):
    x = _sc(x)
    if pk(x) == "c":
        raise TypeError("must be real number, not complex")
    if pk(x) is None:
        raise TypeError("must be real number, not %s" % type(x).__name__)
    return nval(x)


def m_un(name):
    def f(x):
        return SFloat(T.fn(name, _num1(x)))
    return f


def m_sqrt(x):
    v = _num1(x)
    if not cur().decide(T.le(num(0), v)):
        raise ValueError("math domain error")
    return SFloat(T.fn("sqrt", v))


def m_log(x, base=None):
    v = _num1(x)
    if not cur().decide(T.lt(num(0), v)):
        raise ValueError("math domain error")
    r = SFloat(T.fn("log", v))
    return r if base is None else r / m_log(base)


def m_hypot(*a):
    return SFloat(T.fn("sqrt", T.add(*[_num1(x) * _num1(x) for x in a])))


def m_factorial(x):
    v = _num1(x)
    if pk(_sc(x)) == "f":
        raise TypeError("'float' object cannot be interpreted as an integer")
    if not cur().decide(T.le(num(0), v)):
        raise ValueError("factorial() not defined for negative values")
    r = T.fn("factorial", v)
    return mk(r, "i") if T.is_num(r) else SInt(T.floor(r))


def m_isqrt(x):
    v = _num1(x)
    return mk(T.floor(T.fn("sqrt", v)), "i")


def m_isclose(a, b, rel_tol=1e-9, abs_tol=0.0):
    a, b = _num1(a), _num1(b)
    m = lambda x, y: T.ite(T.le(x, y), y, x)
    bound = m(T.mul(_num1(rel_tol), m(T.fn("abs", a), T.fn("abs", b))), _num1(abs_tol))
    return mkb(T.le(T.fn("abs", T.sub(a, b)), bound))


def m_pow(a, b):
    r = c_float(a) ** c_float(b)
    return r


def m_comb(n, k):
    return mk(T.floor(T.div(T.fn("factorial", _num1(n)), T.mul(T.fn("factorial", _num1(k)), T.fn("factorial", _num1(n) - _num1(k))))), "i")


def m_copysign(a, b):
    raise Unsupported("copysign")


def make_math():
    d = {n: m_un(f) for n, f in {"sin": "sin", "cos": "cos", "tan": "tan", "exp": "exp", "asin": "asin", "acos": "acos",
                                 "atan": "atan", "tanh": "tanh", "sinh": "sinh", "cosh": "cosh", "log2": "log2",
                                 "log10": "log10"}.items()}
    d.update(pi=SFloat(T.PI()), tau=SFloat(T.scale(T.PI(), 2)), e=SFloat(T.fn("exp", num(1))), inf=_math.inf, nan=_math.nan,
             sqrt=m_sqrt, log=m_log, hypot=m_hypot, factorial=m_factorial, isqrt=m_isqrt, comb=m_comb, pow=m_pow,
             atan2=lambda y, x: SFloat(T.fn("atan2", _num1(y), _num1(x))),
             floor=lambda x: mk(T.floor(_num1(x)), "i"), ceil=lambda x: mk(T.ceil(_num1(x)), "i"),
             trunc=lambda x: mk(T.trunc(_num1(x)), "i"), fabs=lambda x: SFloat(T.fn("abs", _num1(x))),
             radians=lambda x: SFloat(_num1(x) * T.PI() / 180), degrees=lambda x: SFloat(_num1(x) * 180 / T.PI()),
             fsum=lambda x: s_sum(x), prod=lambda x: _functools.reduce(lambda a, b: a * b, x, 1),
             gcd=_math.gcd, isfinite=lambda x: True, isnan=lambda x: False, isinf=lambda x: False)
    return Namespace("math", d)


# ---- functools -------------------------------------------------------------------------------------------------------------------
def lru_cache(maxsize=128, typed=False):
    def deco(f):
        memo, keep = {}, []

        def key_of(v):
            if isinstance(v, (TfBase, NpArray, list, dict)):
                raise TypeError("unhashable type: '%s'" % type(v).__name__)
            if isinstance(v, PyNum):
                return sig(v)
            if isinstance(v, tuple):
                return tuple(key_of(x) for x in v)
            if isinstance(v, SObject):
                if type(v).__hash__ is None:
                    raise TypeError("unhashable type: '%s'" % type(v).__name__)
                if type(v).__hash__ is not object.__hash__ or type(v).__eq__ is not object.__eq__:
                    raise Unsupported("lru_cache on a class with its own equality")
                return ("o", id(v))
            try:
                hash(v)
            except TypeError:
                raise
            return ("v", type(v).__name__, v) if typed or not isinstance(v, (builtins.int, builtins.float)) else ("v", v)

        def wrapper(*a, **k):
            key = (tuple(key_of(x) for x in a), tuple((n, key_of(x)) for n, x in k.items()))
            if key in memo:
                return memo[key]
            r = f(*a, **k)
            if maxsize is None or maxsize > 0:
                memo[key] = r
                keep.append((a, k))
            return r
        _functools.update_wrapper(wrapper, f)
        wrapper.cache_clear = lambda: memo.clear()
        wrapper.cache_info = lambda: (_ for _ in ()).throw(Unsupported("cache_info"))
        wrapper.__wrapped__ = f
        wrapper._slmv_lru = (maxsize, keep, f)
        return wrapper
    if callable(maxsize) and not isinstance(maxsize, PyNum):
        f, maxsize = maxsize, 128
        return deco(f)
    return deco


class cached_property:
    def __init__(self, f):
        self.f = f

    def __set_name__(self, owner, name):
        self.name = name

    def __get__(self, obj, cls=None):
        if obj is None:
            return self
        d = object.__getattribute__(obj, "__dict__")
        if self.name not in d:
            d[self.name] = self.f(obj)
        return d[self.name]


def make_functools():
    return Namespace("functools", dict(lru_cache=lru_cache, cache=lambda f: lru_cache(None)(f), wraps=_functools.wraps,
                                       partial=_functools.partial, reduce=_functools.reduce, cached_property=cached_property,
                                       update_wrapper=_functools.update_wrapper, total_ordering=_functools.total_ordering,
                                       singledispatch=_functools.singledispatch))


BUILTINS = dict(int=Int, float=Float, bool=Bool, complex=Complex, list=List, tuple=Tuple_, type=Type_, len=s_len, range=s_range,
                enumerate=s_enumerate, zip=s_zip, map=s_map, reversed=s_reversed, sum=s_sum, min=_minmax("min"),
                max=_minmax("max"), round=s_round, print=s_print, any=s_any, all=s_all, pow=s_pow, object=SObject)

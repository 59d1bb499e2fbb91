"""Symbolic Python numbers, strings of numbers, and lists of symbolic length."""
import builtins
from fractions import Fraction
from . import terms as T
from . import arr as A
from .arr import Cx, cx
from .terms import num
from .ctx import cur, Unsupported


class PyNum:
    """A symbolic Python int / float / bool / complex."""
    __slots__ = ()
    __array_priority__ = 0

    # arithmetic -----------------------------------------------------------------------------------
    def __add__(self, o): return binop("add", self, o)
    def __radd__(self, o): return binop("add", o, self)
    def __sub__(self, o): return binop("sub", self, o)
    def __rsub__(self, o): return binop("sub", o, self)
    def __mul__(self, o):
        if isinstance(o, (list, str, tuple)):
            raise Unsupported("sequence repetition by a symbolic count")
        return binop("mul", self, o)
    __rmul__ = lambda self, o: PyNum.__mul__(self, o) if isinstance(o, (list, str, tuple)) else binop("mul", o, self)
    def __truediv__(self, o): return binop("div", self, o)
    def __rtruediv__(self, o): return binop("div", o, self)
    def __floordiv__(self, o): return binop("fdiv", self, o)
    def __rfloordiv__(self, o): return binop("fdiv", o, self)
    def __mod__(self, o): return binop("mod", self, o)
    def __rmod__(self, o):
        if isinstance(o, str):
            return o
        return binop("mod", o, self)
    def __pow__(self, o, m=None): return binop("pow", self, o)
    def __rpow__(self, o): return binop("pow", o, self)
    def __divmod__(self, o): return (self // o, self % o)
    def __rdivmod__(self, o): return (o // self, o % self)
    def __neg__(self): return binop("mul", -1, self)
    def __pos__(self): return self
    def __abs__(self):
        v = val(self)
        if isinstance(v, Cx):
            return SFloat(v.abs())
        return mk(T.fn("abs", v), pk(self) if pk(self) != "b" else "i")

    # comparison -----------------------------------------------------------------------------------
    def __eq__(self, o): return compare("eq", self, o)
    def __ne__(self, o): return compare("ne", self, o)
    def __lt__(self, o): return compare("lt", self, o)
    def __le__(self, o): return compare("le", self, o)
    def __gt__(self, o): return compare("gt", self, o)
    def __ge__(self, o): return compare("ge", self, o)
    def __hash__(self): return 0

    def __bool__(self):
        v = val(self)
        if isinstance(v, Cx):
            c = T.not_(T.and_(T.eq(v.re, num(0)), T.eq(v.im, num(0))))
        elif v.sort == "B":
            c = v
        else:
            c = T.ne(v, num(0))
        return cur().decide(c)

    def __and__(self, o): return logic("and", self, o)
    def __rand__(self, o): return logic("and", o, self)
    def __or__(self, o): return logic("or", self, o)
    def __ror__(self, o): return logic("or", o, self)
    def __xor__(self, o): return logic("xor", self, o)
    def __rxor__(self, o): return logic("xor", o, self)
    def __invert__(self):
        if pk(self) == "b":
            return mk(-T.ite(val(self), num(1), num(0)) - 1, "i")
        return mk(T.sub(num(-1), val(self)), "i")

    def __lshift__(self, o): return self * 2 ** o
    def __rshift__(self, o): return self // 2 ** o

    def __float__(self):
        v = val(self)
        if not isinstance(v, Cx) and T.is_num(v):
            return float(v.val)
        raise Unsupported("native float() of a symbolic number")

    def __int__(self):
        return self.__index__()

    def __index__(self):
        v = val(self)
        if not isinstance(v, Cx) and T.is_num(v) and v.val.denominator == 1:
            return int(v.val)
        raise Unsupported("native index of a symbolic number")

    def __complex__(self):
        raise Unsupported("native complex() of a symbolic number")

    def __round__(self, n=None):
        if n is not None:
            raise Unsupported("round with digits")
        return mk(round_term(val(self)), "i")

    def __floor__(self): return mk(T.floor(val(self)), "i")
    def __ceil__(self): return mk(T.ceil(val(self)), "i")
    def __trunc__(self): return mk(T.trunc(val(self)), "i")
    def __str__(self): return "<sym>"
    def __repr__(self): return "%s(%r)" % (type(self).__name__, val(self))
    def __format__(self, spec): return "<sym>"
    def __deepcopy__(self, memo): return self
    def __copy__(self): return self
    def conjugate(self):
        v = val(self)
        return SComplex(v.conj()) if isinstance(v, Cx) else self
    def is_integer(self):
        v = val(self)
        return mkb(T.eq(T.floor(v), v))
    @property
    def real(self):
        v = val(self)
        return SFloat(v.re) if isinstance(v, Cx) else self
    @property
    def imag(self):
        v = val(self)
        return SFloat(v.im) if isinstance(v, Cx) else (0 if pk(self) in "ib" else 0.0)


class SInt(PyNum):
    __slots__ = ("t",)
    def __init__(self, t): self.t = T.lift(t)
    @property
    def numerator(self): return self
    @property
    def denominator(self): return 1


class SFloat(PyNum):
    __slots__ = ("t",)
    def __init__(self, t): self.t = T.lift(t)


class SBool(PyNum):
    __slots__ = ("t",)
    def __init__(self, t): self.t = T.lift(t)


class SComplex(PyNum):
    __slots__ = ("t",)
    def __init__(self, t): self.t = cx(t)


def val(x):
    """python number -> Term or Cx"""
    if isinstance(x, PyNum):
        return x.t
    if isinstance(x, complex):
        return Cx(T.num(T.frac(x.real)), T.num(T.frac(x.imag)))
    if isinstance(x, (builtins.bool, builtins.int, builtins.float, Fraction)):
        return T.lift(x)
    c = getattr(x, "core", None)
    if c is not None and not c.rank:
        return c.at()
    if x is None or isinstance(x, (str, bytes, list, tuple, dict, set)):
        raise TypeError("not a number: %r" % (x,))
    raise Unsupported("not a number: %s" % type(x).__name__)


def pk(x):
    """kind of a python number: b i f c, or None"""
    if isinstance(x, SInt): return "i"
    if isinstance(x, SFloat): return "f"
    if isinstance(x, SBool): return "b"
    if isinstance(x, SComplex): return "c"
    if isinstance(x, builtins.bool): return "b"
    if isinstance(x, builtins.int): return "i"
    if isinstance(x, builtins.float): return "f"
    if isinstance(x, builtins.complex): return "c"
    return None


def mk(t, k):
    if k == "c":
        return SComplex(t)
    if k == "b":
        return mkb(t)
    if k == "i":
        if T.is_num(t) and t.val.denominator == 1:
            return int(t.val)
        return SInt(t)
    return SFloat(t)


def mkb(t):
    return t.val if t.op == "bool" else SBool(t)


def nval(x):
    """numeric value: booleans become 0/1"""
    v = val(x)
    if not isinstance(v, Cx) and v.sort == "B":
        return T.ite(v, num(1), num(0))
    return v


ORDER = "bifc"


def binop(op, a, b):
    ka, kb = pk(a), pk(b)
    if ka is None or kb is None:
        return NotImplemented
    k = max(ka, kb, key=ORDER.index)
    k = "i" if k == "b" else k
    x, y = nval(a), nval(b)
    if op in ("add", "sub", "mul"):
        if k == "c":
            x, y = cx(x), cx(y)
        r = x + y if op == "add" else x - y if op == "sub" else x * y
        return mk(r, k)
    if op == "div":
        if k == "c":
            return mk(cx(x) / cx(y), "c")
        if not cur().decide(T.ne(y, num(0))):
            raise ZeroDivisionError("division by zero")
        return mk(T.div(x, y), "f")
    if op in ("fdiv", "mod"):
        if k == "c":
            raise TypeError("complex floor division")
        if not cur().decide(T.ne(y, num(0))):
            raise ZeroDivisionError("division by zero")
        if k == "i":
            return mk(T.fdiv(x, y) if op == "fdiv" else T.mod(x, y), "i")
        q = T.floor(T.div(x, y))
        return mk(q if op == "fdiv" else T.sub(x, T.mul(y, q)), "f")
    if op == "pow":
        return power(a, b, x, y, ka, kb, k)
    raise AssertionError(op)


def power(a, b, x, y, ka, kb, k):
    if k == "c":
        return SComplex(cpow(cx(x), y if not isinstance(y, Cx) else y))
    if T.is_num(y) and y.val.denominator == 1:
        e = int(y.val)
        if k == "i" and e < 0:
            return mk(T.inv(T.power(x, -e)), "f")
        return mk(T.power(x, e), k)
    if T.is_num(x) and x.val == -1 and y.sort == "I":
        return mk(T.signpow(y), k)
    if T.is_num(y) and y.val == Fraction(1, 2):
        return mk(T.fn("sqrt", x), "f")
    if k == "i":
        return mk(T.fn("powr", x, y), "f" if not cur().entails(T.le(num(0), y)) else "f")
    return mk(T.fn("powr", x, y), k)


def cpow(z, e):
    """complex power with exponent term or Cx; integers by multiplication, otherwise uninterpreted"""
    if not isinstance(e, Cx):
        e = Cx(e)
    if T.is_num(e.re) and T.is_num(e.im) and e.im.val == 0 and e.re.val.denominator == 1 and abs(e.re.val) <= 16:
        n = int(e.re.val)
        r = Cx(1)
        for _ in range(abs(n)):
            r = r * z
        return r if n >= 0 else Cx(1) / r
    return Cx(T.fn("cpow_re", z.re, z.im, e.re, e.im), T.fn("cpow_im", z.re, z.im, e.re, e.im))


def compare(op, a, b):
    ka, kb = pk(a), pk(b)
    if ka is None or kb is None:
        if op == "eq":
            return NotImplemented
        if op == "ne":
            return NotImplemented
        return NotImplemented
    if ka == "b" and kb == "b" and op in ("eq", "ne"):
        r = T.iff(val(a), val(b))
        return mkb(r if op == "eq" else T.not_(r))
    x, y = nval(a), nval(b)
    return mkb(cmp_terms(op, x, y))


def cmp_terms(op, x, y):
    if isinstance(x, Cx) or isinstance(y, Cx):
        x, y = cx(x), cx(y)
        r = T.and_(T.eq(x.re, y.re), T.eq(x.im, y.im))
        if op == "eq":
            return r
        if op == "ne":
            return T.not_(r)
        raise TypeError("complex ordering")
    return {"eq": T.eq, "ne": T.ne, "lt": T.lt, "le": T.le, "gt": T.gt, "ge": T.ge}[op](x, y)


def logic(op, a, b):
    if pk(a) == "b" and pk(b) == "b":
        x, y = val(a), val(b)
        if op == "and":
            return mkb(T.and_(x, y))
        if op == "or":
            return mkb(T.or_(x, y))
        return mkb(T.not_(T.iff(x, y)))
    if pk(a) is None or pk(b) is None:
        return NotImplemented
    raise Unsupported("bitwise operation on symbolic integers")


def round_term(x):
    """round half to even"""
    if x.sort == "I":
        return x
    f = T.floor(x)
    d = T.sub(x, f)
    half = num(Fraction(1, 2))
    even = T.eq(T.mod(f, num(2)), num(0))
    return T.ite(T.lt(d, half), f, T.ite(T.lt(half, d), f + 1, T.ite(even, f, f + 1)))


# ---- lists of symbolic length ---------------------------------------------------------------------------------------
class SList:
    """A Python list whose length is a term: element k is fn(k)."""

    def __init__(self, n, fn, mutable=True):
        self.n, self.fn, self.mutable = T.lift(n), fn, mutable

    def get(self, k):
        return self.fn(T.lift(k))

    def slen(self):
        return mk(self.n, "i")

    def norm(self, k):
        k = val(k)
        ctx = cur()
        if not ctx.decide(T.and_(T.le(T.scale(self.n, -1), k), T.lt(k, self.n))):
            raise IndexError("list index out of range")
        if ctx.decide(T.lt(k, num(0))):
            k = T.add(k, self.n)
        return k

    def __getitem__(self, k):
        if isinstance(k, slice):
            from .nd import slice_bounds
            cv = lambda v: None if v is None else val(v)
            a, cnt, st = slice_bounds(slice(cv(k.start), cv(k.stop), cv(k.step)), self.n)
            f = self.fn
            return SList(cnt, lambda i: f(T.add(a, T.mul(st, i))))
        return self.fn(self.norm(k))

    def __setitem__(self, k, v):
        k = self.norm(k)
        journal(self)
        old = self.fn
        from .loops import list_ite
        self.fn = lambda i: list_ite(T.eq(i, k), v, lambda: old(i))

    def append(self, v):
        journal(self)
        old, n = self.fn, self.n
        from .loops import list_ite
        self.fn = lambda i: list_ite(T.eq(i, n), v, lambda: old(i))
        self.n = T.add(n, num(1))

    def reverse(self):
        journal(self)
        old, n = self.fn, self.n
        self.fn = lambda i: old(T.sub(T.sub(n, num(1)), i))

    def copy(self):
        return SList(self.n, self.fn)

    def __add__(self, o):
        if not isinstance(o, (list, SList)):
            return NotImplemented
        o = as_slist(o)
        from .loops import list_ite
        a, b, n = self.fn, o.fn, self.n
        return SList(T.add(self.n, o.n), lambda i: list_ite_lazy(T.lt(i, n), lambda: a(i), lambda: b(T.sub(i, n))))

    def __radd__(self, o):
        return as_slist(o) + self

    def extend(self, o):
        r = self + as_slist(o)
        journal(self)
        self.n, self.fn = r.n, r.fn

    def __iter__(self):
        if T.is_num(self.n):
            return iter([self.fn(num(k)) for k in range(int(self.n.val))])
        raise Unsupported("iteration over a list of symbolic length outside a loop statement")

    def __len__(self):
        if T.is_num(self.n):
            return int(self.n.val)
        raise Unsupported("native len() of a list of symbolic length")

    def __bool__(self):
        return cur().decide(T.lt(num(0), self.n))


def list_ite_lazy(c, a, b):
    if c.op == "bool":
        return a() if c.val else b()
    from .loops import list_ite
    return list_ite(c, a(), b)


def as_slist(x):
    if isinstance(x, SList):
        return x
    items = list(x)

    def f(i):
        if T.is_num(i):
            return items[int(i.val)]
        if not items:
            raise IndexError
        from .loops import list_ite
        v = items[-1]
        for k in range(len(items) - 2, -1, -1):
            v2 = v
            v = list_ite(T.eq(i, num(k)), items[k], lambda v2=v2: v2)
        return v
    return SList(num(len(items)), f)


class SRange:
    def __init__(self, start, stop, step=1):
        self.start, self.step = val(start), int(step)
        stop = val(stop)
        d = T.sub(stop, self.start)
        if self.step > 0:
            n = T.fdiv(T.add(d, num(self.step - 1)), num(self.step)) if self.step != 1 else d
        else:
            n = T.fdiv(T.add(T.scale(d, -1), num(-self.step - 1)), num(-self.step)) if self.step != -1 else T.scale(d, -1)
        self.count = n        # may be negative: clamp when used
        self.clamped = None

    def n(self):
        if self.clamped is None:
            self.clamped = self.count if cur().decide(T.le(num(0), self.count)) else num(0)
        return self.clamped

    def get(self, k):
        return mk(T.add(self.start, T.scale(k, self.step)), "i")

    def __len__(self):
        n = self.n()
        if T.is_num(n):
            return int(n.val)
        raise Unsupported("native len of symbolic range")

    def __iter__(self):
        n = self.n()
        if T.is_num(n):
            return iter([self.get(num(k)) for k in range(int(n.val))])
        raise Unsupported("iteration over a symbolic range outside a loop statement")

    def __getitem__(self, k):
        return self.get(val(k))

    def __reversed__(self):
        n = self.n()
        r = SRange.__new__(SRange)
        r.start, r.step, r.count, r.clamped = T.add(self.start, T.scale(T.sub(n, num(1)), self.step)), -self.step, n, n
        return r


class LazySeq:
    """enumerate / zip / map / reversed over a symbolic sequence: element k = fn(k)."""
    def __init__(self, n, fn):
        self._n, self.fn = n, fn

    def n(self):
        return self._n

    def get(self, k):
        return self.fn(k)

    def __iter__(self):
        if T.is_num(self._n):
            return iter([self.fn(num(k)) for k in range(int(self._n.val))])
        raise Unsupported("iteration over a symbolic sequence outside a loop statement")


def symseq(x):
    """-> (n Term, get) if x is a sequence of symbolic length, else None"""
    if isinstance(x, SList):
        return (x.n, x.fn) if not T.is_num(x.n) else None
    if isinstance(x, (SRange, LazySeq)):
        n = x.n()
        return (n, x.get) if not T.is_num(n) else None
    if hasattr(x, "__slmv_seq__"):
        return x.__slmv_seq__()
    return None


def journal(obj):
    c = cur()
    if c is not None and c.journal is not None:
        c.journal.mutated(obj)

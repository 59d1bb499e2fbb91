"""Hash-consed term language of the verifier: reals, integers and booleans.

Machine floats of the program are mathematical reals here and machine integers
mathematical integers (stated as an assumption in every evidence file).
"""
from fractions import Fraction
import itertools
import math
import numpy as np

_table = {}
_ids = itertools.count()


class Term:
    __slots__ = ("op", "args", "val", "sort", "id", "_free")

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self.id

    def __eq__(self, other):          # terms are interned: identity is equality
        return self is other

    # operator sugar for specifications ------------------------------------------------
    def __add__(self, o): return add(self, lift(o))
    def __radd__(self, o): return add(lift(o), self)
    def __sub__(self, o): return sub(self, lift(o))
    def __rsub__(self, o): return sub(lift(o), self)
    def __mul__(self, o): return mul(self, lift(o))
    def __rmul__(self, o): return mul(lift(o), self)
    def __truediv__(self, o): return div(self, lift(o))
    def __rtruediv__(self, o): return div(lift(o), self)
    def __neg__(self): return scale(self, -1)
    def __pow__(self, k): return power(self, k)
    def __floordiv__(self, o): return fdiv(self, lift(o))
    def __mod__(self, o): return mod(self, lift(o))
    def __le__(self, o): return le(self, lift(o))
    def __lt__(self, o): return lt(self, lift(o))
    def __ge__(self, o): return le(lift(o), self)
    def __gt__(self, o): return lt(lift(o), self)
    def __invert__(self): return not_(self)
    def __and__(self, o): return and_(self, o)
    def __or__(self, o): return or_(self, o)

    def __bool__(self):
        if self.op == "bool":
            return self.val
        raise TypeError("truth value of an undetermined term in a specification: %r" % self)


def reset():
    _table.clear()


def _mk(op, args=(), val=None, sort="R"):
    key = (op, tuple(a.id for a in args), val, sort)
    t = _table.get(key)
    if t is None:
        t = object.__new__(Term)
        t.op, t.args, t.val, t.sort = op, tuple(args), val, sort
        t.id = next(_ids)
        t._free = None
        _table[key] = t
    return t


def lift(x):
    if isinstance(x, Term):
        return x
    if isinstance(x, bool):
        return boolean(x)
    if isinstance(x, (int, np.integer)):
        return num(int(x))
    if isinstance(x, Fraction):
        return num(x)
    if isinstance(x, (float, np.floating)):
        return num(frac(x))
    raise TypeError("cannot lift %r" % (x,))


def frac(x):
    """A float literal denotes the decimal it is written as."""
    x = float(x)
    if x != x or x in (math.inf, -math.inf):
        raise ValueError("non-finite literal")
    return Fraction(repr(x))


def num(v):
    v = Fraction(v)
    return _mk("num", (), v, "I" if v.denominator == 1 else "R")


def boolean(b):
    return _mk("bool", (), bool(b), "B")


def var(name, sort="R"):
    return _mk("var", (), name, sort)


def TRUE(): return boolean(True)
def FALSE(): return boolean(False)
def is_num(t): return t.op == "num"


# ---- linear layer ------------------------------------------------------------------------
def _lin_parts(t):
    if t.op == "num":
        return t.val, {}
    if t.op == "lin":
        return t.val[0], dict(zip(t.args, t.val[1]))
    return Fraction(0), {t: Fraction(1)}


def _lin(const, parts):
    parts = {k: v for k, v in parts.items() if v != 0}
    if not parts:
        return num(const)
    if const == 0 and len(parts) == 1:
        (k, v), = parts.items()
        if v == 1:
            return k
    args = sorted(parts, key=lambda t: t.id)
    coeffs = tuple(parts[a] for a in args)
    sort = "I" if const.denominator == 1 and all(c.denominator == 1 for c in coeffs) and all(
        a.sort == "I" for a in args) else "R"
    return _mk("lin", tuple(args), (const, coeffs), sort)


def add(*ts):
    const, parts = Fraction(0), {}
    for t in ts:
        c, p = _lin_parts(lift(t))
        const += c
        for k, v in p.items():
            parts[k] = parts.get(k, 0) + v
    return _lin(const, parts)


def scale(t, c):
    c = Fraction(c)
    k, p = _lin_parts(lift(t))
    return _lin(k * c, {a: v * c for a, v in p.items()})


def sub(a, b):
    return add(a, scale(b, -1))


def _mul_parts(t):
    """t = coeff * prod base^exp"""
    if t.op == "num":
        return t.val, {}
    if t.op == "lin" and t.val[0] == 0 and len(t.args) == 1:
        c, p = _mul_parts(t.args[0])
        return c * t.val[1][0], p
    if t.op == "mul":
        return Fraction(1), dict(zip(t.args, t.val))
    if t.op == "lin":
        # content: make the first coefficient 1 so that 2x+2y and x+y share a base
        c0 = t.val[1][0]
        if c0 != 1:
            return c0, {scale(t, Fraction(1) / c0): 1}
    return Fraction(1), {t: 1}


def mul(*ts):
    coeff, parts = Fraction(1), {}
    ts = [lift(t) for t in ts]
    for t in ts:
        c, p = _mul_parts(t)
        coeff *= c
        for k, v in p.items():
            parts[k] = parts.get(k, 0) + v
    if coeff == 0:
        return num(0)
    roots = [(k, v) for k, v in parts.items() if v > 1 and k.op == "fn" and k.val == "sqrt" and _sumsq(k.args[0])]
    if roots:           # the square of the root of something that is never negative
        return mul(num(coeff), *[k.args[0] for k, v in roots for _ in range(v // 2)],
                   *[k for k, v in roots if v % 2],
                   *[_mk("mul", (k,), (v,), "I" if k.sort == "I" else "R") if v != 1 else k
                     for k, v in parts.items() if all(k is not r for r, _ in roots)])
    if not parts:
        return num(coeff)
    if len(parts) == 1:
        (k, v), = parts.items()
        if v == 1:
            return scale(k, coeff)
    args = sorted(parts, key=lambda t: t.id)
    exps = tuple(parts[a] for a in args)
    sort = "I" if all(a.sort == "I" for a in args) else "R"
    m = _mk("mul", tuple(args), exps, sort)
    return m if coeff == 1 else _lin(Fraction(0), {m: coeff})


def inv(t):
    if t.op == "num" and t.val != 0:
        return num(1 / t.val)
    c, p = _mul_parts(t)
    if c != 1 and p and c != 0:
        return scale(inv(scale(t, 1 / c)), 1 / c)
    return _mk("inv", (t,), None, "R")


def div(a, b):
    return mul(a, inv(lift(b)))


def power(t, k):
    t = lift(t)
    if isinstance(k, Term) and k.op == "num":
        k = k.val
    if isinstance(k, (int, Fraction)) and Fraction(k).denominator == 1:
        k = int(k)
        if k == 0:
            return num(1)
        if k < 0:
            return inv(power(t, -k))
        return mul(*([t] * k))
    k = lift(k)
    return fn("powr", t, k)


# ---- integers ---------------------------------------------------------------------------
def fdiv(a, b):
    a, b = lift(a), lift(b)
    if b.op == "num" and b.val != 0:
        n = b.val
        if a.op == "num":
            return num(a.val // n)
        c, p = _lin_parts(a)
        q, r = {}, {}
        for k, v in p.items():
            if k.sort == "I" and (v / n).denominator == 1:
                q[k] = v / n
            else:
                r[k] = v
        qc = Fraction(c // n) if not r or n > 0 else Fraction(0)
        rest = _lin(c - qc * n, r)
        head = _lin(qc, q)
        if not r:
            return add(head, num(rest.val // n))
        if n == 1 and rest.sort == "I":
            return a
        return add(head, _mk("fdiv", (rest, b), None, "I"))
    # symbolic divisor: pull out exact multiples of b
    c, p = _lin_parts(a)
    head, rest = [], {}
    for k, v in p.items():
        if v.denominator == 1:
            if k is b:
                head.append(num(v))
                continue
            if k.op == "mul" and b in k.args and all(x.sort == "I" for x in k.args):
                e = dict(zip(k.args, k.val))
                e[b] -= 1
                head.append(scale(mul(*[power(x, n) for x, n in e.items() if n]), v))
                continue
        rest[k] = v
    r = _lin(c, rest)
    if r.op == "num" and r.val == 0:
        return add(*head) if head else num(0)
    return add(*head, _mk("fdiv", (r, b), None, "I"))


def mod(a, b):
    return sub(a, mul(b, fdiv(a, b)))


def floor(x):
    x = lift(x)
    if x.sort == "I":
        return x
    if x.op == "num":
        return num(x.val.numerator // x.val.denominator)
    c, p = _lin_parts(x)
    q = {k: v for k, v in p.items() if k.sort == "I" and v.denominator == 1}
    r = {k: v for k, v in p.items() if k not in q}
    ic = Fraction(c.numerator // c.denominator)
    if all(k.sort == "I" for k in r):
        # rational combination of integers: exact integer division
        d = 1
        for v in list(r.values()) + [c - ic]:
            d = d * v.denominator // math.gcd(d, v.denominator)
        return add(_lin(ic, q), fdiv(_lin((c - ic) * d, {k: v * d for k, v in r.items()}), num(d)))
    rest = _lin(c - ic, r)
    iv = _interval(rest)
    if iv is not None and math.floor(iv[0]) == math.floor(iv[1]):
        return add(_lin(ic, q), num(math.floor(iv[0])))
    return add(_lin(ic, q), _mk("floor", (rest,), None, "I"))


def _interval(t, prec=10 ** 18):
    """rational enclosure of a closed term made of sums and square roots, or None"""
    if t.op == "num":
        return t.val, t.val
    if t.op == "fn" and t.val == "sqrt" and t.args[0].op == "num" and t.args[0].val >= 0:
        n = t.args[0].val * prec * prec
        r = math.isqrt(n.numerator // n.denominator)
        return Fraction(r, prec), Fraction(r + 1, prec)
    if t.op == "lin":
        c, p = _lin_parts(t)
        lo = hi = Fraction(c)
        for k, f in p.items():
            iv = _interval(k)
            if iv is None:
                return None
            a, b = sorted((iv[0] * f, iv[1] * f))
            lo, hi = lo + a, hi + b
        return lo, hi
    return None


def ceil(x):
    return scale(floor(scale(lift(x), -1)), -1)


def trunc(x):
    x = lift(x)
    if x.sort == "I":
        return x
    f, c = floor(x), ceil(x)
    if f is c:
        return f
    return ite(le(num(0), x), f, c)


# ---- functions --------------------------------------------------------------------------
_CONST_FOLD = {"cos": {0: 1}, "sin": {0: 0}, "exp": {0: 1}, "tanh": {0: 0}, "sqrt": {0: 0, 1: 1},
               "asin": {0: 0}, "factorial": {0: 1, 1: 1}}


def fn(name, *args):
    args = tuple(lift(a) for a in args)
    if len(args) == 1 and args[0].op == "num":
        v = _CONST_FOLD.get(name, {}).get(args[0].val)
        if v is not None:
            return num(v)
        if name == "factorial" and args[0].val.denominator == 1 and 0 <= args[0].val < 200:
            return num(math.factorial(int(args[0].val)))
        if name == "sqrt" and args[0].val >= 0:
            n, d = args[0].val.numerator, args[0].val.denominator
            if math.isqrt(n) ** 2 == n and math.isqrt(d) ** 2 == d:
                return num(Fraction(math.isqrt(n), math.isqrt(d)))
    if name in ("cos", "sin", "tanh") and len(args) == 1:
        # parity, so that f(x) and f(-x) share one symbol
        c, p = _lin_parts(args[0])
        if (p and min(p.items(), key=lambda kv: kv[0].id)[1] < 0) or (not p and c < 0):
            t = _mk("fn", (scale(args[0], -1),), name, "R")
            return t if name == "cos" else scale(t, -1)
    if name == "powr":
        if args[1].op == "num" and args[1].val.denominator == 1:
            return power(args[0], args[1])
    if name == "abs":
        if args[0].op == "num":
            return num(abs(args[0].val))
        return ite(le(num(0), args[0]), args[0], scale(args[0], -1))
    if name == "atan2" and args[0].op == "num" and args[0].val == 0 and args[1].op == "num":
        return num(0) if args[1].val >= 0 else PI()
    sort = "I" if name in ("signpow",) else "R"
    return _mk("fn", args, name, sort)


def PI():
    return _mk("fn", (), "pi", "R")


def signpow(k):
    """(-1)**k for integer k"""
    k = lift(k)
    c, p = _lin_parts(k)
    odd = {t: (v % 2) for t, v in p.items()}
    if all(v.denominator == 1 for v in p.values()) and c.denominator == 1 and k.sort == "I":
        rest = _lin(Fraction(0), {t: Fraction(v) for t, v in odd.items() if v})
        s = -1 if c % 2 else 1
        if rest.op == "num":
            return num(s)
        return scale(_mk("fn", (rest,), "signpow", "I"), s)
    raise ValueError("signpow of non-integer")


def elem(arr, comp, args, sort=None):
    """Element of an opaque array: args = indices followed by the actual parameters of the array."""
    if sort is None:
        sort = {"b": "B", "i": "I"}.get(comp, "R")
    return _mk("elem", tuple(lift(i) for i in args), (arr, comp), sort)


def free_vars(t):
    """Frozen set of the variable terms of t (arrays are closed; their parameters are arguments)."""
    f = t._free
    if f is None:
        if t.op == "var":
            f = frozenset((t,))
        elif not t.args:
            f = frozenset()
        else:
            f = frozenset().union(*[free_vars(a) for a in t.args])
        t._free = f
    return f


# ---- booleans ---------------------------------------------------------------------------
def ite(c, a, b):
    a, b = lift(a), lift(b)
    if c.op == "bool":
        return a if c.val else b
    if a is b:
        return a
    if c.op == "not":
        return ite(c.args[0], b, a)
    if a.sort == "B":
        return and_(or_(not_(c), a), or_(c, b))
    if a.op == "ite" and a.args[0] is c:
        a = a.args[1]
    if b.op == "ite" and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    if c.op == "eq0" and b is scale(a, -1):
        q = _parity(c.args[0])
        if q is not None:       # x if q is even else -x
            return scale(mul(signpow(q[0]), a), q[1])
    n = _positive(c)
    if n is not None:
        c, a, b = n, b, a
    sort = "I" if a.sort == "I" and b.sort == "I" else "R"
    return _mk("ite", (c, a, b), None, sort)


def _positive(c):
    """one of a condition and its negation is the form used in if-then-else terms: the negation if c is the other one"""
    if c.op in ("le0", "lt0"):
        p = _lin_parts(c.args[0])[1]
        return not_(c) if p[min(p, key=lambda x: x.id)] < 0 else None
    if c.op == "or":
        return and_(*[not_(a) for a in c.args])
    return None


def _parity(t):
    """(q, s) when t = 0 says that the integer q is even (s = 1) or odd (s = -1)"""
    for u in (t, scale(t, -1)):
        if u.op != "lin" or u.val[0] not in (0, -1):
            continue
        for a, v in zip(u.args, u.val[1]):
            if v == -2 and a.op == "fdiv" and is_num(a.args[1]) and a.args[1].val == 2 and a.args[0].sort == "I" and \
                    sub(u, mod(a.args[0], num(2))) is num(u.val[0]):
                return a.args[0], (1 if u.val[0] == 0 else -1)
    return None


def _square(a):
    """a term that is never negative and zero exactly when its parts are: (True, parts)"""
    if a.op == "mul" and all(e > 0 and e % 2 == 0 for e in a.val):
        return True
    if a.op == "fn" and a.val == "abs":
        return True
    if a.op == "fn" and a.val == "sqrt":
        return _sumsq(a.args[0])
    return False


def _sumsq(t):
    c, p = _lin_parts(t)
    return c >= 0 and bool(p) and all(v > 0 and _square(a) for a, v in p.items())


def _zero_parts(t):
    """t = 0 as a conjunction / disjunction of simpler equations, or None"""
    if t.op == "fn" and t.val == "abs":
        return _cmp("eq0", t.args[0])
    if t.op == "fn" and t.val == "sqrt" and _sumsq(t.args[0]):
        return _cmp("eq0", t.args[0])
    if t.op == "mul":
        if all(e > 0 for e in t.val):
            return or_(*[_cmp("eq0", a) for a in t.args])
        return None
    if t.op != "lin":
        return None
    c, p = _lin_parts(t)
    if len(p) == 1 and c == 0:
        return _zero_parts(next(iter(p)))
    if len(p) > 1 and (all(v > 0 for v in p.values()) and c >= 0 or all(v < 0 for v in p.values()) and c <= 0) and all(map(_square, p)):
        if c:
            return FALSE()
        return and_(*[_cmp("eq0", a) for a in p])
    return None


def _cmp(op, t):
    if t.op == "num":
        return boolean({"eq0": t.val == 0, "le0": t.val <= 0, "lt0": t.val < 0}[op])
    if op == "eq0":
        z = _zero_parts(t)
        if z is not None:
            return z
    c, p = _lin_parts(t)
    k = min(p, key=lambda x: x.id)
    v = p[k]
    s = abs(v) if op != "eq0" else v
    if all(a.sort == "I" for a in p):
        # integer content
        d = 1
        for x in list(p.values()):
            d = d * x.denominator // math.gcd(d, x.denominator)
        g = 0
        for x in p.values():
            g = math.gcd(g, int(x * d))
        f = Fraction(d, g)
        if op == "eq0" and v < 0:
            f = -f
        c2 = c * f
        t2 = _lin(Fraction(0), {a: x * f for a, x in p.items()})
        if op == "eq0":
            if c2.denominator != 1:
                return FALSE()
            return _mk("eq0", (add(t2, num(c2)),), None, "B")
        # t2 + c2 <= 0  <=> t2 <= floor(-c2);   t2 + c2 < 0 <=> t2 <= ceil(-c2)-1
        bound = (-c2).numerator // (-c2).denominator if op == "le0" else -((c2).numerator // (c2).denominator) - 1
        return _mk("le0", (sub(t2, num(bound)),), None, "B")
    return _mk(op, (scale(t, 1 / s),), None, "B")


def eq(a, b):
    a, b = lift(a), lift(b)
    if a.sort == "B" or b.sort == "B":
        return iff(a, b)
    return _cmp("eq0", sub(a, b))


def le(a, b): return _cmp("le0", sub(lift(a), lift(b)))
def lt(a, b): return _cmp("lt0", sub(lift(a), lift(b)))
def ge(a, b): return le(b, a)
def gt(a, b): return lt(b, a)
def ne(a, b): return not_(eq(a, b))


def not_(a):
    if a.op == "bool":
        return boolean(not a.val)
    if a.op == "not":
        return a.args[0]
    if a.op == "le0":
        return lt(num(0), a.args[0])
    if a.op == "lt0":
        return le(num(0), a.args[0])
    return _mk("not", (a,), None, "B")


def _junction(op, ts, unit):
    out = []
    for t in ts:
        t = lift(t)
        if t.op == "bool":
            if t.val != unit:
                return boolean(not unit)
            continue
        if t.op == op:
            out.extend(t.args)
        else:
            out.append(t)
    out = sorted(set(out), key=lambda t: t.id)
    s = set(out)
    for t in out:
        if not_(t) in s:
            return boolean(not unit)
    if not out:
        return boolean(unit)
    if len(out) == 1:
        return out[0]
    return _mk(op, tuple(out), None, "B")


def and_(*ts): return _junction("and", ts, True)
def or_(*ts): return _junction("or", ts, False)
def implies(a, b): return or_(not_(a), b)


def iff(a, b):
    if a is b:
        return TRUE()
    if a.op == "bool":
        return b if a.val else not_(b)
    if b.op == "bool":
        return a if b.val else not_(a)
    if not_(a) is b:
        return FALSE()
    if a.id > b.id:
        a, b = b, a
    return _mk("iff", (a, b), None, "B")


# ---- traversal --------------------------------------------------------------------------
def rebuild(t, args):
    op = t.op
    if op == "lin":
        c = num(t.val[0])
        return add(c, *[scale(a, k) for a, k in zip(args, t.val[1])])
    if op == "mul":
        return mul(*[power(a, e) for a, e in zip(args, t.val)])
    if op == "inv":
        return inv(args[0])
    if op == "fn":
        return signpow(args[0]) if t.val == "signpow" else fn(t.val, *args)
    if op == "elem":
        return elem(t.val[0], t.val[1], args, t.sort)
    if op == "ite":
        return ite(*args)
    if op in ("eq0", "le0", "lt0"):
        return _cmp(op, args[0])
    if op == "not":
        return not_(args[0])
    if op == "and":
        return and_(*args)
    if op == "or":
        return or_(*args)
    if op == "iff":
        return iff(*args)
    if op == "fdiv":
        return fdiv(*args)
    if op == "floor":
        return floor(args[0])
    raise AssertionError(op)


def subst(t, m, memo=None):
    if not m:
        return t
    memo = {} if memo is None else memo

    def go(t):
        r = m.get(t)
        if r is not None:
            return r
        if not t.args:
            return t
        r = memo.get(t)
        if r is None:
            new = [go(a) for a in t.args]
            r = t if all(x is y for x, y in zip(new, t.args)) else rebuild(t, new)
            memo[t] = r
        return r
    return go(t)


def subterms(*ts):
    seen, stack = set(), list(ts)
    while stack:
        t = stack.pop()
        if t in seen:
            continue
        seen.add(t)
        yield t
        stack.extend(t.args)


def show(t, depth=12):
    if depth == 0:
        return "..."
    d = depth - 1
    op = t.op
    if op == "num":
        return str(t.val)
    if op == "bool":
        return str(t.val)
    if op == "var":
        return str(t.val)
    if op == "lin":
        parts = [] if t.val[0] == 0 else [str(t.val[0])]
        for a, c in zip(t.args, t.val[1]):
            parts.append(show(a, d) if c == 1 else "-" + show(a, d) if c == -1 else "%s*%s" % (c, show(a, d)))
        return "(" + " + ".join(parts) + ")"
    if op == "mul":
        return "*".join(show(a, d) + ("^%d" % e if e != 1 else "") for a, e in zip(t.args, t.val))
    if op == "inv":
        return "1/" + show(t.args[0], d)
    if op == "fn":
        return "%s(%s)" % (t.val, ", ".join(show(a, d) for a in t.args)) if t.args else t.val
    if op == "elem":
        return "%s%s[%s]" % (t.val[0].name, "" if t.val[1] in "vbi" else "." + t.val[1],
                             ", ".join(show(a, d) for a in t.args[:t.val[0].rank]))
    if op == "ite":
        return "if(%s, %s, %s)" % tuple(show(a, d) for a in t.args)
    if op in ("eq0", "le0", "lt0"):
        return "%s %s 0" % (show(t.args[0], d), {"eq0": "=", "le0": "<=", "lt0": "<"}[op])
    if op == "not":
        return "!(%s)" % show(t.args[0], d)
    if op in ("and", "or"):
        return "(" + (" & " if op == "and" else " | ").join(show(a, d) for a in t.args) + ")"
    return "%s(%s)" % (op, ", ".join(show(a, d) for a in t.args))


# ---- numeric evaluation (true interpretations, NumPy vectorised) -------------------------
class Env:
    """Numeric interpretation: variables -> numbers or broadcastable arrays; opaque arrays -> ndarray."""

    def __init__(self, rng, vars=None):
        self.rng, self.vars, self.arrays, self.memo, self.ufs = rng, dict(vars or {}), {}, {}, {}
        self.root = self
        self.near = None

    def child(self, vars):
        e = Env(self.rng, {**self.root.vars, **vars})
        e.arrays, e.ufs, e.root = self.arrays, self.ufs, self.root
        return e

    def arr(self, a, params=()):
        key = (a, params)
        r = self.arrays.get(key)
        if r is None:
            r = a.numeric(self.child({v.val: p for v, p in zip(a.params, params)}))
            self.arrays[key] = r
        return r

    def arr_elem(self, a, idx, params):
        """idx, params: evaluated, possibly array valued."""
        if all(np.ndim(p) == 0 for p in params):
            ps = tuple(p.item() if isinstance(p, np.generic) or isinstance(p, np.ndarray) else p for p in params)
            return self._take(self.arr(a, ps), idx)
        full = np.broadcast_arrays(*idx, *params)
        shape = full[0].shape
        flat = [f.ravel() for f in full]
        n = len(idx)
        rows = {}
        for k in range(flat[0].size):
            rows.setdefault(tuple(f[k].item() for f in flat[n:]), []).append(k)
        out = None
        for ps, ks in rows.items():
            v = self._take(self.arr(a, ps), [f[ks] for f in flat[:n]])
            v = np.broadcast_to(v, (len(ks),))
            if out is None:
                out = np.zeros(flat[0].size, dtype=complex if v.dtype.kind == "c" else v.dtype)
            out[ks] = v
        return out.reshape(shape)

    def _take(self, data, idx):
        if not idx:
            return data[()]
        idx = np.broadcast_arrays(*[np.asarray(np.rint(np.asarray(i, dtype=float)), dtype=np.int64) for i in idx])
        bad = np.zeros(idx[0].shape, dtype=bool)
        cl = []
        for k, n in zip(idx, data.shape):
            bad |= (k < 0) | (k >= n)
            cl.append(np.clip(k, 0, max(n - 1, 0)))
        if min(data.shape) == 0:
            return np.full(idx[0].shape, np.nan) if data.dtype.kind in "fc" else np.zeros(idx[0].shape, data.dtype)
        v = data[tuple(cl)]
        if np.any(bad) and data.dtype.kind in "fc":
            v = np.where(bad, np.nan, v)
        return v

    def ev(self, t):
        m = self.memo
        if t in m:
            return m[t]
        with np.errstate(all="ignore"):
            r = self._ev(t)
        m[t] = r
        return r

    def _ev(self, t):
        op, ev = t.op, self.ev
        if op == "num":
            return int(t.val) if t.sort == "I" else float(t.val)
        if op == "bool":
            return t.val
        if op == "var":
            return self.vars[t.val]
        if op == "lin":
            r = float(t.val[0]) if t.sort == "R" else int(t.val[0])
            for a, c in zip(t.args, t.val[1]):
                r = r + ev(a) * (int(c) if c.denominator == 1 else float(c))
            return r
        if op == "mul":
            r = 1
            for a, e in zip(t.args, t.val):
                r = r * ev(a) ** e
            return r
        if op == "inv":
            x = np.asarray(ev(t.args[0]), dtype=float)
            return np.where(x == 0, np.nan, 1.0 / np.where(x == 0, 1.0, x))
        if op == "fn":
            return _NUMFN[t.val](*[ev(a) for a in t.args]) if t.val in _NUMFN else self.uf(t.val, [ev(a) for a in t.args])
        if op == "elem":
            arr, comp = t.val
            vals = [ev(a) for a in t.args]
            v = self.arr_elem(arr, vals[:arr.rank], vals[arr.rank:])
            if comp == "re":
                return np.real(v)
            if comp == "im":
                return np.imag(v) if np.iscomplexobj(v) else np.zeros(np.shape(v))
            return np.asarray(v, bool) if comp == "b" else v
        if op == "ite":
            c = np.asarray(ev(t.args[0]))
            if c.shape == ():
                return ev(t.args[1]) if c else ev(t.args[2])
            return np.where(c, ev(t.args[1]), ev(t.args[2]))
        if op in ("eq0", "le0", "lt0"):
            x = ev(t.args[0])
            if self.root.near is not None and not self.root.near[0] and t.args[0].sort != "I":
                ax = np.abs(np.asarray(x, dtype=float))
                if np.any((ax > 0) & (ax < 1e-9)):
                    self.root.near[0] = True       # a comparison decided by rounding
            return x == 0 if op == "eq0" else x <= 0 if op == "le0" else x < 0
        if op == "not":
            return np.logical_not(ev(t.args[0]))
        if op == "and":
            r = True
            for a in t.args:
                r = np.logical_and(r, ev(a))
                if np.ndim(r) == 0 and not r:
                    return False
            return r
        if op == "or":
            r = False
            for a in t.args:
                r = np.logical_or(r, ev(a))
                if np.ndim(r) == 0 and r:
                    return True
            return r
        if op == "iff":
            return np.equal(ev(t.args[0]), ev(t.args[1]))
        if op == "fdiv":
            a, b = np.asarray(ev(t.args[0])), np.asarray(ev(t.args[1]))
            b2 = np.where(b == 0, 1, b)
            if a.dtype.kind in "iu" and b2.dtype.kind in "iu":
                return np.floor_divide(a, b2)
            return np.rint(np.floor(a / b2)).astype(np.int64)
        if op == "floor":
            x = np.asarray(ev(t.args[0]), dtype=float)
            near = np.rint(x)          # exact-arithmetic floor: absorb rounding at integers
            return np.where(np.abs(x - near) < 1e-9, near, np.floor(x)).astype(np.int64)
        raise AssertionError(op)

    def uf(self, name, args):
        """A fixed smooth pseudo-random interpretation for an uninterpreted function."""
        w = self.ufs.get((name, len(args)))
        if w is None:
            w = self.rng.uniform(0.3, 1.7, size=2 * len(args) + 2)
            self.ufs[(name, len(args))] = w
        acc = w[-1]
        for k, a in enumerate(args):
            acc = acc + np.sin(np.asarray(a, dtype=float) * w[2 * k] * (1 + k) + w[2 * k + 1])
        return acc


def _safe(f, lo, hi):
    def g(x):
        x = np.asarray(x, dtype=float)
        x = np.where((x > hi) & (x < hi + 1e-9), hi, np.where((x < lo) & (x > lo - 1e-9), lo, x))
        return f(x)
    return g


def _factorial(x):
    from scipy.special import gamma
    x = np.asarray(x, dtype=float)
    return np.where(x < -0.5, 0.0, gamma(np.where(x < -0.5, 0, x) + 1))


def _coef(name, n, k, *o):
    from .shim_np import exact_coef
    n, k, *o = np.broadcast_arrays(n, k, *o)
    out = np.full(n.shape, np.nan)
    for ix in np.ndindex(n.shape):
        nn, kk = int(round(float(n[ix]))), int(round(float(k[ix])))
        if 0 <= kk <= nn:
            out[ix] = float(exact_coef(name, [nn] + [int(round(float(x[ix]))) for x in o])[kk])
    return out[()]


_NUMFN = {
    "pi": lambda: math.pi, "cos": np.cos, "sin": np.sin, "exp": np.exp, "tanh": np.tanh, "log": np.log,
    "sqrt": _safe(np.sqrt, 0.0, math.inf), "asin": _safe(np.arcsin, -1.0, 1.0), "acos": _safe(np.arccos, -1.0, 1.0),
    "atan2": np.arctan2, "powr": lambda a, b: np.power(np.asarray(a, dtype=float), b),
    "factorial": _factorial, "signpow": lambda k: 1 - 2 * (np.asarray(k) % 2),
    "coef_hermite": lambda n, k: _coef("hermite", n, k), "coef_genlaguerre": lambda n, a, k: _coef("genlaguerre", n, k, a),
    "sinh": np.sinh, "cosh": np.cosh, "tan": np.tan, "atan": np.arctan, "log2": np.log2, "log10": np.log10,
}

"""Discharging verification conditions: ring/trigonometric normaliser, case splitting, congruence over opaque
arrays, induction over loop iterates, then z3 / cvc5; and numeric refutation."""
import itertools
import os
import subprocess
import tempfile
import time
from fractions import Fraction
import numpy as np
import z3
from . import terms as T
from . import arr as A
from .terms import num, and_, or_, not_, le, lt, eq, ite, subterms, free_vars, subst

STATS = {"ring": 0, "z3": 0, "cvc5": 0, "z3_time": 0.0, "cvc5_time": 0.0, "queries": 0}


class TooBig(Exception):
    pass


LIMIT = 4000


# ------------------------------------------------------------------------------------------------------------------
# polynomial normal form: {mono: coeff}; mono = tuple of (atom, exponent) sorted by atom id; exponents may be < 0
def always_nonneg(x):
    return x.op == "fn" and x.val in ("exp", "pi", "sqrt", "factorial")


def integral(t, depth=0):
    """whole-numbered, though of real sort: factorials and sums of whole numbers"""
    if t.sort == "I":
        return True
    if t.op == "num":
        return t.val.denominator == 1
    if depth > 6:
        return False
    if t.op == "fn":
        return t.val == "factorial" and t.args[0].sort == "I"
    if t.op == "elem":
        return t.val[0].kind == "sum" and t.val[0].rank == 0 and integral(t.val[0].body[0], depth + 1)
    if t.op == "ite":
        return integral(t.args[1], depth + 1) and integral(t.args[2], depth + 1)
    if t.op == "lin":
        return t.val[0].denominator == 1 and all(c.denominator == 1 and integral(a, depth + 1) for a, c in zip(t.args, t.val[1]))
    if t.op == "mul":
        return all(e > 0 and integral(a, depth + 1) for a, e in zip(t.args, t.val))
    return False


class Ring:
    def __init__(self, level=0, canon=None, known=None):
        self.known = known or always_nonneg
        self.level = level          # 0: plain, 1: expand trigonometric functions of sums
        self.memo = {}
        self.side = set()           # atoms assumed nonzero by a cancellation
        self.nonneg = set()         # terms assumed >= 0 (sqrt(x)^2 = x)
        self.canon = canon or (lambda t: t)

    def one(self, c=1):
        return {(): Fraction(c)} if c else {}

    def atom(self, t, e=1):
        return {((t, e),): Fraction(1)}

    def add(self, p, q, k=1):
        r = dict(p)
        for m, c in q.items():
            c = r.get(m, 0) + k * c
            if c:
                r[m] = c
            else:
                r.pop(m, None)
        if len(r) > LIMIT:
            raise TooBig()
        return r

    def mmul(self, m1, m2):
        """-> (coeff, mono) or a polynomial when a rule fires"""
        d = dict(m1)
        extra = None
        for a, e in m2:
            e0 = d.get(a, 0)
            if e0 and (e0 > 0) != (e > 0):
                self.side.add(a)
            d[a] = e0 + e
            if d[a] == 0:
                del d[a]
        exps = [a for a in d if a.op == "fn" and a.val == "exp"]
        if len(exps) > 1 or (exps and d[exps[0]] != 1):
            tot = T.add(*[T.scale(a.args[0], d[a]) for a in exps])
            for a in exps:
                del d[a]
            tot = self.norm(tot)
            if not (tot.op == "num" and tot.val == 0):
                ea = T.fn("exp", tot)
                d[ea] = d.get(ea, 0) + 1
        polys = []
        for a in list(d):
            if a.op == "fn" and a.val == "sqrt" and abs(d[a]) >= 2:
                e = d[a]
                q, r = (e // 2, e % 2) if e > 0 else (-((-e) // 2), -((-e) % 2))
                if r:
                    d[a] = r
                else:
                    del d[a]
                self.nonneg.add(a.args[0])
                polys.append((a.args[0], q))
            elif a.op == "fn" and a.val == "sin" and d[a] >= 2 and self.level >= 1:
                e = d[a]
                if e % 2:
                    d[a] = 1
                else:
                    del d[a]
                c = T.fn("cos", a.args[0])
                polys.append((T.sub(num(1), T.mul(c, c)), e // 2))
            elif a.op == "fn" and a.val == "signpow" and (d[a] >= 2 or d[a] < 0):
                if d[a] % 2:
                    d[a] = 1
                else:
                    del d[a]
        m = tuple(sorted(d.items(), key=lambda kv: kv[0].id))
        if not polys:
            return {m: Fraction(1)}
        r = {m: Fraction(1)}
        for t, e in polys:
            pt = self.poly(t) if e > 0 else self.pinv(self.poly(t))
            for _ in range(abs(e)):
                r = self.mul(r, pt)
        return r

    def mul(self, p, q):
        if len(p) * len(q) > LIMIT * 4:
            raise TooBig()
        r = {}
        for m1, c1 in p.items():
            for m2, c2 in q.items():
                if not m1:
                    x = {m2: Fraction(1)}
                elif not m2:
                    x = {m1: Fraction(1)}
                else:
                    x = self.mmul(m1, m2)
                for m, c in x.items():
                    v = r.get(m, 0) + c * c1 * c2
                    if v:
                        r[m] = v
                    else:
                        r.pop(m, None)
            if len(r) > LIMIT:
                raise TooBig()
        return r

    def pinv(self, p):
        if len(p) == 1:
            (m, c), = p.items()
            return {tuple((a, -e) for a, e in m): 1 / c}
        if not p:
            return self.atom(T.inv(num(0)))
        # content-normalise: leading coefficient 1; pull out common monomial factors
        common = None
        for m in p:
            d = {a: e for a, e in m if e > 0}
            common = d if common is None else {a: min(e, d[a]) for a, e in common.items() if a in d}
        neg = {}
        for m in p:
            for a, e in m:
                if e < 0:
                    neg[a] = min(neg.get(a, 0), e)
        shift = {a: -e for a, e in (common or {}).items()}
        for a, e in neg.items():
            shift[a] = -e
        outer = self.one()
        if shift:
            ms = tuple(sorted(shift.items(), key=lambda kv: kv[0].id))
            p = self.mul(p, {ms: Fraction(1)})
            outer = {ms: Fraction(1)}
            if len(p) == 1:
                return self.mul(outer, self.pinv(p))
        lead = p[min(p, key=lambda m: [(a.id, e) for a, e in m])]
        q = {m: c / lead for m, c in p.items()}
        base = self.term(q)
        return self.mul(outer, {((base, -1),): 1 / lead})

    def term(self, p):
        out = []
        for m, c in sorted(p.items(), key=lambda kv: [(a.id, e) for a, e in kv[0]]):
            fs = [T.power(a, e) if e > 0 else T.inv(T.power(a, -e)) for a, e in m]
            out.append(T.scale(T.mul(*fs), c) if fs else num(c))
        return T.add(*out) if out else num(0)

    def norm(self, t):
        return self.term(self.poly(t)) if t.sort != "B" else self.nbool(t)

    def poly(self, t):
        p = self.memo.get(t)
        if p is None:
            p = self._poly(t)
            self.memo[t] = p
        return p

    def _poly(self, t):
        op = t.op
        if op == "num":
            return self.one(t.val)
        if op == "var":
            return self.atom(t)
        if op == "lin":
            r = self.one(t.val[0])
            for a, c in zip(t.args, t.val[1]):
                r = self.add(r, self.poly(a), c)
            return r
        if op == "mul":
            r = self.one()
            for a, e in zip(t.args, t.val):
                pa = self.poly(a)
                for _ in range(e):
                    r = self.mul(r, pa)
            return r
        if op == "inv":
            return self.pinv(self.poly(t.args[0]))
        if op == "fn":
            return self.pfn(t)
        if op == "elem":
            return self.atom(self.canon(t))
        if op == "ite":
            c = self.nbool(t.args[0])
            a, b = self.norm(t.args[1]), self.norm(t.args[2])
            r = T.ite(c, a, b)
            if r.op == "ite" and T.is_num(r.args[1]) and T.is_num(r.args[2]) and (r.args[1].val, r.args[2].val) != (1, 0):
                a, b = r.args[1].val, r.args[2].val             # two numbers: b + (a - b) [c]
                r = T.add(num(b), T.scale(T.ite(r.args[0], num(1), num(0)), a - b))
                return self.poly_shallow(r)
            return self.atom(r) if r.op == "ite" else self.poly(r)
        if op == "floor" and integral(t.args[0]):
            return self.poly(t.args[0])
        if op in ("fdiv", "floor"):
            r = T.rebuild(t, [self.norm(a) for a in t.args])
            return self.atom(r) if r.op in ("fdiv", "floor") else self.poly_shallow(r)
        raise AssertionError(op)

    def poly_shallow(self, t):
        """poly of a term whose atoms are already normal"""
        if t.op == "num":
            return self.one(t.val)
        if t.op == "lin":
            r = self.one(t.val[0])
            for a, c in zip(t.args, t.val[1]):
                r = self.add(r, self.poly_shallow(a), c)
            return r
        if t.op == "mul":
            r = self.one()
            for a, e in zip(t.args, t.val):
                for _ in range(e):
                    r = self.mul(r, self.poly_shallow(a))
            return r
        if t.op == "inv":
            return self.pinv(self.poly_shallow(t.args[0]))
        return self.atom(t)

    def nbool(self, t):
        if t.sort != "B":
            return self.norm(t)
        r = self.memo.get(("b", t))
        if r is None:
            if t.op in ("bool", "var"):
                r = t
            elif t.op == "elem":
                r = self.canon(t)
            elif t.op in ("eq0", "le0", "lt0"):
                r = self.ncmp(t)
            else:
                r = T.rebuild(t, [self.nbool(a) for a in t.args])
            self.memo[("b", t)] = r
        return r

    def ncmp(self, t):
        n = t.args[0]
        for again in (False, True):             # as written, where squares are still visible, and normalised
            if any(a.op in ("fn", "mul") for a in (n.args if n.op == "lin" else (n,))):
                n = self.without_root(t.op, n)
            n = n if again else self.norm(n)
        return T._cmp(t.op, n)

    def nonnegative(self, t):
        """syntactically: sums, products, even powers and roots of things known to be nonnegative"""
        if T.is_num(t):
            return t.val >= 0
        if t.op == "lin":
            return t.val[0] >= 0 and all(c >= 0 and self.nonnegative(a) for a, c in zip(t.args, t.val[1]))
        if t.op == "mul":
            return all(e % 2 == 0 or self.nonnegative(a) for a, e in zip(t.args, t.val))
        if t.op == "inv":
            return self.nonnegative(t.args[0])
        return self.known(t)

    def without_root(self, op, n):
        """a g sqrt(u) + rest against 0 with g, u >= 0 and rest of the opposite sign: the squares are compared instead"""
        c, parts = T._lin_parts(n)
        roots = [t for t in parts if (t.op == "fn" and t.val == "sqrt") or
                 (t.op == "mul" and sum(1 for x, e in zip(t.args, t.val) if x.op == "fn" and x.val == "sqrt" and e == 1) == 1)]
        if len(roots) != 1:
            return n
        t, = roots
        a = parts.pop(t)
        if t.op == "fn":
            u, g = t.args[0], num(1)
        else:
            s, = [x for x, e in zip(t.args, t.val) if x.op == "fn" and x.val == "sqrt" and e == 1]
            u, g = s.args[0], T.mul(*[T.power(x, e) for x, e in zip(t.args, t.val) if x is not s])
        if not (self.nonnegative(u) and self.nonnegative(g)):
            return n
        rest = T._lin(c, parts)
        square = T.mul(num(a * a), u, g, g)
        for flip in (False, True) if op == "eq0" else (False,):
            if (a > 0) != flip and self.nonnegative(T.scale(rest, -1)):
                return self.norm(T.sub(square, T.power(rest, 2)))
            if (a < 0) != flip and self.nonnegative(rest):
                return self.norm(T.sub(T.power(rest, 2), square))
        return n

    def pfn(self, t):
        name = t.val
        if not t.args:
            return self.atom(t)
        args = [self.norm(a) for a in t.args]
        if name in ("cos", "sin"):
            return self.trig(name, args[0])
        if name == "sqrt":
            return self.psqrt(self.poly_shallow(args[0]))
        if name == "exp":
            r = T.fn("exp", args[0])
            return self.atom(r) if r.op == "fn" else self.poly_shallow(r)
        if name == "powr":
            return self.powr(args[0], args[1])
        if name == "signpow":
            r = T.signpow(args[0])
            return self.poly_shallow(r)
        r = T.fn(name, *args)
        return self.atom(r) if r.op == "fn" else self.poly_shallow(r)

    def psqrt(self, p):
        """sqrt of a polynomial: rational content and even powers of factors known to be nonnegative are pulled out"""
        if not p:
            return {}
        low = None
        for m in p:
            d = dict(m)
            low = d if low is None else {a: min(e, low.get(a, 0), d.get(a, 0)) if not (a in low and a in d) else min(low[a], d[a])
                                         for a, e in list(low.items()) + list(d.items())}
        shift = {}
        for a, e in low.items():
            k = e // 2
            if k and self.known(a):
                shift[a] = k
        outer = self.one()
        if shift:
            key = lambda kv: kv[0].id
            p = self.mul(p, {tuple(sorted(((a, -2 * k) for a, k in shift.items()), key=key)): Fraction(1)})
            outer = {tuple(sorted(shift.items(), key=key)): Fraction(1)}
        lead = abs(p[min(p, key=lambda m: [(a.id, e) for a, e in m])])
        if lead != 1:
            p = {m: c / lead for m, c in p.items()}
            outer = self.mul(outer, self.sqrtnum(lead))
        r = T.fn("sqrt", self.term(p))
        return self.mul(outer, self.atom(r) if r.op == "fn" else self.poly_shallow(r))

    def sqrtnum(self, c):
        """sqrt of a positive rational as a product of square roots of primes"""
        n, d = c.numerator * c.denominator, c.denominator
        out, rest, f = 1, [], 2
        while f * f <= n and f < 2000:
            while n % (f * f) == 0:
                n //= f * f
                out *= f
            if n % f == 0:
                n //= f
                rest.append(f)
            f += 1
        if n > 1:
            rest.append(n)
        r = self.one(Fraction(out, d))
        for f in rest:
            t = T.fn("sqrt", num(f))
            r = self.mul(r, self.atom(t) if t.op == "fn" else self.poly_shallow(t))
        return r

    def powr(self, b, e):
        p = self.poly_shallow(b)
        if e.op == "num" and e.val.denominator == 1:
            r, q = self.one(), (p if e.val > 0 else self.pinv(p))
            for _ in range(abs(int(e.val))):
                r = self.mul(r, q)
            return r
        if len(p) == 1 and e.op != "num":
            (m, c), = p.items()
            # (c * prod a_i^k_i)^e = c^e prod a_i^(k_i e) when the factors are nonnegative; sqrt(x)^e = x^(e/2)
            if c > 0 and m and (len(m) > 1 or c != 1 or m[0][1] != 1 or (m[0][0].op == "fn" and m[0][0].val in ("sqrt",))):
                out = self.one()
                if c != 1:
                    out = self.mul(out, self.atom(T.fn("powr", num(c), e)))
                for a, k in m:
                    base, ee = a, T.scale(e, k)
                    if a.op == "fn" and a.val == "sqrt":
                        base, ee = a.args[0], T.scale(ee, Fraction(1, 2))
                    if base.op == "num" or (base.op == "fn" and base.val in ("pi", "factorial")):
                        pass
                    else:
                        self.nonneg.add(base)
                    bp = self.poly_shallow(base)
                    if len(bp) == 1 and (base.op in ("mul", "lin")):
                        out = self.mul(out, self.powr(base, ee))
                        continue
                    neg = False
                    c0, parts = T._lin_parts(ee)
                    if parts and min(parts.items(), key=lambda kv: kv[0].id)[1] < 0:
                        ee, neg = T.scale(ee, -1), True
                    f = T.fn("powr", base, ee)
                    q = self.atom(f) if f.op == "fn" else self.poly_shallow(f)
                    out = self.mul(out, self.pinv(q) if neg else q)
                return out
        r = T.fn("powr", b, e)
        return self.atom(r) if r.op == "fn" else self.poly_shallow(r)

    def trig(self, name, x):
        # drop multiples of 2*pi*integer, halves give signs
        c, parts = T._lin_parts(x)
        sign = self.one()
        pi = T.PI()
        keep = {}
        quarter = 0
        for t, k in parts.items():
            rest = None
            if t is pi:
                rest = num(1)
            elif t.op == "mul" and pi in t.args and dict(zip(t.args, t.val))[pi] == 1:
                rest = T.mul(*[T.power(a, e) for a, e in zip(t.args, t.val) if a is not pi])
            if rest is not None and rest.sort == "I" and (rest.op == "num"):
                q = k * rest.val * 2
                if q.denominator == 1:
                    quarter += int(q)
                    continue
            elif rest is not None and rest.sort == "I" and k.denominator == 1:
                if k % 2:
                    sign = self.mul(sign, self.poly_shallow(T.signpow(rest)))
                continue
            keep[t] = k
        x = T._lin(c, keep)
        quarter %= 4
        if quarter:
            # cos(x + q pi/2), sin(x + q pi/2)
            tab = {"cos": [("cos", 1), ("sin", -1), ("cos", -1), ("sin", 1)],
                   "sin": [("sin", 1), ("cos", 1), ("sin", -1), ("cos", -1)]}
            name, s = tab[name][quarter]
            sign = self.mul(sign, self.one(s))
        if self.level >= 1:
            return self.mul(sign, self.trig_expand(name, x))
        r = T.fn(name, x)
        return self.mul(sign, self.poly_shallow(r))

    def trig_expand(self, name, x):
        c, parts = T._lin_parts(x)
        items = sorted(parts.items(), key=lambda kv: kv[0].id)
        pieces = [(t, k) for t, k in items]
        if c:
            pieces.append((num(c), Fraction(1)))
        C, S = self.one(), {}
        for t, k in pieces:
            n = 1
            if k.denominator == 1 and 1 < abs(k) <= 4:
                n, k = int(abs(k)), Fraction(1 if k > 0 else -1)
            cc, ss = self.trig_atom(t, k)
            for _ in range(n):
                C, S = self.add(self.mul(C, cc), self.mul(S, ss), -1), self.add(self.mul(S, cc), self.mul(C, ss))
        return C if name == "cos" else S

    def trig_atom(self, t, k):
        if t.op == "fn" and t.val == "atan2" and abs(k) == 1:
            y, x = t.args
            r2 = self.norm(x * x + y * y)
            r = T.inv(T.fn("sqrt", r2))
            nz = T.eq(r2, num(0))
            c = T.ite(nz, num(1), self.norm(x * r))
            s = T.ite(nz, num(0), self.norm(y * r))
            return self.poly(c), (self.poly(s) if k > 0 else self.add({}, self.poly(s), -1))
        if t.op == "fn" and t.val in ("asin", "acos") and abs(k) == 1:
            pass
        if t.op == "ite":
            a, b = T.scale(t.args[1], k), T.scale(t.args[2], k)
            c = self.norm(T.ite(t.args[0], T.fn("cos", a), T.fn("cos", b)))
            s = self.norm(T.ite(t.args[0], T.fn("sin", a), T.fn("sin", b)))
            return self.poly_shallow(c), self.poly_shallow(s)
        a = T.scale(t, k)
        return self.poly_shallow(T.fn("cos", a)), self.poly_shallow(T.fn("sin", a))


# ------------------------------------------------------------------------------------------------------------------
class Z3Bridge:
    def __init__(self, prover):
        self.p = prover
        self.memo = {}
        self.funs = {}
        self.axioms = []
        self.seen_ax = set()
        self.tanh = []

    def fun(self, key, arity_sorts, ret):
        f = self.funs.get(key)
        if f is None:
            f = z3.Function("f%d_%s" % (len(self.funs), str(key[0])[:20]), *arity_sorts, ret)
            self.funs[key] = f
        return f

    def sort(self, s):
        return {"R": z3.RealSort(), "I": z3.IntSort(), "B": z3.BoolSort()}[s]

    def tr(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self._tr(t)
            self.memo[t] = r
        return r

    def real(self, t):
        e = self.tr(t)
        return z3.ToReal(e) if e.is_int() else e

    def _tr(self, t):
        op = t.op
        if op == "num":
            return z3.IntVal(int(t.val)) if t.sort == "I" else z3.RealVal(str(t.val))
        if op == "bool":
            return z3.BoolVal(t.val)
        if op == "var":
            return z3.Const(t.val, self.sort(t.sort))
        if op == "lin":
            if t.sort == "I":
                return z3.Sum([z3.IntVal(int(t.val[0]))] + [z3.IntVal(int(c)) * self.tr(a) for a, c in zip(t.args, t.val[1])])
            return z3.Sum([z3.RealVal(str(t.val[0]))] + [z3.RealVal(str(c)) * self.real(a) for a, c in zip(t.args, t.val[1])])
        if op == "mul":
            r = None
            for a, e in zip(t.args, t.val):
                x = self.tr(a) if t.sort == "I" else self.real(a)
                for _ in range(e):
                    r = x if r is None else r * x
            return r
        if op == "inv":
            x = self.real(t.args[0])
            f = self.fun(("inv",), [z3.RealSort()], z3.RealSort())
            r = f(x)
            self.axioms.append(z3.Implies(x != 0, x * r == 1))
            self.axioms.append(z3.Implies(x > 0, r > 0))
            return r
        if op == "fn":
            return self.trfn(t)
        if op == "elem":
            args = [self.tr(a) for a in t.args]
            ret = self.sort(t.sort)
            arr, comp = t.val
            if not args:
                return z3.Const("e%d_%s" % (id(arr), comp), ret)
            f = self.fun(("elem", id(arr), comp, tuple(a.sort() for a in args)), [a.sort() for a in args], ret)
            return f(*args)
        if op == "ite":
            c = self.tr(t.args[0])
            if t.sort == "R":
                return z3.If(c, self.real(t.args[1]), self.real(t.args[2]))
            return z3.If(c, self.tr(t.args[1]), self.tr(t.args[2]))
        if op in ("eq0", "le0", "lt0"):
            x = self.tr(t.args[0])
            return x == 0 if op == "eq0" else x <= 0 if op == "le0" else x < 0
        if op == "not":
            return z3.Not(self.tr(t.args[0]))
        if op == "and":
            return z3.And(*[self.tr(a) for a in t.args])
        if op == "or":
            return z3.Or(*[self.tr(a) for a in t.args])
        if op == "iff":
            return self.tr(t.args[0]) == self.tr(t.args[1])
        if op == "fdiv":
            a, b = self.tr(t.args[0]), self.tr(t.args[1])
            if t.args[1].op == "num" and t.args[1].val > 0:
                return a / b
            f = self.fun(("fdiv",), [z3.IntSort(), z3.IntSort()], z3.IntSort())
            q = f(a, b)
            self.axioms.append(z3.Implies(b > 0, z3.And(b * q <= a, a < b * q + b)))
            self.axioms.append(z3.Implies(z3.And(b > 0, a >= 0), z3.And(q >= 0, q <= a)))
            self.axioms.append(z3.Implies(z3.And(b > 0, a >= 0, a < b), q == 0))
            return q
        if op == "floor":
            x = self.real(t.args[0])
            f = self.fun(("floor",), [z3.RealSort()], z3.IntSort())
            q = f(x)
            self.axioms.append(z3.And(z3.ToReal(q) <= x, x < z3.ToReal(q) + 1))
            return q
        raise AssertionError(op)

    def trfn(self, t):
        name = t.val
        if name == "pi":
            r = z3.Real("pi")
            if "pi" not in self.seen_ax:
                self.seen_ax.add("pi")
                self.axioms += [r > z3.RealVal("3.14159265"), r < z3.RealVal("3.14159266")]
            return r
        if name == "signpow":
            x = self.tr(t.args[0])
            f = self.fun(("signpow",), [z3.IntSort()], z3.IntSort())
            self.axioms.append(z3.Or(f(x) == 1, f(x) == -1))
            return f(x)
        args = [self.real(a) for a in t.args]
        f = self.fun((name, len(args)), [z3.RealSort()] * len(args), z3.RealSort())
        r = f(*args)
        ax = self.axioms
        pi = None
        if name in ("acos", "asin", "atan2"):
            pi = self.tr(T.PI())
        if name in ("cos", "sin"):
            o = self.fun(("sin" if name == "cos" else "cos", 1), [z3.RealSort()], z3.RealSort())(args[0])
            ax.append(r * r + o * o == 1)
            ax += [r <= 1, r >= -1]
        elif name == "sqrt":
            ax.append(z3.Implies(args[0] >= 0, z3.And(r >= 0, r * r == args[0])))
            ax.append(z3.Implies(args[0] > 0, r > 0))
        elif name == "exp":
            ax.append(r > 0)
            ax.append((args[0] <= 0) == (r <= 1))
        elif name == "tanh":
            ax += [r < 1, r > -1, (args[0] >= 0) == (r >= 0), (args[0] > 0) == (r > 0)]
            for x, y in self.tanh:
                ax.append((x <= args[0]) == (y <= r))
            self.tanh.append((args[0], r))
        elif name == "acos":
            ax.append(z3.Implies(z3.And(args[0] <= 1, args[0] >= -1), z3.And(r >= 0, r <= pi)))
        elif name == "asin":
            x = args[0]
            ax.append(z3.Implies(z3.And(x <= 1, x >= -1), z3.And(r >= -pi / 2, r <= pi / 2, (x >= 0) == (r >= 0), (x > 0) == (r > 0))))
        elif name == "atan2":
            ax += [r <= pi, r >= -pi]
        elif name == "powr":
            ax.append(z3.Implies(args[0] >= 0, r >= 0))
            ax.append(z3.Implies(args[0] > 0, r > 0))
        elif name == "factorial":
            ax.append(z3.Implies(args[0] >= 0, r >= 1))
        elif name == "log":
            ax.append(z3.Implies(args[0] >= 1, r >= 0))
        return r


class Result:
    __slots__ = ("status", "backend", "model", "detail", "time")

    def __init__(self, status, backend=None, model=None, detail="", time=0.0):
        self.status, self.backend, self.model, self.detail, self.time = status, backend, model, detail, time


class Ghost(T.Env):
    """Random assignment in which array elements are arbitrary functions of (array, component, arguments)."""

    def __init__(self, rng):
        super().__init__(rng)
        self.els = {}

    def ev_new(self, t):
        for v in T.free_vars(t):
            if v.val not in self.vars:
                self.vars[v.val] = (int(self.rng.integers(0, 4)) if str(v.val)[:1] in "!$ij" else int(self.rng.integers(1, 7))) if v.sort == "I" \
                    else bool(self.rng.integers(0, 2)) if v.sort == "B" else float(self.rng.uniform(0.1, 2.5))
        return self.ev(t)

    def _ev(self, t):
        if t.op == "elem":
            key = (t.val[0], t.val[1], tuple(round(float(self.ev(a)), 7) for a in t.args))
            r = self.els.get(key)
            if r is None:
                r = self.els[key] = int(self.rng.integers(0, 4)) if t.sort == "I" else bool(self.rng.integers(0, 2)) if t.sort == "B" \
                    else float(self.rng.uniform(0.05, 0.95))
            return r
        return super()._ev(t)


_PLAIN = {}


_LOAD = [0.0, 0.0, 1.0]


def load():
    """wall time per CPU time of this process lately (at most 8), so that a busy machine does not cut the solvers short"""
    w, c = time.time(), time.process_time()
    if c - _LOAD[1] > 0.5:
        if _LOAD[1]:
            _LOAD[2] = min(8.0, max(1.0, (w - _LOAD[0]) / (c - _LOAD[1])))
        _LOAD[0], _LOAD[1] = w, c
    return _LOAD[2]


def int_linear(t):
    """linear integer arithmetic over variables only"""
    return all(x.op in ("num", "bool", "lin", "ite", "eq0", "le0", "lt0", "and", "or", "not", "var") and x.sort in ("I", "B") or
               x.op == "fdiv" and x.sort == "I" and x.args[1].op == "num" for x in subterms(t))


class Prover:
    """Obligations under a fixed path condition."""

    def __init__(self, hyps, deadline=20.0, z3_ms=4000):
        self.base = [h for h in hyps if not (h.op == "bool" and h.val)]
        self.assumed = {}            # iterate arrays identified by an induction hypothesis
        self.groups_equal = {}
        self.arr_eq = {}
        self.z3_ms = z3_ms
        self.limit = deadline
        self.deadline = None
        self.used = set()
        self.reps = {}
        self.ghosts = {}
        self._fresh = itertools.count()

    # -- public ------------------------------------------------------------------------------------------------------
    def prove(self, goal):
        t0 = time.process_time()
        self.deadline = t0 + self.limit
        self.used = set()
        STATS["queries"] += 1
        try:
            ok = self.go(goal, list(self.base), 0)
        except TooBig:
            ok = False
        except RecursionError:
            ok = False
        back = "+".join(sorted(self.used)) or "ring"
        return Result("proved" if ok else "unproved", back, time=time.process_time() - t0)

    def timeup(self):
        return time.process_time() > self.deadline

    # -- goal decomposition ------------------------------------------------------------------------------------------
    # -- integer if-then-else terms that have one value on every feasible branch -------------------------------------------
    def collapse(self, g, hyps):
        """g with every maximal if-then-else index expression replaced by an equal plain one where there is one"""
        lin = [h for h in hyps if int_linear(h)]
        m, seen, stack = {}, set(), [g]
        while stack:
            t = stack.pop()
            if t in seen or t in m:
                continue
            seen.add(t)
            if t.sort == "I" and t.op in ("lin", "ite") and int_linear(t) and any(x.op == "ite" for x in subterms(t)):
                u = self.plain(t, lin)
                if u is not None:
                    m[t] = u
                    continue
            stack.extend(t.args)
        return subst(g, m) if m else g

    def plain(self, t, lin):
        key = (t, frozenset(lin))
        if key in _PLAIN:
            return _PLAIN[key]
        leaves = []
        budget = [24]

        def walk(u, hyps):
            budget[0] -= 1
            if budget[0] < 0:
                return False
            cs = self.conds(u)
            if not cs:
                leaves.append((u, hyps))
                return True
            c = cs[0]
            for val in (True, False):
                lit = c if val else not_(c)
                h2 = hyps + [lit]
                if self.infeasible(h2):
                    continue
                if not walk(self.assume_in(u, c, val), h2):
                    return False
            return True
        r = None
        if walk(t, lin) and leaves:
            cands = []
            for u, _ in leaves:
                if u not in cands:
                    cands.append(u)
            cands.sort(key=lambda u: (sum(1 for _ in subterms(u)), u.id))
            for u in cands[:3]:
                if all(w is u or self.infeasible(h + [lt(w, u)]) and self.infeasible(h + [lt(u, w)]) for w, h in leaves):
                    r = u
                    break
        if not self.timeup():
            _PLAIN[key] = r
        return r

    def go(self, g, hyps, depth):
        if depth == 0:
            g = self.collapse(g, hyps)
        if g.op == "bool":
            return g.val or self.z3(g, hyps)
        if self.timeup():
            return False
        if g in hyps:
            return True
        if g.op == "and":
            return all(self.go(a, hyps, depth) for a in g.args)
        if g.op == "or":
            # move all but one disjunct to the hypotheses
            key = [a for a in g.args if a.op in ("eq0", "iff", "and")] or list(g.args)
            for k in key[:3]:
                rest = [not_(a) for a in g.args if a is not k]
                if self.go(k, hyps + rest, depth + 1):
                    return True
            return False
        if g.op == "not" and g.args[0].op == "and":
            return self.go(or_(*[not_(a) for a in g.args[0].args]), hyps, depth)
        if g.op == "not" and g.args[0].op == "or":
            return all(self.go(not_(a), hyps, depth) for a in g.args[0].args)
        if g.op == "ite":
            return self.go(g.args[1], hyps + [g.args[0]], depth) and self.go(g.args[2], hyps + [not_(g.args[0])], depth)
        if g.op == "iff":
            return self.iff(g.args[0], g.args[1], hyps, depth)
        if g.op == "eq0":
            return self.eq0(g.args[0], hyps, depth)
        return self.atomic(g, hyps, depth)

    def iff(self, a, b, hyps, depth):
        r = self.ring(0, hyps)
        try:
            na, nb = r.nbool(a), r.nbool(b)
            if na is nb and self.sides(r, hyps):
                self.used.add("ring")
                return True
            if na.op == nb.op and na.op in ("le0", "lt0", "eq0"):
                d = r.norm(T.sub(na.args[0], nb.args[0]))
                if d.op == "num" and d.val == 0 and self.sides(r, hyps):
                    self.used.add("ring")
                    return True
                if self.eq0(T.sub(na.args[0], nb.args[0]), hyps, depth + 1, nosmt=True):
                    return True
                if na.op == "eq0" and self.eq0(T.add(na.args[0], nb.args[0]), hyps, depth + 1, nosmt=True):
                    return True
        except TooBig:
            pass
        if self.z3(T.iff(a, b), hyps, ms=1000):
            return True
        return self.go(b, hyps + [a], depth + 1) and self.go(a, hyps + [b], depth + 1)

    def conds(self, *ts):
        """ite conditions occurring outside array bodies, those in array indices only when there are no others"""
        out = []
        for t in outer_subterms(*ts):
            if t.op == "ite" and t.args[0].op != "bool":
                out.append(t.args[0])
        for t in subterms(*ts) if not out else ():
            if t.op == "ite" and t.args[0].op != "bool":
                out.append(t.args[0])
        # innermost conditions (those without ite inside) first, small first
        out = sorted(set(out), key=lambda c: (sum(1 for x in subterms(c) if x.op == "ite"), c.id))
        flat = []
        for c in out:
            for x in (c.args if c.op in ("and", "or") else (c,)):
                x = x.args[0] if x.op == "not" else x
                if x not in flat:
                    flat.append(x)
        return flat

    def assume_in(self, t, c, val):
        """simplify t under condition c = val"""
        m = {c: T.boolean(val)}
        n = not_(c)
        m[n] = T.boolean(not val)
        return subst_bool(t, m)

    def eq0(self, t, hyps, depth, nosmt=False):
        if self.timeup():
            return False
        if depth == 0:
            # first without comparing array elements with one another
            try:
                r = Ring(0, None, self.known_nonneg(hyps))
                if not r.poly(t) and self.sides(r, hyps):
                    self.used.add("ring")
                    return True
            except TooBig:
                pass
        for lvl in (0, 1):
            try:
                r = self.ring(lvl, hyps)
                p = r.poly(t)
                if not p and self.sides(r, hyps):
                    self.used.add("ring")
                    return True
                if p and self.clear_denominators(r, p, hyps):
                    self.used.add("ring")
                    return True
                tn = r.term(p) if p else t
            except TooBig:
                tn = t
                continue
            if depth >= 6 and not self.plausible(tn, hyps):
                return False
            cs = self.conds(tn)
            if cs and depth < 14:
                c = cs[0]
                ok = True
                for val in (True, False):
                    lit = c if val else not_(c)
                    h2 = hyps + [lit]
                    if self.infeasible(h2):
                        continue
                    t2 = self.assume_in(tn, c, val)
                    if val and c.op == "eq0":
                        t2 = self.use_eq(t2, c.args[0])
                    if not self.eq0(t2, h2, depth + 1, nosmt):
                        ok = False
                        break
                if ok:
                    return True
                return False if nosmt or not self.plausible(tn, hyps) else self.z3(eq(t, num(0)), hyps)
        return False if nosmt or not self.plausible(tn, hyps) else self.z3(eq(tn, num(0)), hyps) or (tn is not t and self.z3(eq(t, num(0)), hyps))

    def use_eq(self, t, z):
        """z = 0: if z is linear in a variable or atom with rational coefficient, substitute"""
        c, parts = T._lin_parts(z)
        for a in sorted(parts, key=lambda a: -a.id):
            if a.op in ("var", "elem") and all(a not in set(subterms(b)) for b in parts if b is not a):
                v = T.scale(T.sub(z, T.scale(a, parts[a])), Fraction(-1) / parts[a])
                return small_sums(subst(t, {a: v}))
        return t

    def clear_denominators(self, r, p, hyps):
        """multiply by every negative power; zero polynomial => equal (denominators nonzero under hyps)"""
        need = {}
        for m in p:
            for a, e in m:
                if e < 0:
                    need[a] = max(need.get(a, 0), -e)
        polyden = {a: e for a, e in need.items() if a.op in ("lin",)}
        if not polyden:
            return False
        r2 = Ring(r.level, r.canon, r.known)
        q = {}
        for m, c in p.items():
            f = {tuple((a, e) for a, e in m if a not in polyden): c}
            d = dict(m)
            for a, e in polyden.items():
                k = e + d.get(a, 0)
                pa = r2.poly_shallow(a)
                for _ in range(k):
                    f = r2.mul(f, pa)
            q = r2.add(q, f)
        if q:
            return False
        r.side |= set(polyden) | r2.side
        r.nonneg |= r2.nonneg
        return self.sides(r, hyps)

    def sides(self, r, hyps):
        for a in r.nonneg:
            if not self.nonneg(a, hyps):
                return False
        for a in r.side:
            if not self.nonzero(a, hyps):
                return False
        return True

    def nonneg(self, a, hyps):
        if a.op == "num":
            return a.val >= 0
        # sum of even monomials with positive coefficients
        try:
            p = Ring().poly(a)
            if all(c > 0 and all(e % 2 == 0 or self.known_pos(x) for x, e in m) for m, c in p.items()):
                return True
        except TooBig:
            pass
        if not_(lt(a, num(0))) in hyps or lt(num(0), a) in hyps:
            return True
        return self.z3(le(num(0), a), hyps)

    def known_pos(self, x):
        return x.op == "fn" and x.val in ("exp", "pi", "sqrt", "factorial")

    def nonzero(self, a, hyps):
        if a.op == "num":
            return a.val != 0
        if a.op == "fn" and a.val in ("exp", "pi", "factorial", "signpow"):
            return True
        if a.op == "fn" and a.val == "sqrt":
            if a.args[0].op == "num":
                return a.args[0].val > 0
            return self.nonneg(a.args[0], hyps) and self.nonzero(a.args[0], hyps)
        if a.op == "fn" and a.val == "powr" and a.args[0].op == "num" and a.args[0].val > 0:
            return True
        ne0 = T.ne(a, num(0))
        if ne0 in hyps or lt(num(0), a) in hyps or lt(a, num(0)) in hyps:
            return True
        return self.z3(ne0, hyps)

    def atomic(self, g, hyps, depth):
        for lvl in (0,):
            try:
                r = self.ring(lvl, hyps)
                n = r.nbool(g)
                if n.op == "bool" and n.val and self.sides(r, hyps):
                    self.used.add("ring")
                    return True
                if n in hyps and self.sides(r, hyps):
                    self.used.add("ring")
                    return True
            except TooBig:
                n = g
        if self.z3(g, hyps):
            return True
        if n is not g and self.sides(r, hyps) and self.z3(n, hyps):
            return True
        # case split
        cs = self.conds(n)
        if cs and depth < 8:
            c = cs[0]
            for val in (True, False):
                h2 = hyps + [c if val else not_(c)]
                if self.infeasible(h2):
                    continue
                if not self.go(self.assume_in(n, c, val), h2, depth + 1):
                    return False
            return True
        return False

    # -- arrays --------------------------------------------------------------------------------------------------------
    def ring(self, level, hyps):
        key = tuple(h.id for h in hyps)
        return Ring(level, lambda t: self.canon_elem(t, hyps, key, level), self.known_nonneg(hyps))

    def known_nonneg(self, hyps):
        hs = set(hyps)
        return lambda a: always_nonneg(a) or a.sort != "B" and (lt(num(0), a) in hs or le(num(0), a) in hs or le(num(1), a) in hs)

    def canon_elem(self, t, hyps, hkey, level):
        arr, comp = t.val
        r = Ring(0, lambda x: self.canon_elem(x, hyps, hkey, 0), self.known_nonneg(hyps))
        args = [r.nbool(a) for a in t.args]
        if not self.sides(r, hyps):
            args = list(t.args)
        arr2 = self.assumed.get(arr, arr)
        t = T.elem(arr2, comp, args, t.sort)
        arr = arr2
        sig = (hkey, arr.kind, comp, arr.rank) if arr.kind not in ("input", "uniform") else (hkey, arr, comp)
        reps = self.reps.setdefault(sig, [])
        if t in reps:
            return t
        if self.timeup():
            return t
        for u in reps:
            if self.elem_eq(t, u, hyps):
                return u
        reps.append(t)
        return t

    def elem_eq(self, t, u, hyps):
        a, b = t.val[0], u.val[0]
        ti, ui = t.args[:a.rank], u.args[:b.rank]
        if len(ti) != len(ui):
            return False
        for x, y in zip(ti, ui):
            if not self.same(x, y, hyps):
                return False
        return self.arr_same(a, t.args[a.rank:], b, u.args[b.rank:], hyps)

    def same(self, x, y, hyps):
        if x is y:
            return True
        if x.sort == "B" or y.sort == "B":
            if x.sort != y.sort:
                return False
            return self.iff(x, y, hyps, 6)
        return self.eq0(T.sub(x, y), hyps, 6)

    def plausible(self, d, hyps):
        """cheap numeric filter before the solvers: False if d is nonzero at some random assignment satisfying the hypotheses
        in which distinct array elements have unrelated values. (Only ever rejects; proves nothing.)"""
        if d.op == "num":
            return d.val == 0
        key = tuple(h.id for h in hyps)
        envs = self.ghosts.get(key)
        if envs is None:
            envs = self.ghosts[key] = self.make_ghosts(hyps)
        for e in envs:
            try:
                v = float(np.real(e.ev_new(d)))
            except (KeyError, OverflowError, TypeError, AssertionError, ValueError, ZeroDivisionError):
                return True
            if v == v and abs(v) > 1e-5 and abs(v) < 1e12:
                return False
        return True

    def make_ghosts(self, hyps):
        out, t0 = [], time.time()
        fv = set()
        for h in hyps:
            fv |= T.free_vars(h)
        for k in range(60):
            if len(out) >= (8 if len(hyps) > len(self.base) else 2) or time.time() - t0 > 0.4:
                break
            e = Ghost(np.random.default_rng(1000 + k))
            try:
                if all(bool(np.all(e.ev_new(h))) for h in hyps):
                    out.append(e)
            except (KeyError, OverflowError, TypeError, AssertionError, ValueError, ZeroDivisionError):
                continue
        return out

    def arr_same(self, a, pa, b, pb, hyps):
        a, b = self.assumed.get(a, a), self.assumed.get(b, b)
        if a is b and all(x is y for x, y in zip(pa, pb)):
            return True
        if a.kind != b.kind or a.rank != b.rank or a.comps != b.comps:
            return False
        if a.kind in ("input", "uniform"):
            return a is b and all(self.same(x, y, hyps) for x, y in zip(pa, pb))
        if a.kind == "iter":
            return self.iter_same(a, b, hyps)
        if len(a.idx) != len(b.idx) or len(a.body) != len(b.body) or len(a.params) != len(pa) or len(b.params) != len(pb):
            return False
        key = (a, tuple(pa), b, tuple(pb), tuple(h.id for h in hyps), tuple((x.key, y.key) for x, y in self.assumed.items()))
        if key in self.arr_eq:
            return self.arr_eq[key]
        ix = [T.var("!%d" % next(self._fresh), "I") for _ in a.idx]
        ma = {**dict(zip(a.params, pa)), **dict(zip(a.idx, ix))}
        mb = {**dict(zip(b.params, pb)), **dict(zip(b.idx, ix))}
        if a.kind in ("sum", "max", "min"):
            sa = [subst(s, ma) for s in a.meta["box"]]
            sb = [subst(s, mb) for s in b.meta["box"]]
        else:
            sa = [subst(s, ma) for s in a.shape]
            sb = [subst(s, mb) for s in b.shape]
        ok = len(sa) == len(sb) and all(self.same(x, y, hyps) for x, y in zip(sa, sb))
        if ok:
            h2 = hyps + [h for v, s in zip(ix, sa) for h in (le(num(0), v), lt(v, s))]
            for x, y in zip(a.body, b.body):
                x, y = subst(x, ma), subst(y, mb)
                if not self.same(x, y, h2):
                    ok = False
                    break
        self.arr_eq[key] = ok
        return ok

    def iter_same(self, a, b, hyps):
        ga, gb = a.meta["group"], b.meta["group"]
        if ga is gb or len(ga.arrays) != len(gb.arrays):
            return False
        key = (id(ga), id(gb), tuple(h.id for h in self.base))
        if key not in self.groups_equal:
            self.groups_equal[key] = self.match_groups(ga, gb, hyps)
        m = self.groups_equal[key]
        return m is not None and m.get(a) is b

    def match_groups(self, ga, gb, hyps):
        """Induction: find a matching of components with equal initial values and equal steps."""
        n = len(ga.arrays)
        for perm in itertools.permutations(range(n)):
            ok = True
            pairs = [(i, perm[i]) for i in range(n)]
            if any(ga.arrays[i].comps != gb.arrays[j].comps or ga.arrays[i].rank != gb.arrays[j].rank for i, j in pairs):
                continue
            base = list(self.base)
            for phase in ("init", "step"):
                saved, saved_reps = dict(self.assumed), self.reps
                self.reps = {}
                if phase == "step":
                    for i, j in pairs:
                        self.assumed[gb.arrays[j]] = ga.arrays[i]
                for i, j in pairs:
                    ia, ib = ga.idx[i], gb.idx[j]
                    ix = [T.var("!%d" % next(self._fresh), "I") for _ in ia]
                    h2 = list(base)
                    for v, s, s2 in zip(ix, ga.arrays[i].shape[1:], gb.arrays[j].shape[1:]):
                        h2 += [le(num(0), v), lt(v, s)]
                        if not self.same(s, s2, base):
                            ok = False
                    k = A.K()
                    if phase == "step":
                        h2 += [le(num(0), k)]
                    xa, xb = (ga.init[i], gb.init[j]) if phase == "init" else (ga.step[i], gb.step[j])
                    for x, y in zip(xa, xb):
                        if not ok or not self.same(subst(x, dict(zip(ia, ix))), subst(y, dict(zip(ib, ix))), h2):
                            ok = False
                            break
                    if not ok:
                        break
                self.assumed, self.reps = saved, saved_reps
                if not ok:
                    break
            if ok:
                self.used.add("induction")
                return {**{ga.arrays[i]: gb.arrays[j] for i, j in pairs}, **{gb.arrays[j]: ga.arrays[i] for i, j in pairs}}
        return None

    # -- SMT ---------------------------------------------------------------------------------------------------------------
    def facts_for(self, terms):
        """ground facts about array elements occurring in the query"""
        out, done = [], set()
        work = list(terms)
        elems = set()
        for _ in range(2):
            new = []
            for t in subterms(*work):
                if t.op == "elem" and t not in elems:
                    elems.add(t)
                    new += self.elem_facts(t)
            out += new
            work = new
        # max/min: bound at the index tuples in the query
        idxs = {}
        for t in list(elems):
            a = t.val[0]
            if a.kind in ("input", "fft2", "ifft2", "uniform") and a.rank:
                idxs.setdefault(a.rank, set()).add(t.args[:a.rank])
        for t in list(elems):
            a = t.val[0]
            if a.kind in ("max", "min"):
                box = a.meta["box"]
                m = dict(zip(a.params, t.args))
                for ix in sorted(idxs.get(len(box), ()), key=lambda x: [y.id for y in x])[:6]:
                    bx = [subst(s, m) for s in box]
                    inr = and_(*[and_(le(num(0), v), lt(v, s)) for v, s in zip(ix, bx)])
                    v = subst(a.body[0], {**m, **dict(zip(a.idx, ix))})
                    out.append(or_(not_(inr), le(v, t) if a.kind == "max" else le(t, v)))
        return out

    def elem_facts(self, t):
        a, comp = t.val
        if a.kind == "uniform":
            return [le(num(0), t), lt(t, num(1))]
        if a.kind == "input" and a.meta and a.meta.get("facts"):
            return list(a.meta["facts"](t.args[:a.rank], a.at(t.args[:a.rank], t.args[a.rank:])))
        if a.kind in ("max", "min"):
            # attained somewhere in the (nonempty) box
            m = dict(zip(a.params, t.args))
            box = [subst(s, m) for s in a.meta["box"]]
            w = [T.var("?w%d_%d" % (t.id, k), "I") for k in range(len(box))]
            v = subst(a.body[0], {**m, **dict(zip(a.idx, w))})
            ne = and_(*[lt(num(0), s) for s in box])
            return [or_(not_(ne), and_(T.eq(v, t), *[and_(le(num(0), x), lt(x, s)) for x, s in zip(w, box)]))]
        return []

    def solver_for(self, hyps, extra):
        b = Z3Bridge(self)
        fs = self.facts_for(list(hyps) + list(extra))
        s = z3.Solver()
        cons = [b.tr(h) for h in list(hyps) + list(extra) + fs]
        k = 0
        # translating axioms may add more
        for c in cons:
            s.add(c)
        for ax in b.axioms:
            s.add(ax)
        return s

    def relevant(self, hyps, goal):
        """hypotheses connected to the goal through shared symbols (plus pure variable facts)"""
        return hyps

    def z3(self, goal, hyps, ms=None):
        if self.timeup():
            return False
        ms = ms or self.z3_ms
        t0 = time.process_time()
        s = self.solver_for(hyps, [not_(goal)])
        s.set("timeout", int(load() * max(200, min(ms, 1000 * (self.deadline - t0)))))
        r = s.check()
        STATS["z3_time"] += time.process_time() - t0
        if r == z3.unsat:
            self.used.add("z3")
            return True
        if r == z3.unknown and ms >= self.z3_ms and os.environ.get("SLMV_CVC5", "1") == "1":
            return self.cvc5(s)
        return False

    def cvc5(self, s):
        t0 = time.time()
        try:
            with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
                f.write("(set-logic ALL)\n" + s.to_smt2())
                name = f.name
            out = subprocess.run(["cvc5", "--tlimit=%d" % (self.z3_ms * load()), "--nl-ext-tplanes", name], capture_output=True, text=True,
                                 timeout=self.z3_ms * load() / 1000 + 5).stdout
            os.unlink(name)
        except Exception:
            return False
        finally:
            STATS["cvc5_time"] += time.time() - t0
        if out.strip().startswith("unsat"):
            self.used.add("cvc5")
            return True
        return False

    def around(self, hyps, cond):
        """the hypotheses that speak of nothing but what `cond` speaks of, and all those connected with it in some way"""
        names = symbols(cond)
        near = [h for h in hyps if names >= symbols(h)]
        linked, more = [], True
        while more:
            more = [h for h in hyps if h not in linked and names & symbols(h)]
            linked += more
            for h in more:
                names = names | symbols(h)
        return near, linked

    def infeasible(self, hyps):
        t0 = time.time()
        s = self.solver_for(hyps, [])
        s.set("timeout", int(700 * load()))
        r = s.check()
        STATS["z3_time"] += time.time() - t0
        return r == z3.unsat


def symbols(t):
    """the variables and arrays a term speaks of, also inside the arrays' definitions"""
    r = _SYMBOLS.get(t)
    if r is None:
        found, stack = set(), [t]
        while stack:
            for x in subterms(stack.pop()):
                if x.op == "var" and x not in found:
                    found.add(x)
                elif x.op == "elem" and x.val[0] not in found:
                    a = x.val[0]
                    found.add(a)
                    stack += [b for b in (a.body or ()) if isinstance(b, T.Term)]
                    stack += [b for b in ((a.meta or {}).get("box") or ()) if isinstance(b, T.Term)]
        r = _SYMBOLS[t] = frozenset(found)
    return r


_SYMBOLS = {}


def outer_subterms(*ts):
    """subterms not inside array indices"""
    seen, stack = set(), list(ts)
    while stack:
        t = stack.pop()
        if t in seen:
            continue
        seen.add(t)
        yield t
        if t.op != "elem":
            stack.extend(t.args)


def small_sums(t, most=8):
    """write out the sums whose index box has become a box of at most `most` elements"""
    m = {}
    for e in outer_subterms(t):
        if e.op != "elem" or e.val[0].kind != "sum":
            continue
        a = e.val[0]
        ma = dict(zip(a.params, e.args[a.rank:]))
        box = [subst(s, ma) for s in a.meta["box"]]
        if not all(T.is_num(s) for s in box):
            continue
        ns = [max(int(s.val), 0) for s in box]
        if int(np.prod(ns)) <= most:
            m[e] = T.add(num(0), *[subst(a.body[0], {**ma, **dict(zip(a.idx, [num(i) for i in ix]))})
                                   for ix in itertools.product(*[range(n) for n in ns])])
    return subst(t, m)


def subst_bool(t, m):
    """replace boolean subterms (conditions) by constants, rebuilding"""
    memo = {}

    def go(t):
        r = m.get(t)
        if r is not None:
            return r
        if not t.args:
            return t
        r = memo.get(t)
        if r is None:
            new = [go(a) for a in t.args]
            r = t if all(x is y for x, y in zip(new, t.args)) else T.rebuild(t, new)
            memo[t] = r
        return r
    return go(t)

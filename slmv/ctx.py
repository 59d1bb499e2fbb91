"""Path exploration by re-execution, obligations, journal of mutations, tracing state."""
import itertools
import time
import numpy as np
from . import terms as T
from . import arr as A
from . import prove as P
from .terms import not_

CUR = [None]


def cur():
    return CUR[0]


class Unsupported(BaseException):
    """The code (or a path of it) is outside the verifier's subset: no verdict from the prover."""


class Infeasible(BaseException):
    pass


class NestedDone(BaseException):
    pass


class Obligation:
    __slots__ = ("name", "hyps", "goal", "sides", "path", "where", "result", "refuted", "uses", "nsampled", "note")

    def __init__(self, name, hyps, goal, sides, path, where):
        self.name, self.hyps, self.goal, self.sides, self.path, self.where = name, hyps, goal, sides, path, where
        self.result, self.refuted, self.nsampled, self.note = None, None, 0, ""


class Ctx:
    def __init__(self, prefix=(), config=None, maxpaths=200):
        self.prefix = list(prefix)
        self.taken = []             # [(cond, value, forced)]
        self.pending = []           # alternative prefixes found on this run
        self.pc = []
        self.obls = []
        self.config = dict(config or {})
        self.vars = {}              # name -> generator(rng)
        self.index_vars = {}        # name -> (lo, hi)
        self.counter = itertools.count()
        self.names = {}
        self.loop_stack = []        # active symbolic iterations
        self.journal = None
        self.init_scope = 0
        self.mute = False           # no obligations (an earlier use is being run)
        self.objects = []           # every object and variable the program made
        self.dead = {}              # objects and variables no longer reachable from the program
        self.traces = []            # active tf.function traces, outermost first
        self.fft_log, self.loop_objects = [], {}
        self.events = []
        self.notes = []
        self.uniform_serial = 0
        self.assumptions = []
        self.lemmas = set()
        self.functions = set()
        self.externals = set()
        self.stdout = []
        self.cache = {}

    # -- variables -------------------------------------------------------------------------------------------------
    def var(self, name, sort="R", gen=None, facts=()):
        v = T.var(name, sort)
        if gen is None:
            gen = default_gen(sort)
        self.vars[name] = gen
        return v

    def fresh(self, base, sort="R", gen=None):
        n = self.names.get(base, 0)
        self.names[base] = n + 1
        return self.var("%s'%d" % (base, n), sort, gen)

    def index(self, name, lo, hi):
        """An arbitrary integer lo <= v < hi (hypotheses of the obligation using it)."""
        v = T.var(name, "I")
        self.index_vars[name] = (T.lift(lo), T.lift(hi))
        return v

    def index_hyps(self, *ts):
        out, seen, stack = [], set(), []
        for t in ts:
            stack.extend(T.free_vars(t))
        while stack:
            v = stack.pop()
            if v in seen:
                continue
            seen.add(v)
            r = self.index_vars.get(v.val)
            if r:
                for h in (T.le(r[0], v), T.lt(v, r[1])):
                    out.append(h)
                    stack.extend(T.free_vars(h))
        return out

    # -- path condition --------------------------------------------------------------------------------------------
    def assume(self, t):
        t = T.lift(t)
        if t.op == "bool":
            if not t.val:
                raise Infeasible()
            return
        if t.op == "and":
            for a in t.args:
                self.assume(a)
            return
        if t not in self.pc:
            self.pc.append(t)

    def entails(self, t, ms=1500):
        if t.op == "bool":
            return t.val
        if t in self.pc:
            return True
        if not_(t) in self.pc:
            return False
        hyps = self.pc + self.index_hyps(t, *self.pc)
        p = P.Prover(hyps, deadline=3.0, z3_ms=ms)
        return p.prove(t).status == "proved"

    def decide(self, cond):
        """Fork on a condition."""
        if cond.op == "bool":
            return cond.val
        if cond in self.pc:
            return True
        if not_(cond) in self.pc:
            return False
        # decisions about an iteration of a symbolic loop belong to the loop, not to the path
        inner = bool(self.loop_stack) and self.loop_stack[-1].depends(cond)
        pos = len(self.taken)
        if not inner and pos < len(self.prefix):
            val = self.prefix[pos]
            self.taken.append(val)
            self._push(cond, val)
            return val
        hyps = self.pc + self.index_hyps(cond, *self.pc)
        p = P.Prover(hyps)
        p.deadline = time.process_time() + 3
        near, linked = p.around(hyps, cond)
        free = not near and cond.op == "var"
        can_t = free or not p.infeasible(near + [cond])         # most decisions follow from the hypotheses about nothing else
        can_f = free or not can_t or not p.infeasible(near + [not_(cond)])
        if can_t and can_f and len(linked) > len(near):
            can_t = not p.infeasible(linked + [cond])
            can_f = not can_t or not p.infeasible(linked + [not_(cond)])
        if can_t and can_f and T.free_vars(cond) and cond.op != "var":
            # normalise: maybe decided after ring simplification
            if self.entails(cond, 500):
                can_f = False
            elif self.entails(not_(cond), 500):
                can_t = False
        if not can_t and not can_f:
            raise Infeasible()
        if can_t and can_f:
            if inner:
                val = self.loop_stack[-1].decide(cond)
                self._push(cond, val)
                return val
            if self.mute:
                val = self.config.get("past") == 1      # one way through the earlier use
            else:
                self.pending.append(self.taken + [False])
                val = True
        else:
            val = can_t
        if not inner:
            self.taken.append(val)
        self._push(cond, val)
        return val

    def _push(self, cond, val):
        self.assume(cond if val else not_(cond))

    # -- obligations -------------------------------------------------------------------------------------------------
    def oblige(self, name, goal, sides=None, where=""):
        if self.mute:
            return
        goal = T.lift(goal)
        hyps = list(self.pc)
        self.obls.append(Obligation(name, hyps + self.index_hyps(goal, *hyps), goal, sides, tuple(self.taken), where))

    def oblige_eq(self, name, a, b, where=""):
        """a, b: Term or Cx"""
        if isinstance(a, A.Cx) or isinstance(b, A.Cx):
            a, b = A.cx(a), A.cx(b)
            self.oblige(name + ".re", T.eq(a.re, b.re), (a.re, b.re), where)
            self.oblige(name + ".im", T.eq(a.im, b.im), (a.im, b.im), where)
        else:
            a, b = T.lift(a), T.lift(b)
            if (a.sort == "B") != (b.sort == "B"):
                a = T.ite(a, T.num(1), T.num(0)) if a.sort == "B" else a
                b = T.ite(b, T.num(1), T.num(0)) if b.sort == "B" else b
            self.oblige(name, T.eq(a, b), (a, b), where)

    def fail(self, name, detail):
        """A structural violation on this (feasible) path."""
        self.oblige(name, T.FALSE(), None, detail)


def default_gen(sort):
    if sort == "I":
        return lambda rng: int(rng.integers(-4, 6))
    if sort == "B":
        return lambda rng: bool(rng.integers(0, 2))

    def g(rng):
        m = rng.integers(0, 3)
        if m == 0:
            return float(rng.integers(-4, 5)) / 2
        return float(rng.normal() * 2)
    return g


def pos_gen(lo=0.2, hi=3.0):
    def g(rng):
        return float(rng.integers(1, 5)) / 2 if rng.integers(0, 2) else float(rng.uniform(lo, hi))
    return g


def int_gen(lo, hi):
    return lambda rng: int(rng.integers(lo, hi + 1))

"""Recorders for the parts of the outside world the cases need to see: random draws, FFT calls, vendor libraries."""
import sys
import functools
import types
import numpy as np

DRAWS = []          # every uniform draw the graphs made, in order
FFTS = []           # one entry per transform executed by NumPy
EVENTS = []         # hardware calls
FAIL = [None]       # fail at the k-th hardware call from now
COUNT = [0]


class HwError(RuntimeError):
    pass


def call(dev, op, a, k):
    def snap(x):
        return np.array(x, copy=True) if isinstance(x, np.ndarray) else x
    EVENTS.append((dev, op, tuple(snap(x) for x in a), {n: snap(x) for n, x in k.items()}))
    n = COUNT[0]
    COUNT[0] += 1
    if FAIL[0] is not None and n == FAIL[0]:
        raise HwError("device failure in " + op)


class Names(types.ModuleType):
    def __getattr__(self, n):
        if n.startswith("__") or not n.isupper():
            raise AttributeError(n)
        return n


class Flags(str):
    def __add__(self, o):
        return Flags("+".join(sorted(set(str(self).split("+")) | set(str(o).split("+")))))
    __or__ = __add__


class FlagNames(types.ModuleType):
    def __getattr__(self, n):
        if n.startswith("__") or not n.isupper():
            raise AttributeError(n)
        return Flags(n)


class ALP4:
    def __init__(self, *a, **k):
        self._lastDDRseq = None
        self.nSizeX, self.nSizeY = 24, 17
        call("alp", "open", a, k)

    def __getattr__(self, n):
        if n.startswith("_") or not n[0].isupper():
            raise AttributeError(n)

        def m(*a, **k):
            call("alp", n, a, k)
            if n == "SeqAlloc":
                self._lastDDRseq = 7
                return 7
            if n == "FreeSeq":
                self._lastDDRseq = None
            if n == "DevInquire":
                return {"ALP_DEV_DISPLAY_WIDTH": 24, "ALP_DEV_DISPLAY_HEIGHT": 17}.get(a[0] if a else k["inquireType"], 1)
            if n == "SeqInquire":
                return {"ALP_MIN_PICTURE_TIME": 43}.get(a[0] if a else k["inquireType"], 1)
        return m


class Luxbeam:
    def __init__(self, *a, **k):
        self.cols, self.rows = 23, 19
        call("lux", "open", a, k)

    def __getattr__(self, n):
        if n.startswith("_"):
            raise AttributeError(n)
        return lambda *a, **k: call("lux", n, a, k)


class LuxbeamSequencer:
    """records the program; loops are symbolic: one pass with a loop variable"""

    def __init__(self, *a, **k):
        self.prog = []

    def assign_var_reg(self, *a, **k):
        return "reg%d" % (a[0] if a else k.get("regno"))

    def jump_loop_iter(self):
        self.prog.append(("loop_begin",))
        yield 0
        self.prog.append(("loop_end",))

    def range_loop_iter(self, a, b):
        v = Lin()
        self.prog.append(("range_begin", a, b, v))
        yield 0, v
        self.prog.append(("range_end",))

    def dumps(self):
        return list(self.prog)

    def __getattr__(self, n):
        if n.startswith("_"):
            raise AttributeError(n)
        return lambda *a, **k: self.prog.append((n,) + a + ((k,) if k else ()))


class Lin:
    def __init__(self, off=0):
        self.off = off
    def __add__(self, k): return Lin(self.off + k)
    __radd__ = __add__
    def __sub__(self, k): return Lin(self.off - k)


def count_fft():
    "FFTS: one entry per transform NumPy carries out"
    def wrap(f):
        @functools.wraps(f)
        def g(*a, **k):
            FFTS.append("numpy")
            return f(*a, **k)
        return g
    for n in ("fft2", "ifft2", "fftn", "ifftn"):
        setattr(np.fft, n, wrap(getattr(np.fft, n)))


def install():
    count_fft()
    m = Names("ALP4")
    m.ALP4 = ALP4
    sys.modules["ALP4"] = m
    m = FlagNames("Luxbeam")
    m.Luxbeam, m.LuxbeamSequencer = Luxbeam, LuxbeamSequencer
    sys.modules["Luxbeam"] = m


def patch_tf(tf):
    """Record every draw as a draw from [0, 1): drawing from [lo, hi) is the unit draw scaled, so both ways of writing it give
    the same history."""
    uni = tf.random.uniform

    def uniform(shape, minval=0, maxval=None, dtype=tf.float32, *a, **k):
        r = uni(shape, minval, maxval, dtype, *a, **k)
        lo, hi = (0.0, 1.0) if maxval is None else (float(minval), float(maxval))

        def note(x):
            DRAWS.append(np.array((x - lo) / (hi - lo), copy=True).astype(x.dtype))
            return x
        t = tf.numpy_function(note, [r], r.dtype)
        return tf.reshape(t, tf.shape(r)) if r.shape.rank is None else tf.ensure_shape(tf.reshape(t, r.shape), r.shape)
    tf.random.uniform = uniform

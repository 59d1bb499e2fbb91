"""Recorders standing in for the vendor libraries (ALP4, Luxbeam) and PIL: every call is an event of the ghost history."""
from . import terms as T
from . import arr as A
from . import nd
from . import tensors as X
from .ctx import cur, Unsupported
from .pyvals import mk
from .pyshim import Namespace
from .tensors import NpArray


class HwError(RuntimeError):
    pass


class Const:
    def __init__(self, n): self.n = n
    def __repr__(self): return self.n
    def __eq__(self, o): return self is o
    def __hash__(self): return hash(self.n)
    def __slmv_subst__(self, m): return self
    def __add__(self, o): return Flags([self, o])


class Flags(Const):
    def __init__(self, parts):
        self.parts = sorted({p.n for x in parts for p in (x.parts_() if isinstance(x, Flags) else [x])})
        self.n = "+".join(self.parts)
    def parts_(self): return [Const(p) for p in self.parts]
    def __eq__(self, o): return isinstance(o, Flags) and o.n == self.n
    __or__ = __add__ = lambda self, o: Flags([self, o])
    __hash__ = Const.__hash__


Const.__or__ = lambda self, o: Flags([self, o])


class Consts(Namespace):
    """module whose constants are opaque distinct symbols"""
    def __getattr__(self, n):
        if n[:2] == "__":
            raise AttributeError(n)
        if n.isupper():
            c = Const(n)
            self.__dict__[n] = c
            return c
        raise Unsupported("%s.%s" % (self.__dict__["_n"], n))


def snap(v):
    """argument as it was when the call was made"""
    if isinstance(v, NpArray):
        return NpArray(v.core, v._scalar)
    if isinstance(v, (list, tuple)):
        if getattr(v, "sym", None) is not None:
            return v
        return type(v)(snap(x) for x in v)
    return v


class Hardware:
    def __init__(self):
        self.fail_at = None      # the k-th call raises
        self.count = 0
        self.log_ = []

    def call(self, dev, op, args, kw, ret=None):
        k = self.count
        self.count += 1
        c = cur()
        c.events.append((dev, op, tuple(snap(a) for a in args), {n: snap(v) for n, v in kw.items()}))
        if self.fail_at is not None and k == self.fail_at:
            raise HwError("device failure in %s" % op)
        return ret

    # -- Vialux
    def alp4(self):
        hw = self

        class ALP4:
            def __init__(self, *a, **k):
                self._lastDDRseq = None
                self.calls = 0
                hw.call("alp", "open", a, k)

            def __getattr__(self, n):
                if n[:2] == "__":
                    raise AttributeError(n)
                if n == "nSizeX" or n == "nSizeY":
                    return hw.size(n)
                if not n[0].isupper():
                    raise Unsupported("ALP4.%s" % n)

                def m(*a, **k):
                    ret = None
                    if n == "SeqAlloc":
                        ret = mk(cur().fresh("seq_id", "I"), "i")
                        self._lastDDRseq = ret
                    elif n in ("DevInquire", "SeqInquire", "ProjInquire"):
                        ret = mk(hw.inquiry(n, a, k), "i")
                    elif n == "FreeSeq":
                        self._lastDDRseq = None
                    return hw.call("alp", n, a, k, ret)
                return m
            def __slmv_subst__(self, m): return self
        return Consts("ALP4", {"ALP4": ALP4})

    def size(self, n):
        return mk(T.var("hw_" + n, "I"), "i")

    def inquiry(self, n, a, k):
        what = a[0] if a else k.get("inquireType")
        return cur().var("hw_%s_%s" % (n, what), "I", lambda rng: int(rng.integers(1, 6)))

    # -- Visitech
    def luxbeam(self):
        hw = self

        class Luxbeam:
            def __init__(self, *a, **k):
                self.cols = mk(cur().var("hw_cols", "I", lambda rng: int(rng.integers(1, 6))), "i")
                self.rows = mk(cur().var("hw_rows", "I", lambda rng: int(rng.integers(1, 6))), "i")
                hw.call("lux", "open", a, k)

            def __getattr__(self, n):
                if n[:2] == "__":
                    raise AttributeError(n)
                if n not in ("set_sequencer_state", "load_sequence", "set_sequencer_reg", "load_image", "set_software_sync", "set_inverse",
                             "set_image_type", "set_trigger_source", "set_internal_trigger_source"):
                    raise Unsupported("Luxbeam.%s" % n)
                return lambda *a, **k: hw.call("lux", n, a, k)
            def __slmv_subst__(self, m): return self

        class LuxbeamSequencer:
            def __init__(self, *a, **k):
                self.prog = []

            def assign_var_reg(self, *a, **k):
                r = Const("reg%s" % (a[0] if a else k.get("regno")))
                self.prog.append(("reg", r))
                return r

            def jump_loop_iter(self, *a, **k):
                self.prog.append(("loop_begin",))
                yield 0
                self.prog.append(("loop_end",))

            def range_loop_iter(self, a, b):
                v = mk(cur().var("hw_inum", "I"), "i")
                self.prog.append(("range_begin", a, b, v))
                yield 0, v
                self.prog.append(("range_end",))

            def dumps(self):
                return Program(list(self.prog))

            def __getattr__(self, n):
                if n[:2] == "__":
                    raise AttributeError(n)
                if n not in ("load_global", "reset_global", "trig", "wait", "clear_global"):
                    raise Unsupported("LuxbeamSequencer.%s" % n)
                return lambda *a, **k: self.prog.append((n,) + a + ((k,) if k else ()))
        return Consts("Luxbeam", {"Luxbeam": Luxbeam, "LuxbeamSequencer": LuxbeamSequencer})


class Program:
    def __init__(self, prog): self.prog = prog


# ---- PIL -------------------------------------------------------------------------------------------------------------------------
class Img:
    def __init__(self, mode, size):
        self.mode, self.size = mode, size
        w, h = [X.idx_term(X.nval(s)) for s in size]
        c = cur()
        a = A.input_array("pil%d" % next(c.counter), (h, w), ("b",))
        self.core = nd.Core((h, w), "bool", lambda *i: a.at(i))

    def __slmv_array__(self):
        return NpArray(self.core)


class Draw:
    def __init__(self, img): self.img = img
    def text(self, *a, **k): pass
    def __getattr__(self, n): raise Unsupported("ImageDraw.%s" % n)


def make_pil():
    return Namespace("PIL", {"Image": Namespace("PIL.Image", {"new": lambda mode, size, color=0: Img(mode, size)}),
                             "ImageDraw": Namespace("PIL.ImageDraw", {"Draw": Draw}),
                             "ImageFont": Namespace("PIL.ImageFont", {"truetype": lambda *a, **k: Const("font")})})

import numpy as np
import spec as S
import fakes
from run import case, close, same, true, raises, Bad, Skip
from cases_optics import Dv


@case("C24", 1, (32,))
def enumeration(D, L):
    f = L.analysis.ansi_j_to_n_m
    seen = {}
    for j in range(3000):
        n, m = f(j)
        true("integers at %d" % j, isinstance(n, (int, np.integer)) and isinstance(m, (int, np.integer)), type(n), type(m))
        true("at %d" % j, n >= 0 and abs(m) <= n and (n - m) % 2 == 0 and 2 * j == n * (n + 2) + m, n, m)
        true("new at %d" % j, (n, m) not in seen)
        seen[n, m] = j
    for n in range(60):
        for m in range(-n, n + 1, 2):
            true("mode", f((n * (n + 2) + m) // 2) == (n, m), n, m)
    for n in (10 ** 3, 10 ** 5, 10 ** 6 + 1):
        for j in (n * (n + 1) // 2, n * (n + 1) // 2 + 1, n * (n + 3) // 2, n * (n + 3) // 2 - 1):
            a, b = f(j)
            true("at %d" % j, (a, b) == (n, 2 * j - n * (n + 2)), a, b)
    for j in range(21):
        n, m = f(j)
        L.profile.Zernike(1, 1, n, m)
        k = f(np.int64(j))
        true("numpy integers", tuple(int(q) for q in k) == (n, m))


def aberration(D):
    r = D.seed("map")
    Ny, Nx = D.int("Ny", 1, 9), D.int("Nx", 1, 9)
    x, y = np.meshgrid(np.arange(Nx) - (Nx - 1) / 2, (Ny - 1) / 2 - np.arange(Ny))
    R = D.pick("radius", [2, 2.5, 3.3, 4, 1.3, 7.0])
    ap = x ** 2 + y ** 2 < R ** 2
    if not ap.any():
        raise Skip
    p = r.standard_normal((Ny, Nx))
    return p, x, y, R, ap


@case("C25", 10)
def decomposition(D, L):
    p, x, y, R, ap = aberration(D)
    k = np.array(p)
    num = D.pick("num", [0, 1, 3, 6, 10, 15])
    extra, rec, verb = D.bool("extra"), D.bool("reconstruct"), D.bool("verbose")
    kw = {"extrapolate": extra} if extra or D.bool("explicit") else {}
    out = L.analysis.zernike_decomposition(p, R, num, reconstruct=rec, verbose=verb, **kw) if rec or D.bool("kw") else L.analysis.zernike_decomposition(p, R, num, **kw)
    co = out[0] if rec else out
    true("number", len(co) == num, len(co))
    tot = np.zeros(p.shape)
    for j in range(num):
        n, m = S.ansi(j)
        z = S.zernike(1.0, R, n, m, x, y, True, extra)
        c = np.mean(k[ap] * z[ap])
        close("coefficient %d" % j, co[j], c, 1e-4 * L.eps * (1 + abs(c)) * 5)
        tot = tot + c * z
    if rec:
        t = 1e-3 * L.eps * (1 + np.max(np.abs(tot)))
        near = np.abs(np.hypot(x, y) - R) < 1e-5
        close("reconstruction", out[1], tot, t, ~near)
    same("the map", p, k)


@case("C25", 10)
def removal(D, L):
    p, x, y, R, ap = aberration(D)
    k = np.array(p)
    kind = D.pick("dtype", ["f8", "f8", "i8", "view"])
    if kind == "i8":
        p = D.seed("i").integers(-9, 9, p.shape)
        k = p.astype(float)
    elif kind == "view":
        p = np.asfortranarray(p)
    keep = np.array(p)
    de = D.bool("defocus")
    out = L.analysis.remove_trivial_phase(p, R, remove_defocus=de) if de or D.bool("kw") else L.analysis.remove_trivial_phase(p, R)
    w = k.astype(float)
    near = np.abs(np.hypot(x, y) - R) < 1e-5
    for n, m in [(0, 0), (1, -1), (1, 1)] + ([(2, 0)] if de else []):
        z = S.zernike(1.0, R, n, m, x, y)
        w = w - np.mean(w[ap] * z[ap]) * z
    close("what is left", out, w, 1e-4 * L.eps * (1 + np.max(np.abs(k))) * 5, ~near)
    out_ = (np.hypot(x, y) > R) & ~near
    same("beyond the radius", out[out_], k[out_])
    same("the map", p, keep)
    true("its type", p.dtype == keep.dtype)


@case("C26", 10)
def precision(D, L):
    tf = L.tf
    cls = type(L.B)
    b = cls()
    cur, frozen = tf.float32, False
    trip = {tf.float32: (tf.float32, tf.complex64, tf.int32), tf.float64: (tf.float64, tf.complex128, tf.int64)}
    bad = [tf.float16, tf.bfloat16, tf.int32, tf.complex64, tf.complex128, "float16", 32, 64, None, "double precision", tf.int64]
    for k in range(D.int("steps", 1, 8)):
        op = D.pick("op%d" % k, ["set32", "set64", "bad", "real", "complex", "int", "constants"])
        if op in ("set32", "set64"):
            t = (tf.float32 if op == "set32" else tf.float64)
            if D.bool("constant%d" % k):
                t = b.TENSOR_32BITS if op == "set32" else b.TENSOR_64BITS
            if frozen:
                raises("setting after a read", Exception, lambda: setattr(b, "dtype", t))
            else:
                b.dtype = t
                cur = t
        elif op == "bad":
            t = bad[D.int("bad%d" % k, 0, len(bad) - 1)]
            raises("setting %r" % (t,), Exception if frozen else ValueError, lambda: setattr(b, "dtype", t))
        elif op == "constants":
            true("constants", b.TENSOR_32BITS == tf.float32 and b.TENSOR_64BITS == tf.float64)
        else:
            got = {"real": lambda: b.dtype, "complex": lambda: b.dtype_complex, "int": lambda: b.dtype_int}[op]()
            true(op, got == trip[cur][{"real": 0, "complex": 1, "int": 2}[op]], got, "after", cur)
            frozen = True
    true("consistent", (b.dtype, b.dtype_complex, b.dtype_int) == trip[cur], (b.dtype, b.dtype_complex, b.dtype_int))


@case("C26", 4)
def widths(D, L):
    tf = L.tf
    true("the setting", L.B.dtype == L.R and L.B.dtype_complex == L.C and L.B.dtype_int == (np.int32 if L.prec == 32 else np.int64))
    for t in (tf.float32, tf.float64, tf.float16):
        raises("setting %r after use" % t, Exception, lambda: setattr(L.B, "dtype", t))
    true("still the setting", L.B.dtype == L.R and L.B.dtype_complex == L.C)
    P = L.profile
    x = np.linspace(-1, 1, 5).astype(D.pick("in", ["f4", "f8"]))
    for n, p, c in (("hg", P.HermiteGaussian(0, 0, 1, 1, 2, 1), 0), ("sg", P.SuperGaussian(0, 0, 1, 1, 2), 0), ("lg", P.LaguerreGaussian(0, 0, 1, 1, 1, 1), 1),
                    ("zernike", P.Zernike(1, 1, 2, 0), 0), ("const", P.ConstantProfile(2.0), 0), ("cconst", P.ConstantProfile(2j), 1),
                    ("rect", L.window.RectangularWindowRectangle(0, 0, 1, 1), 0), ("circ", L.window.RectangularWindowCircular(0, 0, 1), 0),
                    ("sum", P.HermiteGaussian(0, 0, 1, 1) + 1, 0), ("csum", P.HermiteGaussian(0, 0, 1, 1) * 1j, 1),
                    ("shift", P.SuperGaussian(0, 0, 1, 1).shift(.1, .2), 0), ("exp", P.SuperGaussian(0, 0, 1, 1).as_complex_profile(), 1)):
        true(n, p(x, x).dtype == (L.C if c else L.R), p(x, x).dtype)
    v = Dv(D, L, 2, 5, "dmd")
    for n, g in (("device", v.o.fourier_plane_grid), ("image", v.o.image_plane_grid)):
        true(n + " grid", g[0].dtype == L.R and g[1].dtype == L.R)
    s = v.sim(L, 1, 1)
    for n, g in (("device", s.fourier_plane_padded_grid), ("image", s.image_plane_padded_grid)):
        true("padded " + n + " grid", g[0].dtype == L.R and g[1].dtype == L.R)
    v.o.set_dmd_grating_state(method="ideal")
    true("greyscale", v.o.dmd_state.dtype == L.R)
    s.propagate_to_image(np.ones(v.shape))
    s.block_zeroth_order()
    for n in ("input", "output", "image_plane"):
        true(n, getattr(s, n + "_field").dtype == L.C and getattr(s, n + "_intensity").dtype == L.R)
    w = Dv(D, L, 2, 5, "lcos", tag="l_")
    w.o.calculate_hologram(1.0, np.ones(w.shape), N=1)
    true("phase hologram", w.o.slm_state.dtype == L.R)


# ---- controllers ---------------------------------------------------------------------------------------------------
ARGS = {
    "SeqAlloc": ("nbImg", "bitDepth"), "SeqControl": ("controlType", "value", "SequenceId"),
    "SeqPut": ("imgData", "SequenceId", "PicOffset", "PicLoad", "dataFormat"),
    "SetTiming": ("SequenceId", "illuminationTime", "pictureTime", "synchDelay", "synchPulseWidth", "triggerInDelay"),
    "Run": ("SequenceId", "loop"), "ProjControl": ("controlType", "value"), "DevControl": ("controlType", "value"),
    "DevInquire": ("inquireType",), "SeqInquire": ("inquireType", "SequenceId"),
    "set_sequencer_state": ("cmd", "enable"), "set_sequencer_reg": ("reg_no", "reg_val"), "load_image": ("inum", "image"),
    "load_sequence": ("seq",), "set_software_sync": ("level",),
}


class Ev:
    def __init__(self, e):
        self.dev, self.op = e[0], e[1]
        self.a = dict(zip(ARGS.get(self.op, ()), e[2]))
        self.a.update(e[3])

    def __getitem__(self, n):
        return self.a.get(n)

    def is_(self, op, **kw):
        return self.op == op and all(self.a.get(k) == x for k, x in kw.items())


def hist(start=0):
    return [Ev(e) for e in fakes.EVENTS[start:]]


def pos(h, op, **kw):
    return [k for k, e in enumerate(h) if e.is_(op, **kw)]


def make(L, kind, inv):
    C = L.ctl
    if kind == "alp":
        return C.ALPController(invert=inv)
    if kind == "lux":
        return C.LuxbeamController("192.168.0.10", invert=inv)
    return C.DMDControllerBase(invert=inv)


def frames(D, n, tag="f"):
    r = D.seed(tag)
    return [r.random((5, 7)) < .5 for _ in range(n)]


@case("C29", 6, (32,))
def refusal(D, L):
    del fakes.EVENTS[:]
    kind = D.pick("kind", ["base", "alp", "lux"])
    inv = D.bool("invert")
    fs = frames(D, 2)

    def ops(c):
        return {"load_single": lambda: c.load_single(fs[0]), "load_single kw": lambda: c.load_single(dmd_state=fs[0]), "load_multiple": lambda: c.load_multiple(fs),
                "load_sequence": lambda: c.load_sequence(fs), "Nx": lambda: c.Nx, "Ny": lambda: c.Ny, "number_image": lambda: c.number_image(3)}

    def refused(c, what):
        true(what + ": not initialized", c.is_initialized() is False)
        for n, op in ops(c).items():
            k = len(fakes.EVENTS)
            raises("%s, %s" % (what, n), Exception, op)
            true("%s, %s sends nothing" % (what, n), len(fakes.EVENTS) == k)
    c = make(L, kind, inv)
    refused(c, "fresh")
    d = make(L, kind, inv)
    d.initialize()
    refused(c, "another was initialized")
    if kind != "base":
        for at in range(30):
            e = make(L, kind, inv)
            fakes.FAIL[0] = fakes.COUNT[0] + at
            try:
                e.initialize()
                done = True
            except fakes.HwError:
                done = False
            finally:
                fakes.FAIL[0] = None
            if done:
                break
            refused(e, "call %d of initialize failed" % at)
            e.initialize()
            true("a later attempt", e.is_initialized() is True)
    c.initialize()
    true("initialized", c.is_initialized() is True)
    for n, op in ops(c).items():
        k = len(fakes.EVENTS)
        if kind == "base" or n == "load_sequence":
            raises(n, NotImplementedError, op)
            continue
        r = op()
        if n.startswith("load"):
            true(n + " sends", len(fakes.EVENTS) > k)
        if n in ("Nx", "Ny"):
            true(n, r == {"alp": {"Nx": 24, "Ny": 17}, "lux": {"Nx": 23, "Ny": 19}}[kind][n], r)
        if n == "number_image":
            true(n, r.shape == {"alp": (17, 24), "lux": (19, 23)}[kind], r.shape)


def force(h, op, ctl, default=None):
    for e in reversed(h):
        if e.is_(op, controlType=ctl):
            return e["value"]
        if e.op == "Initialize":
            return default
    return default


def between(D, c, k, fs, keep, last):
    """what may happen before the next load: nothing, the device is closed and initialized again, a load is interrupted by the device,
    the frames are the last ones, changed in place"""
    what = D.pick("between%d" % k, ["nothing", "reopen", "interrupted", "same frames", "reopen and same"])
    if what.startswith("reopen"):
        c.close()
        c.initialize()
    if what == "interrupted":
        fakes.FAIL[0] = fakes.COUNT[0] + D.int("at%d" % k, 0, 9)
        try:
            c.load_single(fs[0]) if D.bool("one%d" % k) else c.load_multiple(fs)
        except fakes.HwError:
            pass
        finally:
            fakes.FAIL[0] = None
    if what.endswith("same") or what.startswith("same"):
        if last is not None:
            for f in last:
                f[...] = D.seed("new%d" % k).random(f.shape) < .5
            return last, [f.copy() for f in last]
    return fs, keep


@case("C30", 10, (32,))
def vialux(D, L):
    del fakes.EVENTS[:]
    inv = D.bool("invert")
    c = make(L, "alp", inv)
    c.initialize()
    h = hist()
    true("inversion", (force(h, "ProjControl", "ALP_PROJ_INVERSION", "ALP_DEFAULT") == "ALP_ENABLE") == inv)
    true("initialized once", len(pos(h, "Initialize")) == 1)
    last = None
    for k in range(D.int("loads", 1, 5)):
        n = D.pick("n%d" % k, [0, 1, 2, 3, 6])
        fs = frames(D, max(n, 1), "f%d" % k)
        keep = [f.copy() for f in fs]
        fs, keep = between(D, c, k, fs, keep, last)
        if n == 0:
            fs, keep = fs[:1], keep[:1]
        last, n = fs, n and len(fs)
        at = len(fakes.EVENTS)
        if n == 0:
            c.load_single(fs[0])
        else:
            c.load_multiple(fs if D.bool("list%d" % k) else tuple(fs))
        h, whole = hist(at), hist()
        N = max(n, 1)
        w = "load %d (%s)" % (k, n or "single")
        true(w + " halts first", h[0].op == "Halt")
        true(w + " runs last", h[-1].op == "Run" and len(pos(h, "Run")) == 1)
        a = pos(h, "SeqAlloc")
        true(w + " allocates", len(a) == 1 and h[a[0]]["nbImg"] == N and (h[a[0]]["bitDepth"] or 1) == 1)
        b = pos(h, "SeqControl", controlType="ALP_BIN_MODE")
        true(w + " uninterrupted", b and b[0] > a[0] and all(h[q]["value"] == "ALP_BIN_UNINTERRUPTED" for q in b))
        p = pos(h, "SeqPut")
        true(w + " transfers", len(p) == 1 and p[0] > a[0])
        e = h[p[0]]
        true(w + " whole", e["PicOffset"] in (None, 0) and e["PicLoad"] in (None, 0))
        same(w + " data", np.asarray(e["imgData"]).reshape(-1).astype(int), np.array(fs).reshape(-1) * 255)
        t = pos(h, "SetTiming")
        true(w + " timing", t and t[0] > a[0])
        mode = force(whole, "ProjControl", "ALP_PROJ_MODE", "ALP_MASTER")
        if n:
            true(w + " waits for triggers", mode in ("ALP_SLAVE", "ALP_SLAVE_VD"), mode)
            true(w + " rising edge", force(whole, "DevControl", "ALP_TRIGGER_EDGE") == "ALP_EDGE_RISING")
            true(w + " picture time", h[t[-1]]["pictureTime"] == 43, h[t[-1]]["pictureTime"])
        else:
            true(w + " without trigger", mode == "ALP_MASTER", mode)
        for f, g in zip(fs, keep):
            same(w + " frames unchanged", f, g)


@case("C31", 10, (32,))
def visitech(D, L):
    del fakes.EVENTS[:]
    c = make(L, "lux", D.bool("invert"))
    true("connection", fakes.EVENTS[0][1] == "open" and "192.168.0.10" in fakes.EVENTS[0][2])
    on = lambda e: e["enable"] == "ENABLE" or e["enable"] in (1, True)
    at = len(fakes.EVENTS)
    c.initialize()
    h = hist(at)
    ls = pos(h, "load_sequence")
    true("one program", len(ls) == 1)
    state = lambda cmd, upto: ([on(e) for e in h[:upto] if e.is_("set_sequencer_state", cmd=cmd)] or [None])[-1]
    true("stopped", state("SEQ_CMD_RUN", ls[0]) is False)
    true("under reset", state("SEQ_CMD_RESET", ls[0]) is True)
    true("never started", not any(on(e) for e in h if e.is_("set_sequencer_state", cmd="SEQ_CMD_RUN")))
    true("released", state("SEQ_CMD_RESET", len(h)) is False)
    for n in (1, 2, 3, 5):
        s = shown(h[ls[0]]["seq"], n)
        true("shows %d" % n, [a for a, _ in s] == list(range(n)) * 2, s)
        true("waits", all(q for _, q in s))
    last = None
    for k in range(D.int("loads", 1, 4)):
        n = D.pick("n%d" % k, [0, 1, 2, 3, 6])
        fs = frames(D, max(n, 1), "f%d" % k)
        keep = [f.copy() for f in fs]
        fs, keep = between(D, c, k, fs, keep, last)
        if n == 0:
            fs, keep = fs[:1], keep[:1]
        last, n = fs, n and len(fs)
        at = len(fakes.EVENTS)
        if n == 0:
            c.load_single(fs[0])
        else:
            c.load_multiple(fs)
        h = hist(at)
        w = "load %d (%s)" % (k, n or "single")
        true(w + " stops first", h[0].is_("set_sequencer_state", cmd="SEQ_CMD_RUN") and not on(h[0]))
        runs = [on(e) for e in h if e.is_("set_sequencer_state", cmd="SEQ_CMD_RUN")]
        true(w + " restarts last", h[-1].is_("set_sequencer_state", cmd="SEQ_CMD_RUN") and runs[-1] and not any(runs[:-1]))
        g = pos(h, "set_sequencer_reg")
        true(w + " register", len(g) == 1 and h[g[0]]["reg_no"] == 0 and h[g[0]]["reg_val"] == max(n, 1), [h[q].a for q in g])
        rs = [(i, on(e)) for i, e in enumerate(h) if e.is_("set_sequencer_state", cmd="SEQ_CMD_RESET")]
        true(w + " held in reset", [b for i, b in rs if i < g[0]][-1:] == [True] and [b for i, b in rs if i > g[0]][-1:] == [False])
        im = [h[q] for q in pos(h, "load_image")]
        true(w + " slots", [e["inum"] for e in im] == list(range(max(n, 1))), [e["inum"] for e in im])
        for e, f, q in zip(im, fs, keep):
            true(w + " boolean", np.asarray(e["image"]).dtype == bool)
            same(w + " frame", e["image"], q)
            same(w + " frame unchanged", f, q)
    at = len(fakes.EVENTS)
    c.fire_software_trigger()
    h = hist(at)
    true("pulse", len(h) == 2 and h[0].is_("set_software_sync", level=1) and h[1].is_("set_software_sync", level=0))


def shown(prog, n, rounds=2):
    out, mem, waited = [], [None], [True]

    def number(x, env):
        if isinstance(x, fakes.Lin):
            return env[0] + x.off
        return n if x == "reg0" else x

    def block(k, env):
        while k < len(prog):
            o = prog[k]
            if o[0] in ("loop_begin", "range_begin"):
                end, d = k + 1, 1
                while d:
                    d += {"loop_begin": 1, "range_begin": 1, "loop_end": -1, "range_end": -1}.get(prog[end][0], 0)
                    end += 1
                if o[0] == "loop_begin":
                    for _ in range(rounds):
                        block(k + 1, env)
                    return
                for q in range(number(o[1], env), number(o[2], env)):
                    block(k + 1, [q])
                k = end
                continue
            if o[0] in ("loop_end", "range_end"):
                return
            if o[0] == "load_global":
                mem[0] = number(o[1], env)
            elif o[0] == "reset_global":
                out.append((mem[0], waited[0]))
                waited[0] = False
            elif o[0] == "trig":
                waited[0] = str(o[1]) == "TRIG_MODE_POSITIVE_EDGE"
            k += 1
    block(0, None)
    return out

import gc
import numpy as np
import spec as S
import fakes
from run import case, close, same, true, raises, Bad, Skip
from cases_optics import Dv, crand, put_state


def maps(D, L, v, tag="m"):
    """amp, phase_in, phase_out as passed and as values; amplitudes in [0, 1]"""
    r = D.seed(tag)

    def pick(n, lo, hi):
        k = D.pick(tag + n, ["array", "scalar", "tensor", "profile"])
        if k == "scalar":
            a = float(L.R(r.uniform(lo, hi)))
            return a, np.full(v.shape, a)
        if k == "profile":
            c = float(L.R(r.uniform(lo, hi)))
            return L.profile.ConstantProfile(c), np.full(v.shape, c)
        a = r.uniform(lo, hi, v.shape).astype(L.R)
        return (L.tf.constant(a) if k == "tensor" else a), a.astype(float)
    a, pi, po = pick("amp", 0, 1), pick("in", -4, 4), pick("out", -4, 4)
    if D.bool(tag + "zeros") and isinstance(a[0], np.ndarray):
        z = r.random(v.shape) < .3
        a[0][z] = 0
        a[1][z] = 0
        o = r.random(v.shape) < .2
        a[0][o] = 1
        a[1][o] = 1
    return a, pi, po


def gphase(v, L):
    x, y = v.xy()
    return S.grating_phase(x, y, float(L.R(v.p)), float(L.R(v.th)))


GT = 3e-4     # float32 tolerance of a grating value on a small device


def gtol(L, v):
    x, y = v.xy()
    return (2e-6 * (1 + np.max(np.abs(x) + np.abs(y)) / v.p * 6.3) + 1e-5) * L.eps


@case("C15", 12)
def greyscale(D, L):
    v = Dv(D, L, 1, 9, "dmd")
    a, pi, po = maps(D, L, v)
    t = gtol(L, v)
    if D.bool("kw"):
        v.o.set_dmd_grating_state(amp=a[0], phase_in=pi[0], phase_out=po[0], method="ideal")
    else:
        v.o.set_dmd_grating_state(a[0], pi[0], po[0], "ideal")
    h = v.o.dmd_state
    true("precision", h.dtype == L.R, h.dtype)
    close("grating", h, S.lee(a[1], pi[1], po[1], gphase(v, L), v.neg), t)
    true("range", np.all(h >= -t) and np.all(h <= a[1] + t))
    v.o.set_dmd_grating_state(method="ideal")
    close("defaults", v.o.dmd_state, S.lee(1, 0, 0, gphase(v, L), v.neg), t)


def problem(D, L, v, tag="p", zeros=True):
    """illumination without zeros, a target, a window"""
    r = D.seed(tag)
    inp = crand(r, v.shape, .4).astype(L.C)
    if D.bool(tag + "flat"):
        inp = np.full(v.shape, 1.0).astype(L.C)
    k = D.pick(tag + "target", ["complex", "real", "peak"])
    if k == "peak":
        tgt = np.zeros(v.shape, L.C)
        tgt[r.integers(0, v.Ny), r.integers(0, v.Nx)] = 1 + .5j
    else:
        tgt = (crand(r, v.shape) if k == "complex" else r.random(v.shape)).astype(L.C)
    win = None
    if D.bool(tag + "window"):
        win = (r.random(v.shape) < .7).astype(L.R)
        win[0, 0] = 1
    return inp, tgt, win


@case("C16", 12)
def target(D, L):
    v = Dv(D, L, 1, 8, "dmd")
    inp, tgt, win = problem(D, L, v)
    sp, amp, pi, po, c = S.target_hologram(inp.astype(complex), tgt.astype(complex), 1.0 if win is None else win.astype(float))
    if c == 0 or not np.isfinite(c):
        raise Skip
    eta = v.o.calculate_dmd_state(inp, tgt, method="ideal", window=win)
    h = v.o.dmd_state.astype(float)
    t = gtol(L, v) * 5 + 2e-5 * L.eps * (1 + v.Nx * v.Ny / 10)
    g = gphase(v, L)
    close("hologram", h, S.lee(amp, pi, po, g, v.neg), t)
    true("within [0, 1]", h.min() >= -t and h.max() <= 1 + t)
    want = v.d ** 2 / v.lf * v.Nx * v.Ny / c
    close("efficiency", eta, want, 1e-4 * L.eps * want)
    # the decomposition
    zero = inp * amp / 2
    first = sp / (4 * c) * np.exp((1 if v.neg else -1) * 1j * g)
    twin = inp * amp / 4 * np.exp((-1 if v.neg else 1) * 1j * (g - (po - pi) * (-1 if v.neg else 1)))
    close("orders", h * inp, zero + first + twin, t * np.max(np.abs(inp)))
    # and through the simulation: the image of the hologram contains efficiency/4 times the target at the origin of the first order
    s = v.sim(L, 0, 0)
    s.propagate_to_image(inp)
    im = s.image_plane_field - S.image_field(zero + twin, v.d, v.lf)
    unshift = S.image_field(S.to_device(im) * v.lf / v.d ** 2 / im.size * np.exp((-1 if v.neg else 1) * 1j * g), v.d, v.lf)
    tw = tgt if win is None else S.to_image(S.to_device(tgt) * win) / tgt.size
    m = v.d ** 2 / v.lf * v.Nx * v.Ny
    close("first order", unshift, tw * eta / 4, t * m * 3 * np.max(np.abs(inp)))


@case("C16", 4)
def again(D, L):
    "arguments unchanged and the result does not depend on what was computed before"
    v = Dv(D, L, 2, 6, "dmd")
    inp, tgt, win = problem(D, L, v)
    k = [np.array(x) for x in (inp, tgt)]
    e1 = v.o.calculate_dmd_state(inp, tgt, method="ideal", window=win)
    h1 = np.array(v.o.dmd_state)
    i2, t2, w2 = problem(D, L, v, "q")
    v.o.calculate_dmd_state(i2, t2, method="simple", window=w2)
    e2 = v.o.calculate_dmd_state(inp, tgt, method="ideal", window=win)
    same("arguments", inp, k[0])
    same("arguments", tgt, k[1])
    close("efficiency", e2, e1, 1e-5 * L.eps * abs(e1))
    close("hologram", v.o.dmd_state, h1, 1e-5 * L.eps)


@case("C17", 10)
def simple(D, L):
    v = Dv(D, L, 1, 9, "dmd")
    a, pi, po = maps(D, L, v)
    h = S.lee(a[1], pi[1], po[1], gphase(v, L), v.neg)
    v.o.set_dmd_grating_state(a[0], pi[0], po[0], method="simple")
    st = v.o.dmd_state
    true("boolean", st.dtype == bool, st.dtype)
    near = np.abs(h - .5) < gtol(L, v)
    same("on where the hologram exceeds 1/2", st | near, (h > .5) | near)
    v.o.pack_dmd_state()


@case("C17", 10)
def random(D, L):
    v = Dv(D, L, 2, 9, "dmd")
    a, pi, po = maps(D, L, v)
    r = D.pick("r", [None, 10.0, 1.0, 3, 0.5, 40.0, 0, 0.0, 0.02])
    dphi = gphase(v, L) - (po[1] - pi[1]) * (-1 if v.neg else 1)
    p = S.on_prob(a[1], dphi, 10.0 if r is None else r)
    del fakes.DRAWS[:]
    seen = []
    for k in range(2):
        n = len(fakes.DRAWS)
        v.o.set_dmd_grating_state(a[0], pi[0], po[0], method="random", **({} if r is None else {"r": r}))
        st = v.o.dmd_state
        true("boolean", st.dtype == bool, st.dtype)
        true("shape", st.shape == v.shape)
        true("zero amplitude is off", not np.any(st[a[1] == 0]))
        new = fakes.DRAWS[n:]
        if len(new) == 1 and new[0].size == st.size:
            u = new[0].reshape(st.shape).astype(float)
            near = np.abs(p - u) < 1e-3 * L.eps * (10 + (r or 10))
            near |= (np.abs(np.sin(dphi)) < 3e-3 * (1 if L.prec == 32 else 1e-4)) & (np.abs(p - u) < .2)
            near |= (a[1] > 1 - 1e-5) & (np.abs(p - u) < .02 * (1 if L.prec == 32 else 1e-3))
            same("on exactly where the draw is below the probability", st | near, (u < p) | near)
            seen.append(u)
        elif sum(x.size for x in new) < st.size and fakes.DRAWS:
            raise Bad("only %s uniform numbers for %d mirrors" % ([x.shape for x in new], st.size))
    if len(seen) == 2:
        true("a fresh draw", not np.array_equal(*seen))


@case("C17", 1)
def statistics(D, L):
    v = Dv(D, L, 6, 9, "dmd")
    a, pi, po = maps(D, L, v)
    dphi = gphase(v, L) - (po[1] - pi[1]) * (-1 if v.neg else 1)
    p = S.on_prob(a[1], dphi, 2.0)
    M = 150
    del fakes.DRAWS[:]
    st = []
    for _ in range(M):
        v.o.set_dmd_grating_state(a[0], pi[0], po[0], method="random", r=2.0)
        st.append(v.o.dmd_state)
    f = np.mean(st, 0)
    sd = np.sqrt(p * (1 - p) / M) + 1 / M
    true("frequencies", np.all(np.abs(f - p) < 7 * sd), np.max(np.abs(f - p) / sd))
    z = np.array(st) - p
    c = np.mean(z[:, :, 1:] * z[:, :, :-1])
    true("neighbours are independent", abs(c) < 7 * .25 / np.sqrt(z.size / 2), c)
    c = np.mean(z[1:] * z[:-1])
    true("calls are independent", abs(c) < 7 * .25 / np.sqrt(z.size / 2), c)


def ifta_case(D, L, v, via, tag=""):
    r = D.seed(tag + "ifta")
    inp = crand(r, v.shape, .4).astype(L.C)
    win = (r.random(v.shape) < .5).astype(L.R)
    if D.bool(tag + "soft window"):
        win = r.random(v.shape).astype(L.R)
    N = D.pick(tag + "N", [1, 2, 3, 4, 0])
    kw = {"N": N}
    s = D.pick(tag + "s", [None, 1.0, .8, 1.5])
    if s is not None:
        kw["s"] = s
    inp = inp * L.R(D.pick(tag + "brightness", [1.0, 1.0, 2.0 ** -24, 2.0 ** -30, 2.0 ** 10]))
    g = gphase(v, L)
    if via == "calc":
        tgt = crand(r, v.shape).astype(L.C)
        w2 = None
        sp, amp, pi, po, c = S.target_hologram(inp.astype(complex), tgt.astype(complex), 1.0)
        h0 = S.lee(amp, pi, po, g, v.neg)
        f = lambda: v.o.calculate_dmd_state(inp, tgt, method="ifta", signal_window=win, **kw)
    else:
        if D.bool(tag + "dark"):
            inp = inp * (r.random(v.shape) < .7)
        a, pi, po = maps(D, L, v, tag + "im")
        h0 = S.lee(a[1], pi[1], po[1], g, v.neg)
        # this entry takes the tensors themselves, the light in device order and the window in image order
        f = lambda: v.o.set_dmd_grating_state(a[0], pi[0], po[0], method="ifta", input_profile=L.tf.constant(inp), signal_window=L.tf.constant(win.astype(L.C)), **kw)
    h, margin = S.ifta(inp.astype(complex), (1.0 if s is None else s) * h0, N, win.astype(float))
    return f, h, margin, inp


@case("C18", 16)
def iterations(D, L):
    v = Dv(D, L, 1, 7, "dmd")
    f, h, margin, inp = ifta_case(D, L, v, D.pick("via", ["calc", "set"]))
    if margin < 2e-3 * max(L.eps, 1e-4):
        raise Skip
    f()
    st = v.o.dmd_state
    true("boolean", st.dtype == bool, st.dtype)
    same("mirrors", st, h > .5)


@case("C18", 1, (64,))
def default_iterations(D, L):
    for k in range(4):
        v = Dv(D, L, 2, 4, "dmd", tag="d%d" % k)
        r = D.seed("x%d" % k)
        inp, tgt, win = crand(r, v.shape, .4), crand(r, v.shape), (r.random(v.shape) < .5) * 1.0
        sp, amp, pi, po, c = S.target_hologram(inp, tgt, 1.0)
        h, margin = S.ifta(inp, S.lee(amp, pi, po, gphase(v, L), v.neg), 200, win)
        if margin < 1e-8:
            continue
        v.o.calculate_dmd_state(inp, tgt, method="ifta", signal_window=win)
        same("mirrors", v.o.dmd_state, h > .5)


def drawn(st, n):
    new = fakes.DRAWS[n:]
    if not new:
        raise Skip
    if sum(x.size for x in new) < st.size:
        raise Bad("only %s uniform numbers for %d pixels" % ([x.shape for x in new], st.size))
    if len(new) != 1 or new[0].size != st.size:
        raise Skip
    return new[0].reshape(st.shape).astype(float)


def phases_agree(L, name, got, f, phase0, inp):
    "compares exp(i phase) with a tolerance from the conditioning of the iteration"
    r = np.random.default_rng(5)
    e = 1e-6 if L.prec == 32 else 1e-14
    w = f(phase0, inp)
    tol = 2e-5 * L.eps
    for k in range(4):
        q = f(phase0 + e * r.standard_normal(w.shape), inp * (1 + e * r.standard_normal(w.shape)))
        tol = tol + 60 * np.max(np.abs(np.exp(1j * q) - np.exp(1j * w)))
    if tol > .3:
        raise Skip
    close(name, np.exp(1j * got.astype(float)), np.exp(1j * w), tol)


def lcos_problem(D, L, v):
    r = D.seed("lcos")
    inp = crand(r, v.shape, .3).astype(L.C)
    if D.bool("real light"):
        inp = np.abs(inp).astype(L.C)
    tgt = r.uniform(.1, 1, v.shape).astype(L.R)
    return r, inp, tgt


def result_ok(L, v, N):
    p = v.o.slm_state
    true("shape", p.shape == v.shape, p.shape)
    true("real", not np.iscomplexobj(p), p.dtype)
    true("precision", p.dtype == L.R, p.dtype)
    if N >= 1:
        true("within [-pi, pi]", np.all(np.abs(p) <= np.pi + 1e-6))
    return p


@case("C19", 14)
def gs(D, L):
    v = Dv(D, L, 1, 7, "lcos")
    r, inp, tgt = lcos_problem(D, L, v)
    N = D.pick("N", [0, 1, 1, 2, 3])
    last = None
    for k in range(2):
        n = len(fakes.DRAWS)
        v.o.calculate_hologram(inp, tgt, method="gs", N=N) if k else v.o.calculate_hologram(inp, tgt, N=N)
        p = result_ok(L, v, N)
        u = drawn(p, n)
        if last is not None and u.size > 3:
            true("a fresh start", not np.array_equal(last, u))
        last = u
        phases_agree(L, "phase after %d iterations" % N, p, lambda ph, i: S.gs(i, tgt.astype(float), N, ph), 2 * np.pi * u, inp.astype(complex))
        if N == 0:
            close("the start", p, 2 * np.pi * u, 1e-5 * L.eps)


@case("C20", 14)
def mraf(D, L):
    v = Dv(D, L, 1, 7, "lcos")
    r, inp, tgt = lcos_problem(D, L, v)
    N = D.pick("N", [0, 1, 1, 2, 3])
    m = D.pick("mixing", [None, .4, .7, .1, 1.0])
    kind = D.pick("window", ["binary", "soft", "ones", "profile"])
    if kind == "soft" and D.int("no mixing", 0, 2) == 0:
        m = D.pick("zero", [0, 0.0])
    x, y = v.uv()
    if kind == "profile":
        q = v.lf / v.d / 4
        w = L.window.RectangularWindowCircular(q / 9, -q / 7, q)
        win = ((x - q / 9) ** 2 + (y + q / 7) ** 2 <= q * q) * 1.0
        if np.any(np.abs(np.hypot(x - q / 9, y + q / 7) - q) < 1e-5 * q):
            raise Skip
    else:
        w = win = {"binary": (r.random(v.shape) < .5) * 1.0, "soft": r.random(v.shape).astype(L.R).astype(float), "ones": np.ones(v.shape)}[kind]
    n = len(fakes.DRAWS)
    v.o.calculate_hologram(inp, tgt, method="mraf", N=N, signal_window=w, **({} if m is None else {"mixing_factor": m}))
    p = result_ok(L, v, N)
    u = drawn(p, n)
    mm = .4 if m is None else m
    phases_agree(L, "phase after %d iterations" % N, p, lambda ph, i: S.mraf(i, tgt.astype(float), N, ph, win, mm), 2 * np.pi * u, inp.astype(complex))


@case("C19", 1, (64,))
@case("C20", 1, (64,))
def default_iterations_lcos(D, L):
    "one by one on single-row devices, where the iteration stays well conditioned"
    for k in range(6):
        v = Dv(D, L, 1, 3, "lcos", tag="d%d" % k)
        r = D.seed("x%d" % k)
        inp, tgt = crand(r, v.shape, .3), r.uniform(.1, 1, v.shape)
        for method in ("gs", "mraf"):
            n = len(fakes.DRAWS)
            win = (r.random(v.shape) < .6) * 1.0
            v.o.calculate_hologram(inp, tgt, method=method, **({} if method == "gs" else {"signal_window": win}))
            try:
                u = drawn(v.o.slm_state, n)
                f = (lambda ph, i: S.gs(i, tgt, 200, ph)) if method == "gs" else (lambda ph, i: S.mraf(i, tgt, 200, ph, win, .4))
                phases_agree(L, method + " with default N", v.o.slm_state, f, 2 * np.pi * u, inp)
            except Skip:
                pass


@case("C21", 12)
def modulator(D, L):
    v = Dv(D, L, 1, 7, "lcos")
    r, inp, tgt = lcos_problem(D, L, v)
    s = v.sim(L, D.int("px", 0, 2), D.int("py", 0, 2))
    px, py = s.padding_x, s.padding_y

    def out(what, phase):
        s.propagate_to_image(inp)
        close(what, s.output_field, S.pad(inp * np.exp(1j * phase), px, py), 2e-5 * L.eps)
    out("fresh device", np.zeros(v.shape))
    ph = r.uniform(-7, 7, v.shape).astype(L.R)
    v.o.slm_state = ph
    out("a phase map", ph.astype(float))
    v.o.reset_slm_state()
    out("after reset", np.zeros(v.shape))
    w = Dv(D, L, 2, 3, "lcos", tag="o_")
    v.o.slm_state = ph
    w.o.reset_slm_state()
    out("another device reset", ph.astype(float))
    meth = D.pick("method", ["gs", "mraf"])
    N = D.pick("N", [1, 2])
    n = len(fakes.DRAWS)
    v.o.calculate_hologram(inp, tgt, method=meth, N=N, **({} if meth == "gs" else {"signal_window": np.ones(v.shape)}))
    p = np.array(v.o.slm_state).astype(float)
    out("a hologram", p)
    s0 = v.sim(L, 0, 0)
    s0.propagate_to_image(inp)
    im = S.image_field(inp * np.exp(1j * p), v.d, v.lf)
    sc = v.d ** 2 / v.lf * v.Nx * v.Ny
    close("image of the hologram", s0.image_plane_intensity, np.abs(im) ** 2, 5e-5 * L.eps * sc * sc)


@case("C21", 3, (64,))
def looks_like_target(D, L):
    "many iterations: the simulated image is closer to the target than to its mirrored copy"
    v = Dv(D, L, 8, 12, "lcos")
    r, inp, tgt = lcos_problem(D, L, v)
    tgt = np.zeros(v.shape)
    tgt[1:3, 1:4] = 1
    v.o.calculate_hologram(inp, tgt, method="gs", N=40)
    s = v.sim(L, 0, 0)
    s.propagate_to_image(inp)
    I = s.image_plane_intensity
    true("image at the target", I[1:3, 1:4].sum() > .4 * I.sum(), I[1:3, 1:4].sum() / I.sum())


@case("C22", 12)
def updates(D, L):
    v = Dv(D, L, 2, 9, "dmd")
    w = Dv(D, L, 2, 4, "dmd", tag="o_")
    st = None
    true("fresh", v.o.dmd_state.dtype == bool and v.o.dmd_state.shape == v.shape and not v.o.dmd_state.any())
    wst = np.array(w.o.dmd_state)
    kept = []
    for k in range(D.int("steps", 2, 5)):
        op = D.pick("op%d" % k, ["off", "on", "patch", "patch", "patch", "grating", "user"])
        before = np.array(v.o.dmd_state)
        if op in ("off", "on"):
            getattr(v.o, "set_dmd_state_" + op)()
            s = v.o.dmd_state
            true(op, s.dtype == bool and s.shape == v.shape and np.all(s == (op == "on")))
        elif op == "user":
            r = D.seed("u%d" % k)
            v.o.dmd_state = (r.random(v.shape) < .5) if D.bool("ub%d" % k) else r.random(v.shape).astype(L.R)
        else:
            a, pi, po = maps(D, L, v, "m%d" % k)
            m = D.pick("method%d" % k, ["ideal", "simple", "random", "ifta"])
            kw = {}
            if m == "ifta":
                r = D.seed("i%d" % k)
                kw = dict(input_profile=L.tf.constant(crand(r, v.shape).astype(L.C)), signal_window=L.tf.constant((r.random(v.shape) < .5).astype(L.C)), N=2)
            seed = D.int("tf%d" % k, 1, 99)
            ref = L.slm.DMD(v.wl, v.f, v.per, v.th, v.Nx, v.Ny, v.d, negative_order=v.neg)
            n = len(fakes.DRAWS)
            if op == "grating":
                v.o.set_dmd_grating_state(a[0], pi[0], po[0], method=m, **kw)
                true("boolean", m == "ideal" or v.o.dmd_state.dtype == bool)
            else:
                i, j = D.real("i%d_" % k, -1, v.Ny), D.real("j%d_" % k, -1, v.Nx)
                if D.bool("int%d" % k):
                    i, j = float(int(i)), float(int(j))
                d = D.pick("d%d" % k, [0, 1, 2, 3.5, 5, 2.0, 40])
                v.o.circular_patch(i, j, a[0], pi[0], po[0], d, method=m, **kw)
                ii, jj = np.meshgrid(np.arange(v.Ny), np.arange(v.Nx), indexing="ij")
                rr = np.hypot(ii - i, jj - j)
                near = (np.abs(rr - d / 2) < 1e-5) & (i != int(i) or j != int(j))
                inside = (rr < d / 2) & ~near
                if m == "random":
                    new = fakes.DRAWS[n:]
                    got = None
                    if len(new) == 1 and new[0].size == before.size:
                        dphi = gphase(v, L) - (po[1] - pi[1]) * (-1 if v.neg else 1)
                        p = S.on_prob(a[1], dphi, 10.0)
                        u = new[0].reshape(v.shape)
                        got, sure = u < p, (np.abs(p - u) > .02) & (np.abs(np.sin(dphi)) > 5e-3) & (a[1] < 1 - 1e-5)
                else:
                    ref.set_dmd_grating_state(a[0], pi[0], po[0], method=m, **kw)
                    got, sure = ref.dmd_state, True
                s = v.o.dmd_state
                same("outside the patch (%s)" % m, np.where(inside | near, 0, s.astype(float)), np.where(inside | near, 0, before.astype(float)))
                if got is not None:
                    h = S.lee(a[1], pi[1], po[1], gphase(v, L), v.neg)
                    sure = sure & (np.abs(h - .5) > 2 * gtol(L, v)) if m == "simple" else sure
                    close("inside the patch (%s)" % m, np.where(inside & sure, s.astype(float), 0), np.where(inside & sure, got.astype(float), 0), 1e-6 if m == "ideal" else 0)
                if before.dtype == bool and m != "ideal":
                    true("a boolean state stays boolean", s.dtype == bool, s.dtype)
        same("the other device", w.o.dmd_state, wst)
        for s, c in kept:
            pass
    x, y = L.slm.DMD(v.wl, v.f, v.per, v.th, v.Nx, v.Ny, v.d), L.slm.DMD(v.wl, v.f, v.per, v.th, v.Nx, v.Ny, v.d)
    x.dmd_state[0, 0] = True
    true("no sharing", not y.dmd_state.any())
    x.set_dmd_state_on()
    y.set_dmd_state_on()
    x.dmd_state[0, 0] = False
    true("no sharing after all-on", y.dmd_state.all())
    old = x.dmd_state
    x.set_dmd_state_off()
    true("a fresh state", x.dmd_state is not old)


@case("C23", 20)
def packing(D, L):
    v = Dv(D, L, 1, 13, "dmd")
    r = D.seed("s")
    st = r.random(v.shape) < .5
    k = D.pick("layout", ["c", "f", "strided", "readonly"])
    if k == "f":
        st = np.asfortranarray(st)
    elif k == "strided":
        st = (r.random((2 * v.Ny, 3 * v.Nx)) < .5)[::2, ::-3]
    elif k == "readonly":
        st.setflags(write=False)
    v.o.dmd_state = st
    c = np.array(st)
    b = v.o.pack_dmd_state()
    true("bytes", isinstance(b, bytes), type(b))
    n = v.Nx * v.Ny
    true("length", len(b) == (n + 7) // 8, len(b))
    bits = [(b[q // 8] >> (7 - q % 8)) & 1 for q in range(8 * len(b))]
    same("bits", np.array(bits[:n]), c.reshape(-1).astype(int))
    true("padding", not any(bits[n:]))
    same("the state", v.o.dmd_state, c)
    true("the state's type", v.o.dmd_state.dtype == bool)
    for dt in ("f4", "f8", "u1", "i4", "i8", "O", "c8"):
        v.o.dmd_state = c.astype(dt)
        raises("packing %s" % dt, TypeError, v.o.pack_dmd_state)
    v.o.set_dmd_grating_state(method="ideal")
    raises("greyscale", TypeError, v.o.pack_dmd_state)


@case("C32", 4)
def unknown_methods(D, L):
    v, w = Dv(D, L, 2, 5, "dmd"), Dv(D, L, 2, 5, "lcos", tag="l_")
    r = D.seed("s")
    v.o.dmd_state = r.random(v.shape) < .5
    w.o.slm_state = r.random(w.shape)
    st, sl = v.o.dmd_state, w.o.slm_state
    c, cl = st.copy(), sl.copy()
    names = ["Ideal", "IFTA", " ideal", "ideal ", "", "gs", "mraf", "nosuch", "random2", "sim", "Random", "simple\n"]
    lnames = ["GS", "gs ", "", "MRAF", "ideal", "random", "ifta", "nosuch", "mra"]
    for n in names + [None, 3, 0]:
        for f in (lambda: v.o.set_dmd_grating_state(method=n), lambda: v.o.circular_patch(1, 1, 1, 0, 0, 2, method=n),
                  lambda: v.o.calculate_dmd_state(1.0, np.ones(v.shape), method=n)):
            raises("mirror method %r" % (n,), ValueError, f, says=str(n))
            same("state", v.o.dmd_state, c)
            true("type", v.o.dmd_state.dtype == bool)
    for n in lnames + [None, 3, 0]:
        raises("phase method %r" % (n,), ValueError, lambda: w.o.calculate_hologram(1.0, np.ones(w.shape), method=n), says=str(n))
        same("state", w.o.slm_state, cl)
    # every documented name runs its algorithm
    a, pi, po = maps(D, L, v)
    h = S.lee(a[1], pi[1], po[1], gphase(v, L), v.neg)
    v.o.set_dmd_grating_state(a[0], pi[0], po[0], method="ideal")
    close("ideal", v.o.dmd_state, h, gtol(L, v))
    v.o.set_dmd_grating_state(a[0], pi[0], po[0], method="simple")
    near = np.abs(h - .5) < gtol(L, v)
    same("simple", v.o.dmd_state | near, (h > .5) | near)
    for m in ("random", None):
        n = len(fakes.DRAWS)
        v.o.set_dmd_grating_state(a[0], pi[0], po[0], **({"method": m} if m else {}))
        if len(fakes.DRAWS) == n + 1 and fakes.DRAWS[-1].size == h.size:
            dphi = gphase(v, L) - (po[1] - pi[1]) * (-1 if v.neg else 1)
            p, u = S.on_prob(a[1], dphi, 10.0), fakes.DRAWS[-1].reshape(v.shape)
            near = (np.abs(p - u) < .02) | (np.abs(np.sin(dphi)) < 5e-3) | (a[1] > 1 - 1e-5)
            same("random", v.o.dmd_state | near, (u < p) | near)
    f, hh, margin, inp = ifta_case(D, L, v, "set")
    if margin > 2e-3:
        f()
        same("ifta", v.o.dmd_state, hh > .5)




@case("C17", 2)
@case("C18", 2)
@case("C15", 2)
def earlier_devices(D, L):
    "devices of the same size that were used before and are gone do not matter"
    ny, nx = D.int("Ny", 2, 7), D.int("Nx", 2, 7)
    ms = ["ideal", "simple", "random", "ifta"]
    n = 0
    for k in D.seed("order").permutation(16)[:6]:
        a, b = ms[k // 4], ms[k % 4]
        for which in (a, b):
            n += 1
            per, th = D.real("p%d" % n, 2, 8), D.real("t%d" % n, -3, 3)
            d = L.slm.DMD(4e-7, .2, per, th, nx, ny, 1e-5)
            r = D.seed("m%d" % n)
            amp, pi, po = r.random((ny, nx)).astype(L.R), r.uniform(-3, 3, (ny, nx)).astype(L.R), r.uniform(-3, 3, (ny, nx)).astype(L.R)
            kw = {}
            if which == "ifta":
                kw = dict(input_profile=L.tf.constant(crand(r, (ny, nx)).astype(L.C)), signal_window=L.tf.constant(np.ones((ny, nx), L.C)), N=2)
            d.set_dmd_grating_state(amp, pi, po, method=which, **kw)
            s = np.array(d.dmd_state)
            true("shape", s.shape == (ny, nx) and (s.dtype == bool) == (which != "ideal"), (s.shape, s.dtype))
            ii, jj = np.meshgrid(np.arange(ny), np.arange(nx), indexing="ij")
            g = 2 * np.pi * ((jj - nx / 2) * np.cos(th) + (ny / 2 - ii) * np.sin(th)) / per
            h = S.lee(amp.astype(float), pi.astype(float), po.astype(float), g, False)
            if which == "ideal":
                close("ideal", s, h, 1e-4)
            if which == "simple":
                sure = np.abs(h - .5) > 1e-3
                same("simple", s & sure, (h > .5) & sure)
            d = None
            forget()


def forget():
    "what an arbitrarily long use of the library does to its bounded caches"
    import sys
    for n, m in list(sys.modules.items()):
        if n.split(".")[0] != "pySLM2":
            continue
        for o in list(vars(m).values()):
            for c in [o] + (list(vars(o).values()) if isinstance(o, type) else []):
                c = getattr(c, "fget", c)
                if hasattr(c, "cache_clear") and getattr(c, "cache_parameters", lambda: {})().get("maxsize") is not None:
                    c.cache_clear()
    gc.collect()

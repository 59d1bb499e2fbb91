from .common import *
from .sim import dmd_bool, dmd_grey
from .grids import sim
from .prof import opaque


def carrier(d, i, j):
    "grating phase of mirror (i, j)"
    x, y = dev_xy(d, i, j)
    s = T.add(T.mul(x, T.fn("cos", d.theta.t)), T.mul(y, T.fn("sin", d.theta.t)))
    return T.div(T.mul(num(2), T.PI(), s), T.mul(d.p.t, d.d.t))


def sgn(d):
    return ite(d.neg.t, num(-1), num(1)) if isinstance(d.neg, SBool) else num(-1 if d.neg else 1)


def theta_of(d, pin, pout):
    return lambda i, j: T.sub(carrier(d, i, j), T.mul(sgn(d), T.sub(pout(i, j), pin(i, j))))


def lee(d, amp, pin, pout):
    "the greyscale Lee hologram"
    th = theta_of(d, pin, pout)
    return lambda i, j: T.scale(T.mul(amp(i, j), T.add(num(1), T.fn("cos", th(i, j)))), T.Fraction(1, 2))


def unit_map(v, name, d, cls="np"):
    f = v.ndarray if cls == "np" else v.tensor
    a = f(name, (d.Ny, d.Nx), v.FT, gen=unit_gen, facts=unit_facts)
    return a, elem_of(a)


def real_map(v, name, d, cls="np"):
    f = v.ndarray if cls == "np" else v.tensor
    a = f(name, (d.Ny, d.Nx), v.FT)
    return a, elem_of(a)


def drawn(v, kind, name, d, unit=False):
    """a map given as array, tensor, number or profile, with its value at (i, j)"""
    if kind == "np" or kind == "tf":
        return (unit_map if unit else real_map)(v, name, d, kind)
    if kind == "number":
        a = v.real(name, lo=0, hi=1) if unit else v.real(name)
        return a, lambda i, j: a.t
    if kind == "profile":
        f = opaque(v, name)
        return f, lambda i, j: f.spec(*dev_xy(d, i, j))
    raise KeyError(kind)


def fresh_or_later(v):
    if v.config.get("before"):
        return earlier_device(v)
    v.package()
    return dmd(v)


# ---- C15 ----------------------------------------------------------------------------------------------------------
KINDS = ("np", "tf", "number", "profile")


def c15_state(v):
    "set_dmd_grating_state(method='ideal'): the Lee formula at every mirror, from any kind of amplitude and phase maps"
    d = fresh_or_later(v)
    a, ga = drawn(v, v.config["amp"], "amp", d, True)
    p, gp = drawn(v, v.config["in"], "phase_in", d)
    q, gq = drawn(v, v.config["out"], "phase_out", d)
    d.o.set_dmd_grating_state(a, p, q, method="ideal")
    spec = lee(d, ga, gp, gq)
    v.forall("state", d.o.dmd_state, (d.Ny, d.Nx), spec, v.FT, "np")
    i, j = v.idx("i", d.ny), v.idx("j", d.nx)
    if v.config["amp"] in ("np", "tf"):
        v.assume(and_(*unit_facts((i, j), ga(i, j))))
    g = spec(i, j)
    if v.config["amp"] != "profile":
        v.true("not negative", le(num(0), g))
        v.true("not above the amplitude", le(g, ga(i, j)))


def c15_defaults(v):
    "omitted arguments: full amplitude, no phases; keyword arguments"
    v.package()
    d = dmd(v)
    zero = lambda i, j: num(0)
    one = lambda i, j: num(1)
    d.o.set_dmd_grating_state(method="ideal")
    v.forall("plain", d.o.dmd_state, (d.Ny, d.Nx), lee(d, one, zero, zero), v.FT, "np")
    q, gq = real_map(v, "phase_out", d)
    d.o.set_dmd_grating_state(phase_out=q, method="ideal")
    v.forall("out", d.o.dmd_state, (d.Ny, d.Nx), lee(d, one, zero, gq), v.FT, "np")
    d.o.set_dmd_grating_state(phase_in=q, method="ideal")
    v.forall("in", d.o.dmd_state, (d.Ny, d.Nx), lee(d, one, gq, zero), v.FT, "np")
    # and both orders of the same device
    d.o.negative_order = not v.config["neg0"]
    d.neg = not v.config["neg0"]
    d.o.set_dmd_grating_state(amp=1, phase_in=0, phase_out=q, method="ideal")
    v.forall("switched", d.o.dmd_state, (d.Ny, d.Nx), lee(d, one, zero, gq), v.FT, "np")


def c15_lib(v):
    "_lib.calculate_dmd_grating(method='ideal') for arbitrary coordinate arrays, period and angle"
    v.package()
    L = v.module("_lib")
    n, m = v.int("n", 1), v.int("m", 1)
    sh = (n, m)
    a, p, q, x, y = [v.tensor(s, sh, v.FT) for s in ("amp", "phase_in", "phase_out", "x", "y")]
    per, th, neg = v.real("period", pos=True), v.real("theta"), v.bool("negative")
    tper, tth = v.tf.constant(per, dtype=v.FT), v.tf.constant(th, dtype=v.FT)
    r = L.calculate_dmd_grating(a, p, q, x, y, tper, tth, method="ideal", negative_order=neg)
    e = [elem_of(z) for z in (a, p, q, x, y)]

    def spec(i, j):
        A_, P, Q, X_, Y = [f(i, j) for f in e]
        g = T.div(T.mul(num(2), T.PI(), T.add(T.mul(X_, T.fn("cos", th.t)), T.mul(Y, T.fn("sin", th.t)))), per.t)
        t = T.sub(g, ite(neg.t, T.sub(P, Q), T.sub(Q, P)))
        return T.scale(T.mul(A_, T.add(num(1), T.fn("cos", t))), T.Fraction(1, 2))
    v.forall("grating", r, sh, spec, v.FT, "tf")


def earlier_device(v):
    """history: another device of the same size was used with method 'before' and then dropped, before the device under test
    is used (the traced functions of the library outlive devices)"""
    v.package()
    d = dmd(v)
    o = dmd(v, "old_", like=d)
    m = v.config["before"]
    if m == "ifta":
        n, sw = iterations(v, "old_N"), field(v, "old_sw", o)
        e, t = field(v, "old_light", o), field(v, "old_target", o)
        Matched(v, o, elem_of(e), elem_of(t))
        o.o.calculate_dmd_state(e, t, method=m, N=n, signal_window=sw)
    elif m == "patch":
        o.o.circular_patch(v.real("old_i"), v.real("old_j"), v.real("old_a", lo=0, hi=1), 0, 0, v.real("old_d"), method="simple")
    else:
        o.o.set_dmd_grating_state(*[real_map(v, "old_" + k, o)[0] for k in ("amp", "in", "out")], method=m)
    v.collect(o.o, live=[d.o])
    return d


# ---- C16 ----------------------------------------------------------------------------------------------------------
def spectrum(d, tgt, win=None):
    F = centred("fft2", (d.ny, d.nx), lambda i, j: cx(tgt(i, j)))
    return F if win is None else (lambda i, j: F(i, j) * cx(win(i, j)))


def nonzero(z):
    return T.ne(z.abs2(), num(0))


def ratio_of(d, F, E):
    def g(i, j):
        f, e = F(i, j), cx(E(i, j))
        return ite(nonzero(f), T.div(f.abs(), e.abs()), num(0))
    return g


class Matched:
    """the amplitude and phases the mode-matching step must produce"""

    def __init__(self, v, d, light, tgt, win=None):
        self.F, self.E = spectrum(d, tgt, win), lambda i, j: cx(light(i, j))
        self.ratio = ratio_of(d, self.F, self.E)
        self.M = A.max_term((d.ny, d.nx), self.ratio)
        v.assume(lt(num(0), self.M))
        self.amp = lambda i, j: T.div(self.ratio(i, j), self.M)
        self.pin = lambda i, j: self.E(i, j).angle()
        self.pout = lambda i, j: ite(nonzero(self.F(i, j)), self.F(i, j).angle(), num(0))

    def lit(self, v, i, j):
        "the illumination vanishes nowhere the target spectrum is nonzero"
        v.assume(T.implies(nonzero(self.F(i, j)), nonzero(self.E(i, j))))


def light_of(v, kind, d, name="light"):
    if kind == "tf":
        e = field(v, name, d)
        return e, elem_of(e)
    if kind == "np":
        e = v.ndarray(name, (d.Ny, d.Nx), "complex128")
        return e, elem_of(e)
    if kind == "number":
        a = v.real(name, nonzero=True)
        return a, lambda i, j: a.t
    f = opaque(v, name, True)
    return f, lambda i, j: f.spec(*dev_xy(d, i, j))


def target_of(v, kind, d, name="target"):
    if kind in ("tf", "np", "number"):
        return light_of(v, kind, d, name)
    f = opaque(v, name, v.config.get("ctarget", True))
    # its samples on the image plane: by the contract of profile_to_tensor (C08)
    return f, elem_of(d.o.profile_to_tensor(f, at_fourier_plane=False, complex=True))


def window_of(v, kind, d):
    if kind is None:
        return {}, None
    if kind == "profile":
        f = opaque(v, "win")
        return {"window": f}, lambda i, j: f.spec(*dev_xy(d, i, j))
    w = v.ndarray("win", (d.Ny, d.Nx), "complex128") if kind == "np" else field(v, "win", d)
    return {"window": w}, elem_of(w)


def matched(v, d):
    c = v.config
    e, ge = light_of(v, c.get("light", "tf"), d)
    t, gt = target_of(v, c.get("target", "tf"), d)
    w, gw = window_of(v, c.get("win"), d)
    return e, t, w, Matched(v, d, ge, gt, gw)


def c16_state(v):
    "calculate_dmd_state(method='ideal'): the Lee hologram of the mode-matched amplitude and phases, and the efficiency"
    v.package()
    c16_state_of(v, dmd(v))


def c16_orders(v):
    """what the 'state' contract establishes, read at one mirror: state times light = zeroth order + target spectrum on the
    carrier + twin; duties in [0, 1], full amplitude where the ratio is largest (lemma over arbitrary E, F, G, M)"""
    v.package()
    d = type("P", (), {})()
    d.neg = v.bool("negative")
    E = Cx(v.real("E_re").t, v.real("E_im").t)
    F = Cx(v.real("F_re").t, v.real("F_im").t) if v.config["F"] else Cx(num(0), num(0))
    M, g = v.real("M", pos=True).t, v.real("G").t
    if v.config["F"]:
        v.assume(nonzero(F))
        v.assume(nonzero(E))
        a, pout = T.div(T.div(F.abs(), E.abs()), M), F.angle()
    else:
        a, pout = num(0), num(0)
    s = sgn(d)
    pin = E.angle()
    st = T.scale(T.mul(a, T.add(num(1), T.fn("cos", T.sub(g, T.mul(s, T.sub(pout, pin)))))), T.Fraction(1, 2))
    G = T.mul(s, g)
    first = F * expi(T.scale(G, -1)) * T.div(T.num(T.Fraction(1, 4)), M)
    twin = expi(T.add(G, T.sub(T.scale(pin, 2), pout))) * T.scale(T.mul(a, E.abs()), T.Fraction(1, 4))
    v.eq("orders", E * st, E * T.scale(a, T.Fraction(1, 2)) + first + twin)
    v.true("duty >= 0", le(num(0), st))
    v.true("duty <= amplitude", le(st, a))


def c16_bounds(v):
    "no amplitude exceeds 1, and the brightest required mirror has exactly 1 (ratio <= M, M attained)"
    M, r = v.real("M", pos=True).t, v.real("ratio", lo=0).t
    if v.config["brightest"]:
        v.assume(T.eq(r, M))
        v.eq("amplitude", T.div(r, M), num(1))
    else:
        v.assume(le(r, M))
        v.true("amplitude", and_(le(num(0), T.div(r, M)), le(T.div(r, M), num(1))))


def c16_carrier(v):
    "the grating carrier is the one that belongs to the published first-order origin"
    v.package()
    d = dmd(v)
    ox, oy = pair(v, "origin", d.o.first_order_origin)
    i, j = v.idx("i", d.ny), v.idx("j", d.nx)
    x, y = dev_xy(d, i, j)
    v.eq("carrier points at the origin", carrier(d, i, j),
         T.div(T.mul(num(2), T.PI(), T.add(T.mul(x, tm(v.value(ox))), T.mul(y, tm(v.value(oy))))), d.lf))


def c16_image(v):
    "the simulated image of the chosen first order is efficiency / 4 times the target, moved to the carrier"
    v.package()
    d = dmd(v)
    e, t, w, m = matched(v, d)
    eta = d.o.calculate_dmd_state(e, t, method="ideal", **w)
    # the order without its carrier, propagated as the simulation does (C04), is efficiency/4 times the (windowed) target
    scale = T.div(T.mul(d.d.t, d.d.t, d.nx, d.ny), d.lf)
    i, j = v.idx("i", d.ny), v.idx("j", d.nx)
    fwd = centred("ifft2", (d.ny, d.nx), lambda a, b: m.F(a, b))
    quarter = T.div(num(T.Fraction(1, 4)), m.M)
    v.eq("order image", fwd(i, j) * T.mul(scale, quarter), fwd(i, j) * T.scale(tm(v.value(eta)), T.Fraction(1, 4)))


def c16_again(v):
    "the result depends on the arguments only: a second call with other light and target gives the second hologram"
    v.package()
    d = dmd(v)
    e0, _ = light_of(v, "tf", d, "light0")
    t0, _ = target_of(v, "tf", d, "target0")
    w0 = field(v, "win0", d)
    v.assume(lt(num(0), A.max_term((d.ny, d.nx), ratio_of(d, spectrum(d, elem_of(t0), elem_of(w0)), elem_of(e0)))))
    d.o.calculate_dmd_state(e0, t0, method="ideal", window=w0)
    c16_state_of(v, d)


def c16_state_of(v, d):
    e, t, w, m = matched(v, d)
    eta = d.o.calculate_dmd_state(e, t, method="ideal", **w)
    v.eq("efficiency", eta, T.div(T.mul(d.d.t, d.d.t, d.nx, d.ny), T.mul(d.lf, m.M)))
    c = v.array("state", d.o.dmd_state, (d.Ny, d.Nx), v.FT, "np")
    if c is None:
        return
    i, j = v.idx("i", d.ny), v.idx("j", d.nx)
    m.lit(v, i, j)
    v.eq("state", c.at(i, j), lee(d, m.amp, m.pin, m.pout)(i, j))


# ---- C17 ----------------------------------------------------------------------------------------------------------
def c17_simple(v):
    "'simple': on exactly where the greyscale value exceeds 1/2; boolean state of device shape that packs"
    d = fresh_or_later(v)
    a, ga = drawn(v, v.config["amp"], "amp", d, True)
    p, gp = drawn(v, v.config["in"], "phase_in", d)
    q, gq = drawn(v, v.config["out"], "phase_out", d)
    d.o.set_dmd_grating_state(a, p, q, method="simple")
    g = lee(d, ga, gp, gq)
    v.forall("state", d.o.dmd_state, (d.Ny, d.Nx), lambda i, j: lt(num(T.Fraction(1, 2)), g(i, j)), "bool", "np")
    _, e = v.attempt(d.o.pack_dmd_state)
    v.true("packs", e is None)


def c17_simple_profile(v):
    "calculate_dmd_state(method='simple') thresholds the mode-matched greyscale hologram"
    v.package()
    d = dmd(v)
    e, t, w, m = matched(v, d)
    d.o.calculate_dmd_state(e, t, method="simple", **w)
    c = v.array("state", d.o.dmd_state, (d.Ny, d.Nx), "bool", "np")
    if c is None:
        return
    i, j = v.idx("i", d.ny), v.idx("j", d.nx)
    m.lit(v, i, j)
    v.eq("state", c.at(i, j), lt(num(T.Fraction(1, 2)), lee(d, m.amp, m.pin, m.pout)(i, j)))


def uniforms(*vals):
    return [x for x in A.arrays_in(*vals) if x.kind == "uniform"]


def fold(x):
    "the folded grating phase in [0, pi]"
    return T.fn("acos", T.fn("cos", x))


def on_probability(amp, phase, r):
    q, w = fold(phase), T.fn("asin", amp)
    return T.scale(T.sub(T.fn("tanh", T.mul(r, T.add(q, w))), T.fn("tanh", T.mul(r, T.sub(q, w)))), T.Fraction(1, 2))


def check_random(v, name, d, ga, gp, gq, r, other=None):
    """the state is U < probability for exactly one fresh uniform array U with an own draw for every mirror"""
    c = v.array(name, d.o.dmd_state, (d.Ny, d.Nx), "bool", "np")
    if c is None:
        return None
    i, j = v.idx("i_" + name, d.ny), v.idx("j_" + name, d.nx)
    x = c.at(i, j)
    us = uniforms(x)
    if len(us) != 1:
        v.fail(name + ".one-draw", "%d random arrays" % len(us))
        return None
    u = us[0]
    v.true(name + ".fresh", other is None or u is not other)
    if u.rank != 2:
        v.fail(name + ".draw-shape", "rank %d" % u.rank)
        return None
    for k, (s, w) in enumerate(zip(u.shape, (d.ny, d.nx))):
        v.eq(name + ".draw-shape%d" % k, s, w)
    th = theta_of(d, gp, gq)
    v.eq(name, x, lt(u.at((i, j)), on_probability(ga(i, j), th(i, j), r)))
    return u


def c17_random(v):
    "'random': a fresh independent draw from [0, 1) below the stated probability; two calls draw anew"
    d = fresh_or_later(v)
    a, ga = drawn(v, v.config["amp"], "amp", d, True)
    p, gp = drawn(v, v.config["in"], "phase_in", d)
    q, gq = drawn(v, v.config["out"], "phase_out", d)
    if v.config["r"]:
        r = v.real("r", lo=0)
        kw, rt = {"r": r}, r.t
    else:
        kw, rt = {}, num(10)
    if v.config["method"]:
        kw["method"] = "random"
    u = check_random(v, "first", d, (d.o.set_dmd_grating_state(a, p, q, **kw), ga)[1], gp, gq, rt)
    d.o.set_dmd_grating_state(a, p, q, **kw)
    check_random(v, "second", d, ga, gp, gq, rt, u)
    _, e = v.attempt(d.o.pack_dmd_state)
    v.true("packs", e is None)


def c17_random_profile(v):
    "calculate_dmd_state with method 'random' (the default)"
    v.package()
    d = dmd(v)
    e, t, w, m = matched(v, d)
    kw = dict(w)
    if v.config.get("r"):
        r = v.real("r", lo=0)
        kw["r"] = r
        rt = r.t
    else:
        rt = num(10)
    if v.config["method"]:
        kw["method"] = "random"
    d.o.calculate_dmd_state(e, t, **kw)
    c = v.array("state", d.o.dmd_state, (d.Ny, d.Nx), "bool", "np")
    if c is None:
        return
    i, j = v.idx("i", d.ny), v.idx("j", d.nx)
    m.lit(v, i, j)
    x = c.at(i, j)
    us = uniforms(x)
    if len(us) != 1 or us[0].rank != 2:
        v.fail("one-draw", "%d random arrays" % len(us))
        return
    v.eq("draw-shape0", us[0].shape[0], d.ny)
    v.eq("draw-shape1", us[0].shape[1], d.nx)
    th = theta_of(d, m.pin, m.pout)
    v.eq("state", x, lt(us[0].at((i, j)), on_probability(m.amp(i, j), th(i, j), rt)))


def c17_probability(v):
    "for amplitudes in [0, 1] the on-probability lies in [0, 1), and is 0 where the amplitude is 0 (lemma on the formula)"
    a, x, r = v.real("amp", lo=0, hi=1), v.real("phase"), v.real("r", lo=0)
    q, w = fold(x.t), T.fn("asin", a.t)
    tp, tm_ = T.fn("tanh", T.mul(r.t, T.add(q, w))), T.fn("tanh", T.mul(r.t, T.sub(q, w)))
    p = on_probability(a.t, x.t, r.t)
    v.lemma("tanh is increasing", T.implies(le(T.sub(q, w), T.add(q, w)), le(tm_, tp)))
    v.lemma("asin maps [0, 1] into [0, pi/2], asin 0 = 0", and_(le(num(0), w), T.implies(T.eq(a.t, num(0)), T.eq(w, num(0)))))
    v.lemma("|tanh| < 1", and_(lt(tp, num(1)), lt(num(-1), tm_)))
    v.assume(le(num(0), r.t))
    v.true("not negative", le(num(0), p))
    v.true("below one", lt(p, num(1)))
    if v.config.get("off"):
        v.assume(T.eq(a.t, num(0)))
        v.lemma("tanh is a function", T.implies(T.eq(T.mul(r.t, T.add(q, w)), T.mul(r.t, T.sub(q, w))), T.eq(tp, tm_)))
        v.lemma("asin 0 = 0", T.eq(w, num(0)))
        v.eq("zero amplitude is always off", p, num(0))


# ---- C18 ----------------------------------------------------------------------------------------------------------
def ifta_spec(d, start, light, window, n):
    """value of every mirror after n iterations, before the final threshold"""
    if n is num(0):
        return start
    sh = (d.ny, d.nx)
    ideal = A.transform("ifft2", sh, lambda i, j: cx(light(i, j)) * start(i, j))
    win = lambda i, j: cx(window(from_centre(i, d.ny), from_centre(j, d.nx)))

    def step(k, cur, i, j):
        t = T.div(T.add(k, num(1)), T.scale(n, 2))

        def forced(a, b):
            g = cur(a, b)
            return ite(lt(g, t), num(0), ite(lt(T.sub(num(1), t), g), num(1), g))
        image = A.transform("ifft2", sh, lambda a, b: cx(light(a, b)) * forced(a, b))
        mixed = A.transform("fft2", sh, lambda a, b: (ideal.at((a, b)) - image.at((a, b))) * win(a, b) + image.at((a, b)))
        e = cx(light(i, j))
        return ite(nonzero(e), (mixed.at((i, j)) / e).re, num(0))
    return iterate(sh, False, start, step, n)


def ifta_args(v):
    kw = {}
    if v.config["N"] == "zero":
        kw["N"], nt = 0, num(0)
    elif v.config["N"]:
        n = iterations(v)
        kw["N"] = n
        nt = n.t
    else:
        nt = num(200)
    if v.config["s"]:
        s = v.real("s")
        kw["s"] = s
        st = s.t
    else:
        st = num(1)
    return kw, nt, st


def c18_ifta(v):
    "calculate_dmd_state(method='ifta') performs exactly the documented iterations on the mode-matched hologram"
    d = fresh_or_later(v)
    e, t, w, m = matched(v, d)
    if v.config["sw"] == "profile":
        sw = opaque(v, "signal_window")
        gs = elem_of(d.o.profile_to_tensor(sw, at_fourier_plane=False, complex=True))
    else:
        sw = v.ndarray("signal_window", (d.Ny, d.Nx), "float64", gen=lambda r, s: r.integers(0, 2, size=s).astype(float))
        gs = elem_of(sw)
    kw, n, s = ifta_args(v)
    eta = d.o.calculate_dmd_state(e, t, method="ifta", signal_window=sw, **kw, **w)
    v.eq("efficiency", eta, T.div(T.mul(d.d.t, d.d.t, d.nx, d.ny), T.mul(d.lf, m.M)))
    g = lee(d, m.amp, m.pin, m.pout)
    start = lambda i, j: T.mul(s, g(i, j))
    spec = ifta_spec(d, start, m.E, gs, n)
    # where the light vanishes but the target spectrum does not, the ideal hologram is not defined
    v.forall("state", d.o.dmd_state, (d.Ny, d.Nx), lambda i, j: lt(num(T.Fraction(1, 2)), spec(i, j)), "bool", "np")


def c18_lib(v):
    "_lib.calculate_dmd_grating(method='ifta') on arbitrary amplitude, phases, coordinates, light and window"
    v.package()
    L = v.module("_lib")
    D = type("D", (), {})()
    D.Ny, D.Nx = v.int("n", 1), v.int("m", 1)
    D.ny, D.nx = D.Ny.t, D.Nx.t
    sh = (D.Ny, D.Nx)
    a, p, q, x, y = [v.tensor(s, sh, v.FT) for s in ("amp", "phase_in", "phase_out", "x", "y")]
    lig, sw = v.tensor("light", sh, v.CT), v.tensor("signal_window", sh, v.CT)
    per, th, neg = v.real("period", pos=True), v.real("theta"), v.bool("negative")
    tper, tth = v.tf.constant(per, dtype=v.FT), v.tf.constant(th, dtype=v.FT)
    kw, n, s = ifta_args(v)
    r = L.calculate_dmd_grating(a, p, q, x, y, tper, tth, method="ifta", negative_order=neg, input_profile=lig,
                                signal_window=sw, **kw)
    e = [elem_of(z) for z in (a, p, q, x, y)]

    def start(i, j):
        A_, P, Q, X_, Y = [f(i, j) for f in e]
        g = T.div(T.mul(num(2), T.PI(), T.add(T.mul(X_, T.fn("cos", th.t)), T.mul(Y, T.fn("sin", th.t)))), per.t)
        t = T.sub(g, ite(neg.t, T.sub(P, Q), T.sub(Q, P)))
        return T.mul(s, T.scale(T.mul(A_, T.add(num(1), T.fn("cos", t))), T.Fraction(1, 2)))
    spec = ifta_spec(D, start, elem_of(lig), elem_of(sw), n)
    v.forall("state", r, sh, lambda i, j: lt(num(T.Fraction(1, 2)), spec(i, j)), "bool", "tf")


# ---- C22 ----------------------------------------------------------------------------------------------------------
def as_number(b):
    return ite(b, num(1), num(0)) if b.sort == "B" else b


def c22_onoff(v):
    "all-off and all-on give fresh boolean states of the device shape, whatever the state was; devices share nothing"
    v.package()
    d, e = dmd(v), dmd(v, "other_")
    sh, sh2 = (d.Ny, d.Nx), (e.Ny, e.Nx)
    off, on = (lambda i, j: T.FALSE()), (lambda i, j: T.TRUE())
    v.forall("new", d.o.dmd_state, sh, off, "bool", "np")
    kept = v.ndarray("before", sh, v.FT) if v.config["before"] == "grey" else v.ndarray("before", sh, "bool")
    k0 = elem_of(kept)
    d.o.dmd_state = kept
    d.o.set_dmd_state_on()
    first = d.o.dmd_state
    v.forall("on", d.o.dmd_state, sh, on, "bool", "np")
    v.forall("replaced array", kept, sh, k0)
    v.forall("other new", e.o.dmd_state, sh2, off, "bool", "np")
    e.o.set_dmd_state_on()
    d.o.set_dmd_state_off()
    v.forall("off", d.o.dmd_state, sh, off, "bool", "np")
    v.forall("other on", e.o.dmd_state, sh2, on, "bool", "np")
    v.forall("earlier state", first, sh, on, "bool", "np")
    # the states are own arrays: writing into one changes nothing else
    d.o.dmd_state[0, 0] = True
    f = dmd(v, "third_")
    v.forall("third", f.o.dmd_state, (f.Ny, f.Nx), off, "bool", "np")
    d.o.set_dmd_state_off()
    v.forall("off again", d.o.dmd_state, sh, off, "bool", "np")
    e.o.dmd_state[0, 0] = False
    e.o.set_dmd_state_on()
    v.forall("on again", e.o.dmd_state, sh2, on, "bool", "np")


def patch_args(v, d):
    ci = v.real("ci") if v.config.get("centre") != "int" else v.int("ci")
    cj = v.real("cj") if v.config.get("centre") != "int" else v.int("cj")
    dia = v.real("diameter", lo=0)
    a, ga = drawn(v, v.config["amp"], "amp", d, True)
    p, gp = drawn(v, v.config["in"], "phase_in", d)
    q, gq = drawn(v, v.config["out"], "phase_out", d)

    def inside(i, j):
        return lt(dist2(T.sub(j, tm(cj)), T.sub(i, tm(ci))), T.scale(T.mul(dia.t, dia.t), T.Fraction(1, 4)))
    return ci, cj, dia, a, p, q, ga, gp, gq, inside


def before_state(v, d):
    st = v.ndarray("before", (d.Ny, d.Nx), "bool") if v.config["before"] == "bool" else \
        v.ndarray("before", (d.Ny, d.Nx), v.config["before"], gen=unit_gen, facts=unit_facts)
    d.o.dmd_state = st
    e = elem_of(st)
    return lambda i, j: as_number(e(i, j))


def c22_patch(v):
    "circular_patch: exactly the mirrors nearer than d/2 take the grating value, all others keep theirs"
    v.package()
    d = dmd(v)
    old = before_state(v, d)
    other = dmd(v, "other_")
    ci, cj, dia, a, p, q, ga, gp, gq, inside = patch_args(v, d)
    meth, kw = v.config["method"], {}
    if meth == "ifta":
        lig, sw = field(v, "light", d), field(v, "signal_window", d)
        n, s = iterations(v), v.real("s")
        kw = {"input_profile": lig, "signal_window": sw, "N": n, "s": s}
    elif meth == "random":
        r = v.real("r", lo=0)
        kw = {"r": r}
    d.o.circular_patch(ci, cj, a, p, q, dia, method=meth, **kw)
    c = v.array("patched", d.o.dmd_state, (d.Ny, d.Nx), None, "np")
    if c is None:
        return
    i, j = v.idx("i", d.ny), v.idx("j", d.nx)
    x = as_number(c.at(i, j))
    if meth == "ideal":
        new = lee(d, ga, gp, gq)(i, j)
    elif meth == "simple":
        new = as_number(lt(num(T.Fraction(1, 2)), lee(d, ga, gp, gq)(i, j)))
    elif meth == "random":
        us = uniforms(x)
        if len(us) != 1 or us[0].rank != 2:
            v.fail("one-draw", "%d random arrays" % len(us))
            return
        v.eq("draw-shape0", us[0].shape[0], d.ny)
        v.eq("draw-shape1", us[0].shape[1], d.nx)
        new = as_number(lt(us[0].at((i, j)), on_probability(ga(i, j), theta_of(d, gp, gq)(i, j), r.t)))
    else:
        g = lee(d, ga, gp, gq)
        spec = ifta_spec(d, lambda i, j: T.mul(s.t, g(i, j)), elem_of(lig), elem_of(sw), n.t)
        new = as_number(lt(num(T.Fraction(1, 2)), spec(i, j)))
    v.eq("mirror", x, ite(inside(i, j), new, old(i, j)))
    if meth != "ideal" and v.config["before"] == "bool":
        v.true("stays boolean", c.dtype == "bool")
    v.forall("other device", other.o.dmd_state, (other.Ny, other.Nx), lambda i, j: T.FALSE(), "bool", "np")


def c22_two(v):
    "two patches, the later one wins where they overlap; then all-off clears everything"
    v.package()
    d = dmd(v)
    old = before_state(v, d)
    c1, k1, d1 = v.real("c1"), v.real("k1"), v.real("d1", lo=0)
    c2, k2, d2 = v.real("c2"), v.real("k2"), v.real("d2", lo=0)
    a1, g1 = unit_map(v, "amp1", d)
    a2, g2 = unit_map(v, "amp2", d)
    zero = lambda i, j: num(0)
    ms = v.config["methods"]
    d.o.circular_patch(c1, k1, a1, 0, 0, d1, method=ms[0])
    d.o.circular_patch(c2, k2, a2, 0, 0, d2, ms[1])

    def ins(c, k, dd, i, j):
        return lt(dist2(T.sub(j, k.t), T.sub(i, c.t)), T.scale(T.mul(dd.t, dd.t), T.Fraction(1, 4)))

    def value(m, g, i, j):
        z = lee(d, g, zero, zero)(i, j)
        return as_number(lt(num(T.Fraction(1, 2)), z)) if m == "simple" else z
    c = v.array("state", d.o.dmd_state, (d.Ny, d.Nx), None, "np")
    if c is None:
        return
    i, j = v.idx("i", d.ny), v.idx("j", d.nx)
    v.eq("mirror", as_number(c.at(i, j)), ite(ins(c2, k2, d2, i, j), value(ms[1], g2, i, j),
                                               ite(ins(c1, k1, d1, i, j), value(ms[0], g1, i, j), old(i, j))))
    d.o.set_dmd_state_off()
    v.forall("off", d.o.dmd_state, (d.Ny, d.Nx), lambda i, j: T.FALSE(), "bool", "np")


# ---- C23 ----------------------------------------------------------------------------------------------------------
def c23_pack(v):
    "byte b of the packed state holds mirrors 8b .. 8b+7, most significant first, zero padded; the state is unchanged"
    v.package()
    d = dmd_bool(v)
    keep = elem_of(d.state)
    for k in range(2):
        r = d.o.pack_dmd_state()
        if not isinstance(r, X.SBytes):
            raise Unsupported("packed state is a %s" % type(r).__name__)
        c = r.core
        n = T.mul(d.nx, d.ny)
        if c.dtype != "uint8" or c.rank != 1:
            v.fail("bytes", "%s of rank %d" % (c.dtype, c.rank))
            return
        v.eq("length%d" % k, c.shape[0], T.fdiv(T.add(n, num(7)), num(8)))
        b = v.idx("byte", T.fdiv(T.add(n, num(7)), num(8)))

        def bit(q):
            m = T.add(T.scale(b, 8), num(q))
            return ite(and_(lt(m, n), keep(T.fdiv(m, d.nx), T.mod(m, d.nx))), num(1), num(0))
        v.eq("byte%d" % k, c.at(b), T.add(*[T.scale(bit(q), 1 << (7 - q)) for q in range(8)]))
        v.forall("state%d" % k, d.o.dmd_state, (d.Ny, d.Nx), keep, "bool", "np")
    # a changed state is packed anew
    s2 = v.ndarray("state2", (d.Ny, d.Nx), "bool")
    k2 = elem_of(s2)
    d.o.dmd_state = s2
    r = d.o.pack_dmd_state()
    if not isinstance(r, X.SBytes):
        raise Unsupported("packed state is a %s" % type(r).__name__)
    m = T.scale(b, 8)
    v.eq("new state", r.core.at(b), T.add(*[T.scale(ite(and_(lt(T.add(m, num(q)), n),
         k2(T.fdiv(T.add(m, num(q)), d.nx), T.mod(T.add(m, num(q)), d.nx))), num(1), num(0)), 1 << (7 - q)) for q in range(8)]))


def c23_refuse(v):
    "a state of any other type is refused with TypeError and left alone"
    v.package()
    d = dmd(v)
    for dt in ("float32", "float64", "uint8", "int64", "complex64"):
        st = v.ndarray("state_" + dt, (d.Ny, d.Nx), dt)
        keep = elem_of(st)
        d.o.dmd_state = st
        v.raises("refuse " + dt, TypeError, d.o.pack_dmd_state)
        v.forall("left " + dt, d.o.dmd_state, (d.Ny, d.Nx), keep, dt, "np")
    d.o.set_dmd_grating_state(method="ideal")
    v.raises("refuse greyscale", TypeError, d.o.pack_dmd_state)
    d.o.set_dmd_state_on()
    r, e = v.attempt(d.o.pack_dmd_state)
    v.true("packs again", e is None)


# ---- C28 ----------------------------------------------------------------------------------------------------------
def check_params(v, name, d, o=None):
    o = o or d.o
    for n, x in (("wavelength", d.wl), ("focal_length", d.f), ("pixel_size", d.d), ("Nx", d.Nx), ("Ny", d.Ny)):
        v.eq(name + n, tm(getattr(o, n)), tm(x))
    v.eq(name + "scaling_factor", tm(o.scaling_factor), d.lf)


def origin_of(d):
    k = T.div(d.lf, T.mul(d.p.t, d.d.t))
    return T.mul(T.fn("cos", d.theta.t), k), T.mul(T.fn("sin", d.theta.t), k)


def check_origin(v, name, d, o):
    x, y = pair(v, name, o.first_order_origin)
    a, b = origin_of(d)
    v.eq(name + ".x", v.value(x), a)
    v.eq(name + ".y", v.value(y), b)


def c28_slm(v):
    "parameters are reported as given, scaling factor = wavelength * focal length; unaffected by other devices and grids"
    v.package()
    kind = v.config["dev"]
    mk = {"slm": slm, "dmd": dmd, "lcos": lcos}[kind]
    d = mk(v)
    check_params(v, "new.", d)
    e = mk(v, "other_")
    d.o.fourier_plane_grid
    d.o.image_plane_grid
    d.o.profile_to_tensor(v.real("c"), at_fourier_plane=False, complex=True)
    check_params(v, "used.", d)
    check_params(v, "other.", e)


def c28_dmd(v):
    "the first-order origin, for device and simulation, before and after use"
    v.package()
    d = dmd(v)
    e = dmd(v, "other_")
    check_origin(v, "origin", d, d.o)
    v.eq("theta", v.value(d.o.theta), d.theta.t)
    s = sim(v, d, v.m.DMDSimulation)
    check_origin(v, "simulation", d, s.o)
    check_origin(v, "other", e, e.o)
    d.o.set_dmd_grating_state(v.real("amp", lo=0, hi=1), 0, v.real("po"), method=v.config["method"])
    d.o.circular_patch(v.real("ci"), v.real("cj"), 1, 0, 0, v.real("dia", lo=0), method="ideal")
    s.o.propagate_to_image(1.0)
    s.o.block_zeroth_order()
    check_origin(v, "origin after", d, d.o)
    check_origin(v, "simulation after", d, s.o)
    check_params(v, "after.", d)
    check_params(v, "sim.", type("Q", (), {"wl": d.wl, "f": d.f, "d": d.d, "lf": d.lf, "Nx": d.Nx, "Ny": d.Ny})(), d.o)


MODELS = {"DLP9500": (1920, 1080, T.Fraction(108, 10**7)), "DLP7000": (1024, 768, T.Fraction(1368, 10**8)),
          "DLP9000": (2560, 1600, T.Fraction(756, 10**8)), "PLUTO_2": (1920, 1080, T.Fraction(8, 10**6))}


def c28_models(v):
    "the catalogue models have their documented size and pitch, and everything else as given"
    v.package()
    nm = v.config["model"]
    nx, ny, pitch = MODELS[nm]
    d = type("D", (), {})()
    d.wl, d.f = v.real("wavelength", pos=True), v.real("focal", pos=True)
    d.lf = T.mul(d.wl.t, d.f.t)
    d.Nx, d.Ny, d.d = nx, ny, SFloat(num(pitch))
    if nm == "PLUTO_2":
        d.o = v.m.PLUTO_2(d.wl, d.f)
    else:
        d.p, d.theta, d.neg = v.real("periodicity", pos=True), v.real("theta"), v.bool("negative")
        d.o = getattr(v.m, nm)(d.wl, d.f, d.p, d.theta, negative_order=d.neg)
        check_origin(v, "origin", d, d.o)
        v.eq("negative_order", tm(d.o.negative_order), d.neg.t)
        plain = getattr(v.m, nm)(d.wl, d.f, d.p, d.theta)
        v.eq("positive by default", tm(plain.negative_order), T.FALSE())
    check_params(v, "", d)
    shape = (d.o.slm_state if nm == "PLUTO_2" else d.o.dmd_state).shape
    v.eq("state rows", tm(shape[0]), num(ny))
    v.eq("state columns", tm(shape[1]), num(nx))


# ---- C32 ----------------------------------------------------------------------------------------------------------
class SStr(str):
    """a method name that is none of the documented ones of this entry point; what else it equals is open"""
    def __new__(cls, v, documented):
        s = str.__new__(cls, "\u27e8another method\u27e9")
        s.v, s.documented = v, documented
        return s

    def __eq__(self, o):
        if o is self:
            return True
        if not isinstance(o, str) or o in self.documented:
            return False
        return bool(self.v.bool("method is %r" % str(o)))

    def __ne__(self, o): return not self == o
    def __hash__(self): return str.__hash__(self)
    def __str__(self): return str.__str__(self)
    def __format__(self, s): return str.__format__(self, s)


def _refuse(n):
    def f(self, *a, **k):
        raise Unsupported("str.%s of a symbolic method name" % n)
    return f


for _n in ("lower", "upper", "strip", "lstrip", "rstrip", "casefold", "startswith", "endswith", "replace", "split", "title", "capitalize",
           "find", "index", "count", "encode", "__getitem__", "__len__", "__contains__", "__lt__", "__le__", "__gt__", "__ge__"):
    setattr(SStr, _n, _refuse(_n))

DMD_METHODS, LCOS_METHODS = ("ideal", "simple", "random", "ifta"), ("gs", "mraf")


def check_refused(v, name, m, f, *a, **k):
    r, e = v.attempt(f, *a, method=m, **k)
    if e is None:
        v.fail(name, "accepted")
    elif not isinstance(e, ValueError):
        v.fail(name, "raises %s: %s" % (type(e).__name__, e))
    else:
        v.true(name + ".names it", str.__str__(m) in str(e))


def c32_dmd(v):
    "an undocumented method raises ValueError naming it and leaves the mirror state exactly as it was"
    v.package()
    d = dmd_bool(v) if v.config["state"] == "bool" else dmd_grey(v)
    keep, dt = elem_of(d.state), d.state.core.dtype
    m = SStr(v, DMD_METHODS) if v.config["name"] == "any" else v.config["name"]
    a, p, q = [real_map(v, n, d)[0] for n in ("amp", "phase_in", "phase_out")]
    en = v.config["entry"]
    if en == "grating":
        check_refused(v, "grating", m, d.o.set_dmd_grating_state, a, p, q)
    elif en == "patch":
        check_refused(v, "patch", m, d.o.circular_patch, v.real("ci"), v.real("cj"), a, p, q, v.real("dia"))
    else:
        e, t = field(v, "light", d), field(v, "target", d)
        check_refused(v, "profile", m, d.o.calculate_dmd_state, e, t)
        check_refused(v, "profile with window", m, d.o.calculate_dmd_state, e, t, window=field(v, "win", d))
    v.forall("state", d.o.dmd_state, (d.Ny, d.Nx), keep, dt, "np")


def c32_lcos(v):
    "an undocumented method raises ValueError naming it and leaves the displayed phase exactly as it was"
    from .sim import lcos_real
    v.package()
    d = lcos_real(v)
    keep, dt = elem_of(d.state), d.state.core.dtype
    m = SStr(v, LCOS_METHODS) if v.config["name"] == "any" else v.config["name"]
    e, t = field(v, "light", d), v.tensor("target", (d.Ny, d.Nx), v.FT)
    check_refused(v, "hologram", m, d.o.calculate_hologram, e, t)
    check_refused(v, "with arguments", m, d.o.calculate_hologram, e, t, N=iterations(v), signal_window=field(v, "sw", d))
    v.forall("state", d.o.slm_state, (d.Ny, d.Nx), keep, dt, "np")


def precs(*cfgs):
    return [dict(c, prec=p) for p in (32, 64) for c in (cfgs or ({},))]


HISTORY = ("ideal", "simple", "random", "ifta", "patch")
MAPS = {"amp": "np", "in": "np", "out": "np"}


CONTRACTS = {
    "C15": [Contract("state", c15_state, precs(
                {"amp": "np", "in": "np", "out": "np"}, {"amp": "tf", "in": "tf", "out": "tf"},
                {"amp": "number", "in": "number", "out": "number"}, {"amp": "profile", "in": "profile", "out": "profile"},
                {"amp": "number", "in": "np", "out": "profile"})),
            Contract("defaults", c15_defaults, precs({"neg0": True}, {"neg0": False})),
            Contract("library", c15_lib),
            Contract("history", c15_state, precs(*[dict(MAPS, before=b) for b in HISTORY]))],
    "C16": [Contract("state", c16_state, precs({"fft": "sym"}, {"win": "np"}, {"win": "profile", "target": "profile", "light": "profile"},
                                               {"win": "tf", "light": "np", "target": "np"}, {"light": "number", "fft": "sym", "win": "tf"})),
            Contract("orders", c16_orders, [{"prec": 32, "F": 1}, {"prec": 32, "F": 0}]),
            Contract("bounds", c16_bounds, [{"prec": 32, "brightest": b} for b in (0, 1)]),
            Contract("carrier", c16_carrier),
            Contract("image", c16_image, precs({}, {"win": "tf"})),
            Contract("again", c16_again, precs({}, {"win": "tf"}))],
    "C17": [Contract("simple", c17_simple, precs({"amp": "np", "in": "np", "out": "np"}, {"amp": "number", "in": "tf", "out": "profile"})),
            Contract("simple-matched", c17_simple_profile, precs({"fft": "sym"}, {"win": "tf"})),
            Contract("random", c17_random, precs({"amp": "np", "in": "np", "out": "np", "r": 1, "method": 1},
                                                 {"amp": "number", "in": "profile", "out": "tf", "r": 0, "method": 0})),
            Contract("random-matched", c17_random_profile, precs({"r": 1, "method": 1}, {"r": 0, "method": 0, "win": "tf"})),
            Contract("probability", c17_probability, [{"prec": 32}, {"prec": 32, "off": 1}]),
            Contract("history simple", c17_simple, precs(*[dict(MAPS, before=b) for b in HISTORY])),
            Contract("history random", c17_random, precs(*[dict(MAPS, before=b, r=1, method=1) for b in HISTORY]))],
    "C18": [Contract("iterations", c18_ifta, precs({"N": 1, "s": 1, "sw": "array"}, {"N": 0, "s": 0, "sw": "profile", "win": "tf"},
                                                         {"N": "zero", "s": 1, "sw": "array"})),
            Contract("library", c18_lib, precs({"N": 1, "s": 1}, {"N": 0, "s": 0}, {"N": "zero", "s": 1}, {"N": "zero", "s": 0})),
            Contract("history", c18_ifta, precs(*[{"N": 1, "s": 1, "sw": "array", "before": b} for b in HISTORY[:3]]), past=0)],
    "C22": [Contract("on-off", c22_onoff, precs({"before": "bool"}, {"before": "grey"})),
            Contract("patch", c22_patch, precs(
                *[dict({"method": m, "before": b, "amp": "np", "in": "np", "out": "np"})
                  for m, b in (("ideal", "bool"), ("ideal", "float32"), ("simple", "bool"), ("simple", "float32"), ("random", "bool"),
                               ("random", "float64"), ("ifta", "bool"))],
                {"method": "simple", "before": "bool", "amp": "number", "in": "profile", "out": "tf", "centre": "int"})),
            Contract("two", c22_two, precs({"before": "bool", "methods": ("simple", "simple")}, {"before": "bool", "methods": ("ideal", "simple")},
                                           {"before": "bool", "methods": ("simple", "ideal")}))],
    "C23": [Contract("pack", c23_pack), Contract("refuse", c23_refuse)],
    "C28": [Contract("parameters", c28_slm, precs({"dev": "slm"}, {"dev": "dmd"}, {"dev": "lcos"})),
            Contract("origin", c28_dmd, precs({"method": "ideal"}, {"method": "random"})),
            Contract("models", c28_models, precs(*[{"model": m} for m in MODELS]))],
    "C32": [Contract("mirrors", c32_dmd, precs(*[{"entry": e, "name": n, "state": s} for e in ("grating", "patch", "profile")
                                                 for n, s in (("any", "bool"), ("any", "grey"), ("gs", "bool"), ("mraf", "bool"))])),
            Contract("phase", c32_lcos, precs(*[{"name": n} for n in ("any",) + DMD_METHODS])),
            Contract("runs ideal", c15_defaults, precs({"neg0": False})),
            Contract("runs simple", c17_simple, precs({"amp": "np", "in": "np", "out": "np"})),
            Contract("runs random", c17_random, precs({"amp": "np", "in": "np", "out": "np", "r": 1, "method": 1})),
            Contract("runs ifta", c18_ifta, precs({"N": 1, "s": 1, "sw": "array"}))],
}

from .common import *
from .dmd import uniforms, light_of, drawn
from .grids import sim
from .sim import fields, lcos_real
from .prof import opaque


def expz(z):
    return cx(z).exp()


def unit_phase(z):
    "exp(i arg z)"
    return expi(cx(z).angle())


def image_of(d, light, phase):
    "the field the algorithm forms in the image plane for a phase map, index origin at 0"
    return A.transform("ifft2", (d.ny, d.nx), lambda a, b: cx(light(a, b)) * expi(phase(a, b)))


def hologram_spec(d, light, target, start, n, window=None, mix=None):
    """phase map after n >= 1 iterations.  The index origin of both planes is at 0 here: moving it to the array centres multiplies
    the image by unit phases that depend on the sample only, which 'keep the image phase' and the way back cancel"""
    sh = (d.ny, d.nx)

    def at_origin(f):
        return lambda a, b: cx(f(from_centre(a, d.ny), from_centre(b, d.nx)))
    tgt = at_origin(target)
    win = at_origin(window) if window else None

    def step(k, cur, i, j):
        image = image_of(d, light, cur)

        def corrected(a, b):
            z = image.at((a, b))
            c = tgt(a, b) * unit_phase(z)
            if win is None:
                return c
            w = win(a, b)
            return c * mix * w + z * T.sub(num(1), mix) * (cx(num(1)) - w)
        back = A.transform("fft2", sh, corrected)
        return (back.at((i, j)) * expi(T.scale(cx(light(i, j)).angle(), -1))).angle()
    return iterate(sh, False, start, step, n)


def drawn_phase(v, name, d, x):
    "the uniform array the start phase of map x was drawn from, as 2 pi U"
    us = uniforms(x)
    for a in A.arrays_in(x):
        if a.kind == "iter":
            g = a.meta["group"]
            us += [u for u in uniforms(*[t for part in g.init + g.step if part for t in part]) if u not in us]
    if len(us) != 1:
        v.fail(name + ".one-draw", "%d random arrays" % len(us))
        return None
    u = us[0]
    if u.rank != 2:
        v.fail(name + ".draw-shape", "rank %d" % u.rank)
        return None
    for k, (s, w) in enumerate(zip(u.shape, (d.ny, d.nx))):
        v.eq(name + ".draw-shape%d" % k, s, w)
    return u, (lambda i, j: T.mul(num(2), T.PI(), u.at((i, j))))


def args_of(v, d):
    c = v.config
    e, ge = light_of(v, c.get("light", "tf"), d)
    k = c.get("target", "tf")
    if k == "profile":
        t = opaque(v, "target")
        gt = elem_of(d.o.profile_to_tensor(t, at_fourier_plane=False))
    elif k == "number":
        t = v.real("target")
        gt = lambda i, j: t.t
    else:
        t = (v.ndarray if k == "np" else v.tensor)("target", (d.Ny, d.Nx), v.FT)
        gt = elem_of(t)
    kw = {}
    n = num(200)
    if c.get("N", 1):
        kw["N"] = iterations(v)
        n = kw["N"].t
    return e, ge, t, gt, kw, n


def window_arg(v, d, kind):
    if kind == "profile":
        w = opaque(v, "sw")
        return w, elem_of(d.o.profile_to_tensor(w, at_fourier_plane=False, complex=True))
    if kind == "number":
        w = v.real("sw")
        return w, lambda i, j: w.t
    f = v.ndarray if kind == "np" else v.tensor
    w = f("sw", (d.Ny, d.Nx), v.CT if kind == "tf" else "float64")
    return w, elem_of(w)


def check_map(v, name, d, x, spec_of, other=None, n=None):
    """a real map of the device shape, equal to the specified iteration from one fresh uniform draw of 2 pi U"""
    c = v.array(name, x, (d.Ny, d.Nx), v.FT, "np")
    if c is None:
        return None
    i, j = v.idx("i_" + name, d.ny), v.idx("j_" + name, d.nx)
    z = c.at(i, j)
    r = drawn_phase(v, name, d, z)
    if r is None:
        return None
    u, start = r
    v.true(name + ".fresh", other is None or u is not other)
    v.eq(name, z, spec_of(start)(i, j))
    return u


# ---- C19 ----------------------------------------------------------------------------------------------------------
def c19_gs(v):
    "calculate_hologram(method='gs') performs exactly the stated N projections from a uniform random phase"
    v.package()
    d = lcos(v)
    e, ge, t, gt, kw, n = args_of(v, d)
    if v.config.get("named", True):
        kw["method"] = "gs"
    d.o.calculate_hologram(e, t, **kw)
    u = check_map(v, "phase", d, d.o.slm_state, lambda s: hologram_spec(d, ge, gt, s, n))
    if v.config.get("twice"):
        first = d.o.slm_state
        keep = elem_of(first)
        d.o.calculate_hologram(e, t, **kw)
        check_map(v, "again", d, d.o.slm_state, lambda s: hologram_spec(d, ge, gt, s, n), u)
        v.forall("first map", first, (d.Ny, d.Nx), keep, v.FT)
    if isinstance(e, (X.NpArray, X.TfBase)):
        v.forall("light", e, (d.Ny, d.Nx), ge)


def c19_range(v):
    "for N >= 1 every value lies in [-pi, pi]"
    v.package()
    d = lcos(v)
    e, ge, t, gt, kw, n = args_of(v, d)
    d.o.calculate_hologram(e, t, method=v.config["method"], signal_window=window_arg(v, d, "tf")[0], **kw) \
        if v.config["method"] == "mraf" else d.o.calculate_hologram(e, t, method="gs", **kw)
    i, j = v.idx("i", d.ny), v.idx("j", d.nx)
    z = v.at(d.o.slm_state, i, j)
    v.true("not above pi", le(z, T.PI()))
    v.true("not below -pi", le(T.scale(T.PI(), -1), z))


def c19_zero(v):
    "N = 0: the random start itself, uniform in [0, 2 pi)"
    v.package()
    d = lcos(v)
    e, ge = light_of(v, "tf", d)
    t = v.tensor("target", (d.Ny, d.Nx), v.FT)
    kw = dict(method="gs") if v.config["method"] == "gs" else dict(method="mraf", signal_window=window_arg(v, d, "tf")[0])
    d.o.calculate_hologram(e, t, N=0, **kw)
    u = check_map(v, "phase", d, d.o.slm_state, lambda s: s)
    if u is not None:
        i, j = v.idx("i", d.ny), v.idx("j", d.nx)
        z = v.at(d.o.slm_state, i, j)
        v.true("not negative", le(num(0), z))
        v.true("below 2 pi", lt(z, T.mul(num(2), T.PI())))


def c19_lib(v):
    "_lib.calculate_lcos_slm_hologram on arbitrary fields"
    v.package()
    L = v.module("_lib")
    d = type("D", (), {})()
    d.Ny, d.Nx = v.int("n", 1), v.int("m", 1)
    d.ny, d.nx = d.Ny.t, d.Nx.t
    e, t = v.tensor("light", (d.Ny, d.Nx), v.CT), v.tensor("target", (d.Ny, d.Nx), v.FT)
    n = iterations(v)
    r = L.calculate_lcos_slm_hologram(e, t, method="gs", N=n)
    c = v.array("phase", r, (d.Ny, d.Nx), v.FT, "tf")
    if c is None:
        return
    i, j = v.idx("i", d.ny), v.idx("j", d.nx)
    z = c.at(i, j)
    s = drawn_phase(v, "phase", d, z)
    if s:
        v.eq("phase", z, hologram_spec(d, elem_of(e), elem_of(t), s[1], n.t)(i, j))


# ---- C20 ----------------------------------------------------------------------------------------------------------
def c20_mraf(v):
    "calculate_hologram(method='mraf') mixes target and free field as documented"
    v.package()
    d = lcos(v)
    e, ge, t, gt, kw, n = args_of(v, d)
    w, gw = window_arg(v, d, v.config.get("sw", "tf"))
    if v.config.get("mix", 1):
        m = v.real("mixing_factor")
        kw["mixing_factor"] = m
        mt = m.t
    else:
        mt = num(T.Fraction(2, 5))
    d.o.calculate_hologram(e, t, method="mraf", signal_window=w, **kw)
    check_map(v, "phase", d, d.o.slm_state, lambda s: hologram_spec(d, ge, gt, s, n, gw, mt))


def c20_gs(v):
    "mixing_factor 1 and an all-one window: every iteration is a 'gs' iteration"
    v.package()
    d = lcos(v)
    e, ge, t, gt, kw, n = args_of(v, d)
    one = 1 if v.config["one"] == "number" else v.tf.ones((d.Ny, d.Nx), dtype=v.CT)
    d.o.calculate_hologram(e, t, method="mraf", signal_window=one, mixing_factor=v.config["m"], **kw)
    check_map(v, "phase", d, d.o.slm_state, lambda s: hologram_spec(d, ge, gt, s, n))


# ---- C21 ----------------------------------------------------------------------------------------------------------
def c21_transmission(v):
    "the output field is the illumination times exp(+i phase), for any displayed map"
    v.package()
    d = lcos_real(v)
    s = sim(v, d)
    e = field(v, "light", d)
    ge = elem_of(e)
    s.o.propagate_to_image(e)
    i_, o_, im = fields(d, s, ge, d.trans)
    v.forall("output", s.o.output_field, (s.ny, s.nx), o_, v.CT, "np")
    v.forall("image", s.o.image_plane_field, (s.ny, s.nx), im, v.CT, "np")


def flat(v, name, d):
    s = sim(v, d) if not hasattr(d, "s_") else d.s_
    d.s_ = s
    e = field(v, name + "_light", d)
    ge = elem_of(e)
    s.o.propagate_to_image(e)
    i_, o_, im = fields(d, s, ge, lambda i, j: cx(num(1)))
    v.forall(name + ".output", s.o.output_field, (s.ny, s.nx), o_, v.CT, "np")
    c = d.o.slm_state
    if isinstance(c, X.NpArray) and c.core.rank == 2:
        v.forall(name + ".phase", c, (d.Ny, d.Nx), lambda i, j: num(0))
    else:
        v.fail(name + ".phase", "not a map")


def c21_flat(v):
    "a fresh device and a device after reset_slm_state are flat, whatever was displayed"
    v.package()
    d = lcos(v)
    d.sim = v.m.SLMSimulation
    flat(v, "fresh", d)
    d.o.slm_state = v.ndarray("state", (d.Ny, d.Nx), v.FT)
    d.o.reset_slm_state()
    flat(v, "reset", d)
    p = v.m.PLUTO_2(d.wl, d.f)
    v.forall("pluto.phase", p.slm_state, (num(1080), num(1920)), lambda i, j: num(0))


def c21_shared(v):
    "resetting or writing one device leaves the other one alone"
    v.package()
    a, b = lcos(v, "a"), lcos_real(v, "b")
    keep = elem_of(b.state)
    a.o.slm_state[SInt(v.idx("p", a.ny)), SInt(v.idx("q", a.nx))] = 1.0
    a.o.reset_slm_state()
    v.forall("other", b.o.slm_state, (b.Ny, b.Nx), keep, v.FT)
    v.forall("own", a.o.slm_state, (a.Ny, a.Nx), lambda i, j: num(0))


def c21_image(v):
    """after calculate_hologram the simulated unpadded image has, sample by sample, the intensity of the image the algorithm forms for
    the displayed map"""
    v.package()
    d = lcos(v)
    d.sim = v.m.SLMSimulation
    e, ge = light_of(v, "tf", d)
    t = v.tensor("target", (d.Ny, d.Nx), v.FT)
    kw = dict(method="gs") if v.config["method"] == "gs" else dict(method="mraf", signal_window=window_arg(v, d, "tf")[0])
    d.o.calculate_hologram(e, t, N=iterations(v), **kw)
    ph = elem_of(d.o.slm_state)
    s = v.m.SLMSimulation(d.o)
    s.propagate_to_image(e)
    x = s.image_plane_intensity
    sh = (d.ny, d.nx)
    mod = lambda i, j: cx(ge(i, j)) * expi(ph(i, j))
    k = T.div(T.mul(d.d.t, d.d.t, d.nx, d.ny), d.lf)
    shown = uncentred("ifft2", sh, mod)
    formed = image_of(d, ge, ph)
    at = lambda a, i, j: a.at((to_centre(i, d.ny), to_centre(j, d.nx))).abs2()
    v.forall("image", x, (d.Ny, d.Nx), lambda i, j: T.mul(k, k, at(shown, i, j)), v.FT, "np")
    # the simulation moves the index origin of the device plane to its centre, the algorithms do not
    i, j = v.idx("i", d.ny), v.idx("j", d.nx)
    v.lemma("dft-shift: a circular shift of the input keeps the modulus of a discrete Fourier transform",
            T.eq(at(shown, i, j), at(formed, i, j)))
    v.true("the algorithm's image", T.eq(at(shown, i, j), at(formed, i, j)))


def precs(*cfgs):
    return [dict(c, prec=p) for p in (32, 64) for c in cfgs]


CONTRACTS = {
    "C19": [
        Contract("gs", c19_gs, precs({"fft": "sym"}, {"N": 0, "named": False}, {"light": "profile", "target": "profile"},
                                     {"light": "np", "target": "np"}, {"light": "number", "target": "number"}, {"twice": 1})),
        Contract("range", c19_range, precs({"method": "gs"})),
        Contract("zero", c19_zero, precs({"method": "gs"})),
        Contract("lib", c19_lib, precs({"fft": "sym"})),
    ],
    "C20": [
        Contract("mraf", c20_mraf, precs({"fft": "sym"}, {"N": 0, "mix": 0, "sw": "profile"}, {"light": "profile", "target": "profile", "sw": "np"},
                                         {"light": "number", "target": "np", "sw": "profile"})),
        Contract("gs", c20_gs, precs({"one": "number", "m": 1}, {"one": "tensor", "m": 1.0})),
        Contract("range", c19_range, precs({"method": "mraf"})),
        Contract("zero", c19_zero, precs({"method": "mraf"})),
    ],
    "C21": [
        Contract("transmission", c21_transmission, precs({"fft": "sym"})),
        Contract("flat", c21_flat, precs({})),
        Contract("shared", c21_shared, precs({})),
        Contract("image", c21_image, precs({"method": "gs"}, {"method": "mraf"})),
    ],
}

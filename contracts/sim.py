from .common import *
from .grids import sim


def dmd_bool(v, p=""):
    d = dmd(v, p)
    st = v.ndarray(p + "state", (d.Ny, d.Nx), "bool")
    d.o.dmd_state = st
    e = elem_of(st)
    d.trans = lambda i, j: cx(ite(e(i, j), num(1), num(0)))
    d.state, d.set = st, (lambda a: setattr(d.o, "dmd_state", a))
    d.sim = v.m.DMDSimulation
    return d


def dmd_grey(v, p=""):
    d = dmd(v, p)
    st = v.ndarray(p + "state", (d.Ny, d.Nx), v.FT, gen=unit_gen, facts=unit_facts)
    d.o.dmd_state = st
    e = elem_of(st)
    d.trans = lambda i, j: cx(e(i, j))
    d.state, d.set = st, (lambda a: setattr(d.o, "dmd_state", a))
    d.sim = v.m.DMDSimulation
    return d


def lcos_real(v, p=""):
    d = lcos(v, p)
    st = v.ndarray(p + "state", (d.Ny, d.Nx), v.FT)
    d.o.slm_state = st
    e = elem_of(st)
    d.trans = lambda i, j: expi(e(i, j))
    d.state, d.set = st, (lambda a: setattr(d.o, "slm_state", a))
    d.sim = v.m.SLMSimulation
    return d


DEVICES = {"dmd": dmd_bool, "grey": dmd_grey, "lcos": lcos_real}
CONFIGS = [{"prec": p, "dev": k, "fft": "sym"} for p in (32, 64) for k in DEVICES]
CONFIGS0 = [{"prec": p, "dev": k} for p in (32, 64) for k in DEVICES]


def area_scale(d, s):
    "d^2 Nx Ny / (lambda f): pixel area over lambda f, times the Nx Ny that the normalised inverse DFT divides by"
    return T.div(T.mul(d.d.t, d.d.t, s.nx, s.ny), d.lf)


def fields(d, s, inp, trans):
    """(input, output, image) as functions of the padded index"""
    i_ = padded(inp, s.py, s.px, d.ny, d.nx)
    o_ = padded(lambda i, j: cx(inp(i, j)) * trans(i, j), s.py, s.px, d.ny, d.nx)
    im = centred("ifft2", (s.ny, s.nx), o_)
    k = area_scale(d, s)
    return i_, o_, (lambda i, j: im(i, j) * k)


def check_fields(v, name, d, s, f, which=("input_field", "output_field", "image_plane_field")):
    sh = (s.ny, s.nx)
    for n, g in zip(("input_field", "output_field", "image_plane_field"), f):
        if n in which:
            v.forall(name + n, getattr(s.o, n), sh, g, v.CT, "np")


def check_intensities(v, name, d, s, f):
    sh = (s.ny, s.nx)
    for n, g in zip(("input_intensity", "output_intensity", "image_plane_intensity"), f):
        v.forall(name + n, getattr(s.o, n), sh, lambda i, j: g(i, j).abs2(), v.FT, "np")


# ---- C04 ----------------------------------------------------------------------------------------------------------
def c04_fields(v):
    "propagate_to_image: padded input, input times transmission, scaled centred inverse DFT of the output"
    v.package()
    d = DEVICES[v.config["dev"]](v)
    s = sim(v, d, d.sim)
    e = field(v, "light", d)
    s.o.propagate_to_image(e)
    check_fields(v, "", d, s, fields(d, s, elem_of(e), d.trans))


def c04_base(v):
    "a mirror device may be simulated with the base class too; illumination given as real array, complex array, profile or number"
    v.package()
    d = dmd_bool(v)
    s = sim(v, d, v.m.SLMSimulation)
    k = v.config["light"]
    if k == "array":
        e = v.ndarray("light", (d.Ny, d.Nx), "float64")
        g = elem_of(e)
    elif k == "carray":
        e = v.ndarray("light", (d.Ny, d.Nx), "complex128")
        g = elem_of(e)
    elif k == "number":
        e = v.real("level")
        g = lambda i, j: e.t
    else:
        w, a = v.real("w", pos=True), v.real("a")
        e = v.m.HermiteGaussian(0.0, 0.0, a, w)
        def g(i, j):
            x, y = dev_xy(d, i, j)
            return T.mul(a.t, T.fn("exp", T.scale(T.div(dist2(x, y), T.mul(w.t, w.t)), -1)))
    s.o.propagate_to_image(e)
    check_fields(v, "", d, s, fields(d, s, lambda i, j: cx(g(i, j)), d.trans))


# ---- C05 ----------------------------------------------------------------------------------------------------------
def box_sum(shape, g):
    return A.sum_term(tuple(shape), lambda i, j: g(i, j))


def c05_power(v):
    "powers are sums of intensities times pixel areas; image power = output power; padding changes nothing"
    v.package()
    d = DEVICES[v.config["dev"]](v)
    s = sim(v, d, d.sim)
    e = field(v, "light", d)
    s.o.propagate_to_image(e)
    inp = elem_of(e)
    f = fields(d, s, inp, d.trans)
    sh, inner = (s.ny, s.nx), (d.ny, d.nx)
    area = T.mul(d.d.t, d.d.t)
    iarea = T.div(T.mul(d.lf, d.lf), T.mul(s.nx, s.ny, area))
    S = [box_sum(sh, lambda i, j, g=g: g(i, j).abs2()) for g in f]
    P = (T.mul(S[0], area), T.mul(S[1], area), T.mul(S[2], iarea))
    for n, x, y in zip(("input", "output", "image"), (s.o.get_input_power(), s.o.get_output_power(), s.o.get_image_plane_power()), P):
        v.eq(n + ".is-sum", v.value(x), y)
    # what follows is about those three values
    # the sums the mathematics relates: over the raw transform, the centred one, what is transformed, and without the padding
    raw = uncentred("ifft2", sh, f[1])
    cen = centred("ifft2", sh, f[1])
    R = box_sum(sh, lambda i, j: raw.at((i, j)).abs2())
    C = box_sum(sh, lambda i, j: cen(i, j).abs2())
    O = box_sum(sh, lambda i, j: f[1](from_centre(i, s.ny), from_centre(j, s.nx)).abs2())
    I0, I1 = box_sum(inner, lambda i, j: cx(inp(i, j)).abs2()), box_sum(inner, lambda i, j: (cx(inp(i, j)) * d.trans(i, j)).abs2())
    k = area_scale(d, s)
    v.eq("image = constant times centred", P[2], T.mul(k, k, iarea, C))
    # from here on each sum is an arbitrary number (r stands for R, ...) of which only the lemmas below are known
    r, c, o, s0, s1, i0, i1 = [v.real("sum_" + n).t for n in ("raw", "centred", "transformed", "input", "output", "input_unpadded", "output_unpadded")]
    for what, t in (("a sum over all indices is unchanged by a cyclic shift", and_(T.eq(c, r), T.eq(o, s1))),
                    ("Parseval: SUM |ifft2(a)|^2 = SUM |a|^2 / (Nx Ny)", T.eq(T.mul(r, s.nx, s.ny), o)),
                    ("zero padding adds nothing to a sum", and_(T.eq(s0, i0), T.eq(s1, i1)))):
        v.lemma(what, t)
    v.eq("image = output", T.mul(k, k, iarea, c), T.mul(area, s1))
    v.eq("input without padding", T.mul(area, s0), T.mul(area, i0))
    v.eq("output without padding", T.mul(area, s1), T.mul(area, i1))
    i, j = v.idx("i", d.ny), v.idx("j", d.nx)
    pi, po = cx(inp(i, j)).abs2(), (cx(inp(i, j)) * d.trans(i, j)).abs2()
    if v.config["dev"] == "lcos":
        v.eq("pointwise", po, pi)
        v.lemma("equal summands have equal sums", T.eq(i1, i0))
        v.eq("output = input", T.mul(area, s1), T.mul(area, s0))
    else:
        st = d.trans(i, j).re
        v.assume(and_(le(num(0), st), le(st, num(1))))
        v.true("pointwise", le(po, pi))
        v.lemma("smaller summands have smaller sums", le(i1, i0))
        v.true("output <= input", le(T.mul(area, s1), T.mul(area, s0)))


def c05_later(v):
    "the powers are those of the fields as they are, however often they were read before: after another propagation, another state, blocking"
    v.package()
    d = DEVICES[v.config["dev"]](v)
    s = sim(v, d, d.sim)
    area = T.mul(d.d.t, d.d.t)
    iarea = T.div(T.mul(d.lf, d.lf), T.mul(s.nx, s.ny, area))

    def powers(name, f):
        for n, get, g, a in zip(("input", "output", "image"), (s.o.get_input_power, s.o.get_output_power, s.o.get_image_plane_power), f, (area, area, iarea)):
            v.eq("%s %s" % (name, n), v.value(get()), T.mul(box_sum((s.ny, s.nx), lambda i, j: g(i, j).abs2()), a))
    e = field(v, "light", d)
    s.o.propagate_to_image(e)
    f = fields(d, s, elem_of(e), d.trans)
    powers("first", f)
    if v.config["dev"] == "dmd":
        for name, args in (("blocked", ()), ("blocked again", (v.real("r", lo=0),))):
            s.o.block_zeroth_order(*args)
            p = v.value(s.o.get_image_plane_power())
            c = s.o.image_plane_intensity.core          # C06 says which intensities these are
            v.eq(name + " image", p, T.mul(box_sum((s.ny, s.nx), lambda i, j: c.at(i, j)), iarea))
    e = field(v, "later_light", d)
    s.o.propagate_to_image(e)
    powers("later", fields(d, s, elem_of(e), d.trans))
    if v.config["dev"] == "lcos":
        d.o.reset_slm_state()
        s.o.propagate_to_image(e)
        powers("reset", fields(d, s, elem_of(e), lambda i, j: cx(num(1))))
    else:
        d.o.set_dmd_state_off()
        s.o.propagate_to_image(e)
        powers("off", fields(d, s, elem_of(e), lambda i, j: cx(num(0))))
        d.o.set_dmd_state_on()
        s.o.propagate_to_image(e)
        powers("on", fields(d, s, elem_of(e), lambda i, j: cx(num(1))))
    t = sim(v, d, d.sim, "other_")
    t.o.propagate_to_image(field(v, "other_light", d))
    t.o.get_input_power(), t.o.get_output_power(), t.o.get_image_plane_power()
    powers("after the other simulation", fields(d, s, elem_of(e), lambda i, j: cx(num(1))))


# ---- C06 ----------------------------------------------------------------------------------------------------------
def c06_block(v):
    "exactly the samples nearer than r to the axis become zero; repeating changes nothing; other fields stay"
    v.package()
    d = dmd_bool(v)
    s = sim(v, d, d.sim)
    e = field(v, "light", d)
    s.o.propagate_to_image(e)
    f = fields(d, s, elem_of(e), d.trans)
    if v.config["r"] == "given":
        r = v.real("r", lo=0)
        rr, args = r.t, (r,)
    else:
        rr, args = T.scale(T.div(d.lf, T.mul(d.p.t, d.d.t)), T.Fraction(1, 2)), ()

    def blocked(i, j):
        x, y = img_xy(d.lf, d.d.t, s.nx, s.ny, i, j)
        return A.ite_v(lt(dist2(x, y), T.mul(rr, rr)), cx(num(0)), f[2](i, j))
    for k in ("first.", "again."):
        s.o.block_zeroth_order(*args)
        check_fields(v, k, d, s, (f[0], f[1], blocked))
        check_intensities(v, k, d, s, (f[0], f[1], blocked))


def c06_two(v):
    "blocking with two radii clears the larger disk, and a new propagation shows the full image again"
    v.package()
    d = dmd_bool(v)
    s = sim(v, d, d.sim)
    e = field(v, "light", d)
    s.o.propagate_to_image(e)
    f = fields(d, s, elem_of(e), d.trans)
    r1, r2 = v.real("r1", lo=0), v.real("r2", lo=0)
    s.o.block_zeroth_order(r1)
    s.o.block_zeroth_order(r=r2)

    def blocked(i, j):
        x, y = img_xy(d.lf, d.d.t, s.nx, s.ny, i, j)
        q = dist2(x, y)
        return A.ite_v(or_(lt(q, T.mul(r1.t, r1.t)), lt(q, T.mul(r2.t, r2.t))), cx(num(0)), f[2](i, j))
    check_fields(v, "two.", d, s, (f[0], f[1], blocked))
    e2 = field(v, "light2", d)
    s.o.propagate_to_image(e2)
    check_fields(v, "fresh.", d, s, fields(d, s, elem_of(e2), d.trans))


def all_none(v, name, s):
    for n in ("input_field", "output_field", "image_plane_field", "input_intensity", "output_intensity", "image_plane_intensity"):
        v.true(name + n + ".None", getattr(s.o, n) is None)


def c06_before(v):
    "before any propagation, and after a clear, blocking raises TypeError and changes nothing"
    v.package()
    d = dmd_bool(v)
    s = sim(v, d, d.sim)
    r = v.real("r", lo=0)
    v.raises("no-r", TypeError, s.o.block_zeroth_order)
    v.raises("with-r", TypeError, s.o.block_zeroth_order, r)
    all_none(v, "before.", s)
    e = field(v, "light", d)
    s.o.propagate_to_image(e)
    s.o.clear()
    v.raises("cleared", TypeError, s.o.block_zeroth_order, r)
    all_none(v, "cleared.", s)
    s.o.propagate_to_image(e)
    check_fields(v, "after.", d, s, fields(d, s, elem_of(e), d.trans))


# ---- C07 ----------------------------------------------------------------------------------------------------------
def c07_none(v):
    "None before the first propagation and after clear"
    v.package()
    d = DEVICES[v.config["dev"]](v)
    s = sim(v, d, d.sim)
    all_none(v, "new.", s)
    s.o.propagate_to_image(field(v, "light", d))
    s.o.image_plane_intensity
    s.o.clear()
    all_none(v, "cleared.", s)


def c07_history(v):
    "whatever two operations came before, the results are those of the last propagation, and intensities are |field|^2"
    v.package()
    d = DEVICES[v.config["dev"]](v)
    s = sim(v, d, d.sim)
    t = sim(v, d, d.sim, "other_")
    st0 = elem_of(d.state)
    s.o.propagate_to_image(field(v, "light0", d))
    for k in range(2):
        op = v.int("op%d" % k, 0, 4)
        if op == 0:
            s.o.propagate_to_image(field(v, "lightA%d" % k, d))
        elif op == 1:
            s.o.clear()
        elif op == 2:
            for n in ("input_field", "output_field", "image_plane_field", "input_intensity", "output_intensity", "image_plane_intensity"):
                getattr(s.o, n)
            s.o.image_plane_padded_grid
            s.o.fourier_plane_padded_grid
        elif op == 3:
            st1 = v.ndarray("state%d" % k, (d.Ny, d.Nx), d.state.core.dtype)
            d.set(st1)
            d.state, st0 = st1, elem_of(st1)
            if v.config["dev"] == "lcos":
                d.trans = lambda i, j, e=st0: expi(e(i, j))
            else:
                d.trans = lambda i, j, e=st0: cx(e(i, j) if e(i, j).sort != "B" else ite(e(i, j), num(1), num(0)))
        else:
            if v.config["dev"] != "lcos" and s.o.output_field is not None:
                s.o.block_zeroth_order()
    e = field(v, "light", d)
    s.o.propagate_to_image(e)
    t.o.propagate_to_image(field(v, "lightB", d))
    f = fields(d, s, elem_of(e), d.trans)
    # reading gives copies: writing into them has no effect
    for n in ("input_field", "output_field", "image_plane_field", "input_intensity", "output_intensity", "image_plane_intensity"):
        a = getattr(s.o, n)
        a[0, 0] = 7.0
        a *= 2.0
    check_fields(v, "", d, s, f)
    check_intensities(v, "", d, s, f)
    now = getattr(d.o, "slm_state" if v.config["dev"] == "lcos" else "dmd_state")
    v.forall("state", now, (d.ny, d.nx), st0, None, "np")


def c07_later(v):
    "device-state changes after a propagation (replacing the state, or writing into it) change no result"
    v.package()
    d = DEVICES[v.config["dev"]](v)
    s = sim(v, d, d.sim)
    e = v.ndarray("light", (d.Ny, d.Nx), v.CT)
    f = fields(d, s, elem_of(e), d.trans)
    st0 = elem_of(d.state)
    s.o.propagate_to_image(e)
    v.forall("light-untouched", e, (d.ny, d.nx), elem_of(e))
    e[0, 0] = 5.0
    v.forall("state", d.state, (d.ny, d.nx), st0)
    if v.config["how"] == "write":
        d.state[0, 0] = False if v.config["dev"] == "dmd" else 0.25
        e *= 2.0
    elif v.config["dev"] == "lcos":
        d.o.reset_slm_state()
    else:
        d.o.set_dmd_state_on()
    check_fields(v, "", d, s, f)
    check_intensities(v, "", d, s, f)


def c07_havoc(v):
    """induction step over histories: whatever arrays an earlier history left in the simulation object (each replaced by an
    arbitrary one, or by None), the next propagation gives the results of that propagation alone"""
    v.package()
    d = DEVICES[v.config["dev"]](v)
    s = sim(v, d, d.sim)
    s.o.propagate_to_image(field(v, "light0", d))
    for n in ("input_intensity", "output_intensity", "image_plane_intensity", "image_plane_padded_grid"):
        getattr(s.o, n)
    none = v.bool("cleared")
    for k, x in sorted(vars(s.o).items()):
        if isinstance(x, X.TfTensor):
            c = x.core
            setattr(s.o, k, None if none else v.tensor("old" + k, [mk(t, "i") for t in c.shape], c.dtype))
        elif isinstance(x, X.NpArray):
            c = x.core
            setattr(s.o, k, None if none else v.ndarray("old" + k, [mk(t, "i") for t in c.shape], c.dtype))
    e = field(v, "light", d)
    s.o.propagate_to_image(e)
    f = fields(d, s, elem_of(e), d.trans)
    check_fields(v, "", d, s, f)
    check_intensities(v, "", d, s, f)


def c07_fresh(v):
    "a fresh simulation of the same device, light and state gives the same results"
    v.package()
    d = DEVICES[v.config["dev"]](v)
    s = sim(v, d, d.sim)
    r = d.sim(d.o, mk(s.px, "i"), mk(s.py, "i"))
    s.o.propagate_to_image(field(v, "light0", d))
    e = field(v, "light", d)
    s.o.propagate_to_image(e)
    r.propagate_to_image(e)
    for n in ("input_field", "output_field", "image_plane_field", "input_intensity", "output_intensity", "image_plane_intensity"):
        v.forall(n, getattr(s.o, n), (s.ny, s.nx), elem_of(getattr(r, n)))


def c07_inplace(v):
    """the device state and the illumination array are changed in place (same array objects) between two propagations: the
    second propagation shows the present state and the present light"""
    v.package()
    d = DEVICES[v.config["dev"]](v)
    s = sim(v, d, d.sim)
    e = v.ndarray("light", (d.Ny, d.Nx), v.CT)
    s.o.propagate_to_image(e)
    # an arbitrary value in an arbitrary mirror, and in an arbitrary place of the illumination
    i, j = mk(v.idx("i", d.ny), "i"), mk(v.idx("j", d.nx), "i")
    new = v.bool("newstate") if v.config["dev"] == "dmd" else v.real("newstate", lo=0, hi=1)
    attr = "slm_state" if v.config["dev"] == "lcos" else "dmd_state"
    now = getattr(d.o, attr)
    now[i, j] = new
    e *= 2.0
    st, inp = elem_of(now), elem_of(e)
    if v.config["dev"] == "lcos":
        tr = lambda a, b: expi(st(a, b))
    else:
        tr = lambda a, b: cx(st(a, b) if st(a, b).sort != "B" else ite(st(a, b), num(1), num(0)))
    s.o.propagate_to_image(e)
    f = fields(d, s, inp, tr)
    check_fields(v, "", d, s, f)
    check_intensities(v, "", d, s, f)
    # another simulation of the same device
    t = d.sim(d.o)
    t.propagate_to_image(e)
    v.forall("other.output_field", t.output_field, (d.ny, d.nx), lambda a, b: cx(inp(a, b)) * tr(a, b), v.CT, "np")


def c07_patch(v):
    "a circular patch (which writes into the state on display) between two propagations is seen by the second"
    v.package()
    d = dmd_bool(v)
    s = sim(v, d, d.sim)
    e = field(v, "light", d)
    s.o.propagate_to_image(e)
    i, j, dia = v.real("i"), v.real("j"), v.real("diameter", pos=True)
    d.o.circular_patch(i, j, 0.0, 0.0, 0.0, dia, method="simple")
    st = elem_of(d.o.dmd_state)
    s.o.propagate_to_image(e)
    f = fields(d, s, elem_of(e), lambda a, b: cx(ite(st(a, b), num(1), num(0))))
    check_fields(v, "", d, s, f)


CONTRACTS = {
    "C04": [Contract("fields", c04_fields, CONFIGS),
            Contract("lights", c04_base, [{"prec": p, "light": k} for p in (32, 64) for k in ("array", "carray", "number", "profile")])],
    "C05": [Contract("power", c05_power, CONFIGS0), Contract("later", c05_later, CONFIGS0)],
    "C06": [Contract("block", c06_block, [{"prec": p, "r": r} for p in (32, 64) for r in ("given", "default")]),
            Contract("two", c06_two), Contract("before", c06_before)],
    "C07": [Contract("none", c07_none, CONFIGS0), Contract("history", c07_history, CONFIGS0),
            Contract("later", c07_later, [{"prec": p, "dev": k, "how": h} for p in (32, 64) for k in DEVICES for h in ("write", "replace")]),
            Contract("havoc", c07_havoc, CONFIGS0),
            Contract("fresh", c07_fresh, CONFIGS0),
            Contract("in place", c07_inplace, CONFIGS0), Contract("patch", c07_patch)],
}

import numpy as np
import spec as S
import fakes
from run import case, close, same, true, raises, Bad, Skip


class Dv:
    """a small device with drawn parameters"""

    def __init__(self, D, L, lo=1, hi=9, kind=None, tag="", neg=None):
        self.wl = D.pick(tag + "wl_", [3.69e-7, 6.5e-7, 1.0, 0.8])
        self.f = D.pick(tag + "f_", [0.2, 0.35, 1.0, 1.7])
        self.d = D.pick(tag + "d_", [1.08e-5, 8e-6, 7.56e-6, 1.0])
        self.Nx, self.Ny = D.int(tag + "Nx", lo, hi), D.int(tag + "Ny", lo, hi)
        self.lf = self.wl * self.f
        self.kind = kind or D.pick(tag + "kind", ["dmd", "lcos", "slm"])
        if self.kind == "dmd":
            self.per = D.real(tag + "periodicity", 2.2, 7.0)
            self.th = D.real(tag + "theta", -3.1, 3.1)
            self.neg = D.bool(tag + "negative") if neg is None else neg
            self.o = L.slm.DMD(self.wl, self.f, self.per, self.th, self.Nx, self.Ny, self.d, negative_order=self.neg)
            self.p = self.per * self.d
        elif self.kind == "lcos":
            self.o = L.slm.LCOS_SLM(self.wl, self.f, self.Nx, self.Ny, self.d)
        else:
            self.o = L.slm.SLM(self.wl, self.f, self.Nx, self.Ny, self.d)

    @property
    def shape(self):
        return self.Ny, self.Nx

    def sim(self, L, px, py):
        return (L.sim.DMDSimulation if self.kind == "dmd" else L.sim.SLMSimulation)(self.o, px, py)

    def xy(self):
        return S.dev_grid(self.Nx, self.Ny, self.d)

    def uv(self):
        return S.img_grid(self.Nx, self.Ny, self.d, self.lf)


def crand(r, shape, lo=0.2, hi=1.0):
    return r.uniform(lo, hi, shape) * np.exp(1j * r.uniform(-np.pi, np.pi, shape))


def put_state(D, L, v, tag="state"):
    """gives the device a drawn state and returns the transmission the property assigns to it"""
    r = D.seed(tag)
    if v.kind == "dmd":
        k = D.pick(tag + "_kind", ["bool", "grey", "off", "on"])
        if k == "bool":
            s = r.random(v.shape) < 0.5
        elif k == "grey":
            s = r.random(v.shape).astype(L.R)
        else:
            s = np.zeros(v.shape, bool) if k == "off" else np.ones(v.shape, bool)
        v.o.dmd_state = s
        return s.astype(float)
    s = r.uniform(-4, 4, v.shape)
    if D.bool(tag + "_flat"):
        v.o.reset_slm_state()
        return np.ones(v.shape)
    v.o.slm_state = s.astype(L.R)
    return np.exp(1j * s.astype(L.R).astype(float))


# ---- C01 C02 C03 ----------------------------------------------------------------------------------------------------
def grids_ok(L, v, o=None, what=""):
    o = o or v.o
    x, y = v.xy()
    gx, gy = o.fourier_plane_grid
    t = 2e-6 * L.eps * v.d * max(v.Nx, v.Ny)
    close(what + "device x", gx, x, t)
    close(what + "device y", gy, y, t)
    true(what + "device grid precision", gx.dtype == L.R and gy.dtype == L.R, gx.dtype)


@case("C01", 10)
def device_grid(D, L):
    v = Dv(D, L)
    grids_ok(L, v)
    i, j = np.meshgrid(np.arange(v.Ny), np.arange(v.Nx), indexing="ij")
    if hasattr(v.o, "_convert_slm_coordinate_to_pixel_index") and hasattr(v.o, "_convert_pixel_index_to_dmd_coordinate"):
        a = L.tf.constant(i, L.R), L.tf.constant(j, L.R)
        x, y = v.o._convert_pixel_index_to_dmd_coordinate(*a)
        close("to coordinates", x, v.xy()[0], 3e-6 * L.eps * v.d * 10)
        i2, j2 = v.o._convert_slm_coordinate_to_pixel_index(x, y)
        close("back i", i2, i, 1e-4 * L.eps * 10)
        close("back j", j2, j, 1e-4 * L.eps * 10)


@case("C01", 5)
def grid_for_life(D, L):
    v = Dv(D, L, 2, 7, "dmd")
    w = Dv(D, L, 2, 7, tag="other_")
    x, y = v.o.fourier_plane_grid
    x += 3.0
    y[:] = 0
    u, uy = v.o.image_plane_grid
    u *= 2
    grids_ok(L, v, what="after writing into the returned arrays: ")
    r = D.seed("prof")
    s = v.sim(L, 1, 2)
    s.propagate_to_image(r.random(v.shape))
    a, b = s.fourier_plane_padded_grid
    a[:] = 7
    s.block_zeroth_order()
    v.o.set_dmd_grating_state(method="ideal")
    v.o.set_dmd_grating_state(method="random")
    v.o.calculate_dmd_state(L.profile.HermiteGaussian(0, 0, 1, v.d * v.Nx, 1, 0) + 1.0, r.random(v.shape), method="simple")
    v.o.circular_patch(1, 1, 1, 0, 0, 2, method="simple")
    v.o.profile_to_tensor(L.profile.HermiteGaussian(0, 0, 1, 1).shift(v.d, 0))
    v.o.pack_dmd_state()
    grids_ok(L, v, what="after other operations: ")
    grids_ok(L, w, what="another device: ")
    grids_ok(L, v, what="after another device: ")


@case("C01", 1)
def many_devices(D, L):
    vs = [Dv(D, L, 2, 4, "slm", tag="d%d_" % k) for k in range(140)]
    for v in vs:
        v.o.fourier_plane_grid
    for v in vs:
        grids_ok(L, v)


@case("C02", 12)
def image_grid(D, L):
    v = Dv(D, L)
    if D.bool("device grid first"):
        v.o.fourier_plane_grid
    for k in range(2):
        gx, gy = v.o.image_plane_grid
        x, y = v.uv()
        t = 4e-6 * L.eps * v.lf / v.d
        close("image x", gx, x, t)
        close("image y", gy, y, t)
        true("precision", gx.dtype == L.R and gy.dtype == L.R)
        true("axis", gx[v.Ny // 2, v.Nx // 2] == 0 and gy[v.Ny // 2, v.Nx // 2] == 0)
        gx += 1
        gy += 1


@case("C03", 12)
def padded(D, L):
    v = Dv(D, L)
    px, py = D.int("padding_x", 0, 5), D.int("padding_y", 0, 5)
    s = v.sim(L, px, py)
    nx, ny = v.Nx + 2 * px, v.Ny + 2 * py
    true("size", (s.Nx, s.Ny) == (nx, ny), s.Nx, s.Ny)
    true("padding", (s.padding_x, s.padding_y) == (px, py))
    gx, gy = s.fourier_plane_padded_grid
    x, y = S.dev_grid(nx, ny, v.d)
    j, i = np.meshgrid(np.arange(nx) - px, np.arange(ny) - py)
    x, y = (j - v.Nx / 2) * v.d, (v.Ny / 2 - i) * v.d
    t = 2e-6 * L.eps * v.d * max(nx, ny)
    close("padded x", gx, x, t)
    close("padded y", gy, y, t)
    ix, iy = v.o.fourier_plane_grid
    same("inner x", gx[py:py + v.Ny, px:px + v.Nx], ix)
    same("inner y", gy[py:py + v.Ny, px:px + v.Nx], iy)
    for _ in range(2):
        u, w = s.image_plane_padded_grid
        a, b = S.img_grid(nx, ny, v.d, v.lf)
        t = 4e-6 * L.eps * v.lf / v.d
        close("padded image x", u, a, t)
        close("padded image y", w, b, t)
        u += 1
        w += 1
    close("device area", s.fourier_plane_pixel_area, v.d ** 2, 1e-9 * v.d ** 2)
    ar = v.lf / (nx * v.d) * v.lf / (ny * v.d)
    close("image area", s.image_plane_pixel_area, ar, 1e-9 * ar)
    # another simulation of the same device
    s2 = v.sim(L, px + 1, py)
    true("second size", s2.Nx == nx + 2 and s2.image_plane_padded_grid[0].shape == (ny, nx + 2))
    for n, val in (("padding_x", 1.5), ("padding_y", 2.0)):
        raises("fractional padding", TypeError, lambda: (L.sim.SLMSimulation)(v.o, **{n: val}))


# ---- C04 C05 C06 C07 -----------------------------------------------------------------------------------------------------
def light(D, L, v, tag="light"):
    """(what is passed, its values)"""
    r = D.seed(tag)
    k = D.pick(tag + "_kind", ["complex", "real", "tensor", "scalar", "profile", "zeros"])
    if k == "complex":
        a = crand(r, v.shape).astype(L.C)
        return a, a.astype(complex)
    if k == "real":
        a = r.random(v.shape).astype(L.R)
        return a, a.astype(complex)
    if k == "zeros":
        a = crand(r, v.shape).astype(L.C) * (r.random(v.shape) < 0.6)
        return a, a.astype(complex)
    if k == "tensor":
        a = crand(r, v.shape).astype(L.C)
        return L.tf.constant(a), a.astype(complex)
    if k == "scalar":
        a = float(L.R(r.uniform(0.3, 2)))
        return a, np.full(v.shape, a, complex)
    f = L.profile.HermiteGaussian(0, 0, 1, v.d * 5)
    x, y = v.xy()
    return f, np.exp(-(x ** 2 + y ** 2) / (v.d * 5) ** 2).astype(complex)


def fields_ok(L, v, s, inp, tr, px, py, what=""):
    i, o = S.pad(inp, px, py), S.pad(inp * tr, px, py)
    t = 2e-5 * L.eps
    close(what + "input field", s.input_field, i, t)
    close(what + "output field", s.output_field, o, t)
    im = S.image_field(o, v.d, v.lf)
    sc = v.d ** 2 / v.lf * max(1.0, np.sum(np.abs(o)))
    close(what + "image field", s.image_plane_field, im, t * sc)
    for n, f in (("input", i), ("output", o), ("image_plane", im)):
        g = getattr(s, n + "_intensity")
        m = max(1e-300, np.max(np.abs(f)))
        close(what + n + " intensity", g, np.abs(f) ** 2, t * 4 * (m * (sc if n == "image_plane" else 1) + 0))
        true(what + n + " precision", g.dtype == L.R and getattr(s, n + "_field").dtype == L.C, g.dtype)
        close(what + n + " intensity of its field", g, np.abs(getattr(s, n + "_field").astype(complex)) ** 2, 1e-5 * L.eps * m * m + 1e-300)


@case("C04", 10)
def propagation(D, L):
    v = Dv(D, L, 1, 7, D.pick("k", ["dmd", "lcos"]))
    px, py = D.int("padding_x", 0, 4), D.int("padding_y", 0, 4)
    tr = put_state(D, L, v)
    a, val = light(D, L, v)
    s = v.sim(L, px, py)
    s.propagate_to_image(a)
    fields_ok(L, v, s, val, tr, px, py)
    true("factor", abs(s.scaling_factor - v.lf) <= 1e-12 * v.lf)


@case("C05", 10)
def power(D, L):
    v = Dv(D, L, 1, 7, D.pick("k", ["dmd", "lcos"]))
    px, py = D.int("padding_x", 0, 4), D.int("padding_y", 0, 4)
    tr = put_state(D, L, v)
    a, val = light(D, L, v)
    got = []
    for p in ((px, py), (0, 0)):
        s = v.sim(L, *p)
        s.propagate_to_image(a)
        got.append((s.get_input_power(), s.get_output_power(), s.get_image_plane_power()))
        pi = np.sum(np.abs(val) ** 2) * v.d ** 2
        po = np.sum(np.abs(val * tr) ** 2) * v.d ** 2
        t = 1e-4 * L.eps * pi + 1e-300
        close("input power", got[-1][0], pi, t)
        close("output power", got[-1][1], po, t)
        close("image power", got[-1][2], po, t)
        nx, ny = v.Nx + 2 * p[0], v.Ny + 2 * p[1]
        ia = v.lf ** 2 / (nx * ny) / v.d ** 2
        close("image power is the sum of the intensity", got[-1][2], np.sum(s.image_plane_intensity.astype(float)) * ia, t)
        if v.kind == "dmd":
            true("no gain", got[-1][1] <= got[-1][0] + t)
        else:
            close("phase only", got[-1][1], got[-1][0], t)
        # whatever was read before, the powers are those of the fields as they are
        if v.kind == "dmd":
            s.block_zeroth_order(*([] if D.bool("default") else [D.real("r", .1, .5) * v.lf / v.d]))
            close("image power after blocking", s.get_image_plane_power(), np.sum(np.abs(s.image_plane_field.astype(complex)) ** 2) * ia, t)
        b, val2 = light(D, L, v, "light2")
        s.propagate_to_image(b)
        t2 = 1e-4 * L.eps * np.sum(np.abs(val2) ** 2) * v.d ** 2 + 1e-300
        po2 = np.sum(np.abs(val2 * tr) ** 2) * v.d ** 2
        close("input power of the next light", s.get_input_power(), np.sum(np.abs(val2) ** 2) * v.d ** 2, t2)
        close("output power of the next light", s.get_output_power(), po2, t2)
        close("image power of the next light", s.get_image_plane_power(), po2, t2)


@case("C06", 10)
def block(D, L):
    v = Dv(D, L, 2, 9, "dmd")
    px, py = D.int("padding_x", 0, 4), D.int("padding_y", 0, 4)
    tr = put_state(D, L, v)
    a, val = light(D, L, v)
    s = v.sim(L, px, py)
    raises("before any propagation", TypeError, lambda: s.block_zeroth_order())
    true("nothing computed", s.input_field is None and s.output_field is None and s.image_plane_field is None)
    s.propagate_to_image(a)
    f0 = [np.array(s.input_field), np.array(s.output_field), np.array(s.image_plane_field)]
    nx, ny = v.Nx + 2 * px, v.Ny + 2 * py
    x, y = S.img_grid(nx, ny, v.d, v.lf)
    r2 = x ** 2 + y ** 2
    cur = f0[2]
    for n in range(3):
        k = D.pick("r_kind%d" % n, ["default", "real", "tiny", "zero", "all"])
        unit = v.lf / (max(nx, ny) * v.d)
        r = {"default": None, "real": D.real("r%d" % n, 0, 1) * v.lf / v.d, "tiny": 0.3 * unit, "zero": 0.0, "all": 3 * v.lf / v.d}[k]
        rr = v.lf / v.p / 2 if r is None else r
        near = np.abs(np.sqrt(r2) - rr) < 1e-5 * (rr + unit)
        if k == "zero":
            near[:] = False
        for rep in range(2):
            s.block_zeroth_order() if r is None else s.block_zeroth_order(r)
            want = np.where(r2 < rr ** 2, 0, cur)
            same("image field", np.where(near, 0, s.image_plane_field), np.where(near, 0, want))
            true("precision", s.image_plane_field.dtype == L.C)
            same("input field", s.input_field, f0[0])
            same("output field", s.output_field, f0[1])
        cur = np.array(s.image_plane_field)
    s.clear()
    raises("after clear", TypeError, lambda: s.block_zeroth_order())
    true("still nothing", s.image_plane_field is None and s.image_plane_intensity is None)


@case("C07", 8)
def histories(D, L):
    v = Dv(D, L, 2, 6, D.pick("k", ["dmd", "lcos"]))
    px, py = D.int("padding_x", 0, 3), D.int("padding_y", 0, 3)
    s = v.sim(L, px, py)
    names = ["input_field", "output_field", "image_plane_field", "input_intensity", "output_intensity", "image_plane_intensity"]

    def none(what):
        for n in names:
            true(what + ": " + n, getattr(s, n) is None)
    none("fresh")
    last = None
    for k in range(D.int("steps", 3, 8)):
        op = D.pick("op%d" % k, ["propagate", "propagate", "clear", "block", "read", "state", "power"])
        if op == "propagate":
            tr = put_state(D, L, v, "state%d" % k)
            st = np.array(v.o.dmd_state if v.kind == "dmd" else v.o.slm_state)
            a, val = light(D, L, v, "light%d" % k)
            s.propagate_to_image(a)
            now = v.o.dmd_state if v.kind == "dmd" else v.o.slm_state
            same("the state", now, st)
            true("the state's type", now.dtype == st.dtype)
            fr = v.sim(L, px, py)
            fr.propagate_to_image(a)
            last = {n: np.array(getattr(fr, n)) for n in names}
            fields_ok(L, v, s, val, tr, px, py, "step %d " % k)
        elif op == "clear":
            s.clear()
            none("clear")
            last = None
        elif op == "block" and v.kind == "dmd" and last is not None:
            s.block_zeroth_order(D.real("br%d" % k, 0, 1) * v.lf / v.d)
            last["image_plane_field"] = np.array(s.image_plane_field)
            last["image_plane_intensity"] = np.array(np.abs(s.image_plane_field.astype(complex)) ** 2)
        elif op == "read" and last is not None:
            for n in names:
                g = getattr(s, n)
                if g.flags.writeable and D.bool("write%d" % k):
                    g[...] = 0
        elif op == "state":
            put_state(D, L, v, "nstate%d" % k)
            if v.kind == "dmd":
                v.o.set_dmd_state_on()
            else:
                v.o.slm_state += 0.5
        elif op == "power" and last is not None:
            s.get_input_power(), s.get_output_power(), s.get_image_plane_power()
        if last is not None:
            for n in names:
                t = 1e-5 * L.eps * max(1e-300, np.max(np.abs(last[n])))
                close("after %s, %s" % (op, n), getattr(s, n), last[n], t)


# ---- C27 -----------------------------------------------------------------------------------------------------------------
@case("C27", 6)
def backends(D, L):
    v = Dv(D, L, 1, 8, D.pick("k", ["dmd", "lcos"]))
    px, py = D.int("padding_x", 0, 2), D.int("padding_y", 0, 2)
    tr = put_state(D, L, v)
    a, val = light(D, L, v)
    tgt = D.seed("target").random(v.shape)
    s = v.sim(L, px, py)
    old = int(L.B.fft_backend)

    def used(what, b):
        """NumPy's transforms do not run under the TensorFlow backend; under the NumPy backend either every time or (if another
        implementation stands behind that name) never"""
        if b == 0:
            true("%s: no NumPy transform under the TensorFlow backend" % what, not fakes.FFTS)
        else:
            SEEN.setdefault(what, set()).add(bool(fakes.FFTS))
            true("%s: NumPy transform under the NumPy backend" % what, len(SEEN[what]) == 1)
        del fakes.FFTS[:]
    try:
        first = D.bool("first")
        for k in range(4):
            b = (int(first) + k) % 2
            L.B.fft_backend = b
            true("reported", int(L.B.fft_backend) == b)
            del fakes.FFTS[:]
            s.propagate_to_image(a)
            used("image", b)
            fields_ok(L, v, s, val, tr, px, py, "backend %d " % b)
            del fakes.FFTS[:]
            if v.kind == "dmd":
                v.o.calculate_dmd_state(np.ones(v.shape), tgt, method="ideal")
                used("mirror hologram", b)
                sp, amp, pi, po, c = S.target_hologram(np.ones(v.shape), tgt, 1.0)
                close("hologram", v.o.dmd_state, S.lee(amp, pi, po, S.grating_phase(*v.xy(), v.p, v.th), v.neg), 2e-3 * L.eps + 1e-9)
                v.o.dmd_state = tr.astype(L.R)
            else:
                st = np.array(v.o.slm_state)
                v.o.calculate_hologram(np.ones(v.shape), tgt, method="gs", N=1)
                used("phase hologram", b)
                true("hologram", np.all(np.isfinite(v.o.slm_state)))
                v.o.slm_state = st
    finally:
        L.B.fft_backend = old


SEEN = {}


# ---- C28 -----------------------------------------------------------------------------------------------------------------
@case("C28", 6)
def parameters(D, L):
    v = Dv(D, L, 1, 9)

    def ok(what):
        o = v.o
        true(what + " wavelength", o.wavelength == v.wl and o.focal_length == v.f and o.pixel_size == v.d)
        true(what + " size", (o.Nx, o.Ny) == (v.Nx, v.Ny))
        true(what + " factor", abs(o.scaling_factor - v.lf) <= 1e-12 * v.lf, o.scaling_factor)
        if v.kind == "dmd":
            x, y = o.first_order_origin
            q = v.lf / v.p
            close(what + " origin x", x, np.cos(v.th) * q, 1e-5 * L.eps * q)
            close(what + " origin y", y, np.sin(v.th) * q, 1e-5 * L.eps * q)
            x, y = v.sim(L, 1, 0).first_order_origin
            close(what + " simulated origin x", x, np.cos(v.th) * q, 1e-5 * L.eps * q)
            close(what + " simulated origin y", y, np.sin(v.th) * q, 1e-5 * L.eps * q)
            close(what + " theta", o.theta, v.th, 1e-5 * L.eps)
    ok("fresh")
    v.o.fourier_plane_grid, v.o.image_plane_grid
    s = v.sim(L, 1, 1)
    if v.kind == "dmd":
        v.o.set_dmd_grating_state(method="simple")
        v.o.calculate_dmd_state(1.0, D.seed("t").random(v.shape), method="ideal")
    if v.kind != "slm":
        s.propagate_to_image(1.0)
    ok("after use")
    for n in ("wavelength", "focal_length", "Nx", "Ny", "pixel_size", "scaling_factor"):
        try:
            setattr(v.o, n, 3)
        except AttributeError:
            pass
    ok("after assignments")


@case("C28", 1)
def models(D, L):
    for n, nx, ny, d in (("DLP9500", 1920, 1080, 10.8e-6), ("DLP7000", 1024, 768, 13.68e-6), ("DLP9000", 2560, 1600, 7.56e-6)):
        for neg in (False, True):
            o = getattr(L.slm, n)(3.5e-7, 0.25, 4.5, 0.7, negative_order=neg)
            true(n, (o.Nx, o.Ny) == (nx, ny) and abs(o.pixel_size - d) < 1e-9 * d, o.Nx, o.Ny, o.pixel_size)
            true(n + " optics", o.wavelength == 3.5e-7 and o.focal_length == 0.25)
            true(n + " order", bool(o.negative_order) == neg)
            q = 3.5e-7 * 0.25 / (4.5 * d)
            close(n + " origin", o.first_order_origin, (np.cos(0.7) * q, np.sin(0.7) * q), 1e-5 * L.eps * q)
    o = L.slm.PLUTO_2(3.5e-7, 0.25)
    true("PLUTO_2", (o.Nx, o.Ny) == (1920, 1080) and abs(o.pixel_size - 8e-6) < 1e-14 and o.wavelength == 3.5e-7 and o.focal_length == 0.25)


@case("C07", 6)
def in_place(D, L):
    "the state array and the light are changed in place between propagations of the same simulation"
    v = Dv(D, L, 2, 7, D.pick("k", ["dmd", "lcos"]))
    px, py = D.int("padding_x", 0, 2), D.int("padding_y", 0, 2)
    r = D.seed("changes")
    s, other = v.sim(L, px, py), v.sim(L, 0, 0)
    put_state(D, L, v)
    a = crand(r, v.shape).astype(L.C)
    for k in range(4):
        op = D.pick("op%d" % k, ["write", "patch", "light", "none", "flip"])
        st = v.o.dmd_state if v.kind == "dmd" else v.o.slm_state
        if op == "write":
            st[r.integers(0, v.Ny), r.integers(0, v.Nx)] = r.integers(0, 2)
        elif op == "flip":
            st[...] = ~st if st.dtype == bool else 1 - st
        elif op == "patch" and v.kind == "dmd":
            v.o.circular_patch(int(r.integers(0, v.Ny)), int(r.integers(0, v.Nx)), float(r.integers(0, 2)), 0, 0, float(r.uniform(1, 5)), method="simple")
        elif op == "light":
            a *= 0.5
            a[0, 0] = 1
        st = np.array(v.o.dmd_state if v.kind == "dmd" else v.o.slm_state)
        tr = np.real(st).astype(float) if v.kind == "dmd" else np.exp(1j * st.astype(complex))
        s.propagate_to_image(a)
        fields_ok(L, v, s, a.astype(complex), tr, px, py, "after %s (%d): " % (op, k))
        other.propagate_to_image(a)
        fields_ok(L, v, other, a.astype(complex), tr, 0, 0, "another simulation after %s (%d): " % (op, k))
        keep = np.array(s.output_field)
        if v.kind == "dmd":
            v.o.dmd_state[0, 0] = not v.o.dmd_state[0, 0]
        else:
            v.o.slm_state[0, 0] += 1
        a[0, 0] += 1
        same("the results stay", s.output_field, keep)

from .common import *
from .prof import opaque, zern
from .grids import sim
from .sim import dmd_bool


# ---- C24 ----------------------------------------------------------------------------------------------------------
def c24_forward(v):
    "every j >= 0 gives integers (n, m) with n >= 0, |m| <= n, n - m even and j = (n (n + 2) + m) / 2"
    v.package()
    an = v.module("analysis")
    j = v.int("j", 0, None, gen=lambda r: int(r.integers(0, 60)))
    s = T.fn("sqrt", T.add(num(9), T.scale(j.t, 8)))
    r = pair(v, "result", an.ansi_j_to_n_m(j))
    n, m = [v.value(x) for x in r]
    v.true("n is an integer", n.sort == "I")
    v.true("m is an integer", m.sort == "I")
    # n (n + 1) = 2 h: one of two neighbours is even
    h = T.fdiv(T.mul(n, T.add(n, num(1))), num(2))
    v.lemma("n (n + 1) is even", eq(T.mul(n, T.add(n, num(1))), T.scale(h, 2)))
    v.eq("j", T.scale(j.t, 2), T.add(T.mul(n, T.add(n, num(2))), m))
    v.step("n not negative", le(num(0), n))
    v.true("m not above n", le(m, n))
    lo = T.add(T.scale(n, 2), num(1))
    v.step("root above 2 n + 1", lt(lo, s))
    v.step("squared", lt(T.mul(lo, lo), T.add(num(9), T.scale(j.t, 8))))
    v.step("n (n + 1) / 2 not above j", le(h, j.t))
    v.true("m not below -n", le(T.scale(n, -1), m))
    e = T.sub(T.add(h, n), j.t)
    v.eq("n - m even", T.sub(n, m), T.scale(e, 2))


def c24_converse(v):
    "every admissible (n, m) is returned for j = (n (n + 2) + m) / 2"
    v.package()
    an = v.module("analysis")
    n = v.int("n", 0, None, gen=lambda r: int(r.integers(0, 8)))
    q = v.int("q", 0, None, gen=lambda r: int(r.integers(0, 4)))
    v.assume(le(q.t, n.t))
    h = v.int("h", 0, None, gen=lambda r: 0)
    v.ctx.vars["h"] = lambda r: 0
    v.lemma("n (n + 1) is even", eq(T.mul(n.t, T.add(n.t, num(1))), T.scale(h.t, 2)))
    m = T.sub(n.t, T.scale(q.t, 2))
    j = T.sub(T.add(h.t, n.t), q.t)
    v.eq("index", T.scale(j, 2), T.add(T.mul(n.t, T.add(n.t, num(2))), m))
    r = pair(v, "result", an.ansi_j_to_n_m(SInt(j)))
    v.step("n", eq(v.value(r[0]), n.t))
    v.eq("m", v.value(r[1]), m)


def c24_small(v):
    "the first modes, and each is accepted by the Zernike profile"
    v.package()
    an = v.module("analysis")
    a, R = v.real("a"), v.real("radius", pos=True)
    j = 0
    for n in range(6):
        for m in range(-n, n + 1, 2):
            r = pair(v, "result", an.ansi_j_to_n_m(j))
            v.eq("n", v.value(r[0]), num(n))
            v.eq("m", v.value(r[1]), num(m))
            z, e = v.attempt(v.m.Zernike, a, R, r[0], r[1])
            v.true("accepted", e is None)
            j += 1


# ---- C25 ----------------------------------------------------------------------------------------------------------
def zernike_stub(v):
    """the Zernike profile under its own contract (C13): a function of (a, radius, n, m, normalize, extrapolate, x, y) and nothing else"""
    class Zernike(v.m.FunctionProfile):
        def __init__(self, a, radius, n=0, m=0, normalize=True, extrapolate=False):
            object.__setattr__(self, "key", tuple(tm(z) for z in (a, radius, n, m)) + tuple(as_term(z) for z in (normalize, extrapolate)))

        def _func(self, x, y):
            return X.TfTensor(nd.emap(lambda x, y: mode(self.key, x, y), v.FT, x.core, y.core))
    return Zernike


def as_term(b):
    t = tm(b)
    return ite(t, num(1), num(0)) if t.sort == "B" else t


def mode(key, x, y):
    a, R, n, m, nz, ex = key
    z = T.mul(a, T.fn("prof_zern", R, n, m, nz, ex, x, y))
    return ite(and_(eq(ex, num(0)), lt(T.mul(R, R), dist2(x, y))), num(0), z)


def map_xy(ny, nx, i, j):
    return T.sub(j, half(T.sub(nx, num(1)))), T.sub(half(T.sub(ny, num(1))), i)


class Map:
    """an arbitrary map with an aperture that is not empty"""

    def __init__(self, v):
        self.Ny, self.Nx = v.int("Ny", 1), v.int("Nx", 1)
        self.ny, self.nx = self.Ny.t, self.Nx.t
        self.sh = (self.ny, self.nx)
        self.a = v.ndarray("map", (self.Ny, self.Nx), v.config.get("dtype", "float64"))
        self.g = elem_of(self.a)
        self.R = v.real("radius", pos=True, gen=lambda r: float(r.choice([1.5, 2.25, 0.75, 10.0])))
        self.count = A.sum_term(self.sh, lambda i, j: ite(self.open(i, j), num(1), num(0)))
        v.assume(lt(num(0), self.count))

    def xy(self, i, j):
        return map_xy(self.ny, self.nx, i, j)

    def open(self, i, j):
        return lt(dist2(*self.xy(i, j)), T.mul(self.R.t, self.R.t))

    def mean(self, f):
        return T.div(A.sum_term(self.sh, lambda i, j: ite(self.open(i, j), f(i, j), num(0))), self.count)

    def project(self, f, z):
        return self.mean(lambda i, j: T.mul(f(i, j), z(i, j)))


def library(v):
    "the analysis module, with the Zernike profile replaced by its contract unless the configuration says otherwise"
    if v.config.get("real"):
        return v.module("analysis"), lambda R, n, m, ex: (lambda x, y: zern(num(1), R, n, m, True, ex, x, y))
    Z = zernike_stub(v)
    v.module("profile").Zernike = Z
    an = v.module("analysis")
    an.Zernike = Z
    return an, lambda R, n, m, ex: (lambda x, y: mode((num(1), R, T.lift(n), T.lift(m), num(1), as_term(ex)), x, y))


def c25_decompose(v):
    "the coefficients are the mean projections on the modes in ANSI order; the reconstruction is the sum of coefficient times mode"
    v.package()
    an, Z = library(v)
    M = Map(v)
    c = v.config
    k = c["terms"]
    kw = {}
    ex = False
    if c.get("extrapolate"):
        ex = v.bool("extrapolate")
        kw["extrapolate"] = ex
    if c.get("verbose"):
        kw["verbose"] = True
    rec = c.get("reconstruct", False)
    if rec:
        kw["reconstruct"] = True
    r = an.zernike_decomposition(M.a, M.R, k, **kw)
    if rec:
        r = pair(v, "result", r)
        r, p = r
    if not isinstance(r, list):
        return v.fail("list", "is a %s" % type(r).__name__)

    def z_of(idx):
        n, m = idx
        f = Z(M.R.t, n, m, ex)
        return lambda i, j: f(*M.xy(i, j))
    nms = [(0, 0), (1, -1), (1, 1), (2, -2), (2, 0), (2, 2), (3, -3)]
    v.true("length", len(r) == k)
    for i in range(min(k, len(r))):
        v.eq("coefficient %d" % i, v.value(r[i]), M.project(M.g, z_of(nms[i])))
    if rec:
        zs = [z_of(nms[i]) for i in range(k)]
        v.forall("reconstruction", p, M.sh, lambda i, j: T.add(num(0), *[T.mul(M.project(M.g, z), z(i, j)) for z in zs]))
    v.forall("map", M.a, M.sh, M.g, v.config.get("dtype", "float64"))


def c25_any(v):
    "any number of terms: coefficient number idx, for every idx, and the reconstruction as the running sum"
    v.package()
    an, Z = library(v)
    v.m.BACKEND.dtype        # the precision is already in use
    M = Map(v)
    N = v.int("num_terms", 1, None, gen=lambda r: int(r.integers(1, 5)))
    rec = v.config.get("reconstruct", False)
    ex = v.bool("extrapolate")
    r = an.zernike_decomposition(M.a, M.R, N, reconstruct=rec, extrapolate=ex)
    p = None
    if rec:
        r, p = pair(v, "result", r)
    sym = getattr(r, "sym", None) if isinstance(r, list) else r
    if not isinstance(sym, SList):
        return v.fail("list", "is a %s" % type(r).__name__)
    v.eq("length", sym.n, N.t)

    def z_at(idx):
        n, m = pair(v, "index", an.ansi_j_to_n_m(SInt(idx)))      # by its contract (C24)
        f = Z(M.R.t, tm(n), tm(m), ex)
        return lambda i, j: f(*M.xy(i, j))
    k = v.idx("idx", N.t)
    v.eq("coefficient", v.value(sym.get(k)), M.project(M.g, z_at(k)))
    if rec:
        q = v.idx("term", N.t)
        z = z_at(q)
        v.forall("reconstruction", p, M.sh, lambda i, j: A.sum_term((N.t,), lambda k: A.subst_v(T.mul(M.project(M.g, z), z(i, j)), {q: k})))
    v.forall("map", M.a, M.sh, M.g, "float64")


def beyond(v, M, z):
    "the value at a pixel if it lies beyond the radius"
    i, j = v.idx("i", M.ny), v.idx("j", M.nx)
    return ite(lt(T.mul(M.R.t, M.R.t), dist2(*M.xy(i, j))), z(i, j), num(0))


def c25_trivial(v):
    "piston, the two tilts, and defocus exactly when asked, are subtracted one after the other"
    v.package()
    an, Z = library(v)
    M = Map(v)
    c = v.config
    kw = {}
    if c.get("verbose"):
        kw["verbose"] = True
    if "defocus" in c:
        kw["remove_defocus"] = c["defocus"]
    r = an.remove_trivial_phase(M.a, M.R, **kw)
    f = M.g
    for n, m in [(0, 0), (1, -1), (1, 1)] + [(2, 0)] * bool(c.get("defocus")):
        z = Z(M.R.t, num(n), num(m), False)
        zz = lambda i, j, z=z: z(*M.xy(i, j))
        v.eq("mode (%d, %d) vanishes beyond the radius" % (n, m), beyond(v, M, zz), num(0))
        f = (lambda f, zz, co: lambda i, j: T.sub(f(i, j), T.mul(co, zz(i, j))))(f, zz, M.project(f, zz))
    v.forall("result", r, M.sh, f, None, "np")
    v.forall("map", M.a, M.sh, M.g, c.get("dtype", "float64"))


# ---- C26 ----------------------------------------------------------------------------------------------------------
READS = {"dtype": 0, "dtype_complex": 1, "dtype_int": 2}
WIDTH = {32: ("float32", "complex64", "int32"), 64: ("float64", "complex128", "int64")}
OTHER = [n for n in nd.DT if n not in ("float32", "float64")]


def check_width(v, name, B, w):
    for a, k in READS.items():
        v.true("%s.%s" % (name, a), X.dtname(getattr(B, a)) == WIDTH[w][k])


class Anything:
    """a value that equals nothing else"""
    def __eq__(self, o): return self is o
    __hash__ = object.__hash__


def others(v):
    vals = [getattr(v.tf, n) for n in OTHER]
    return vals + [Anything(), None, 32, 64, 0, True, "double precision", (v.tf.float32, v.tf.float64)]


def c26_choice(v):
    "a precision that was never read can be set, any number of times, to 32 or 64 bits and to nothing else"
    v.package(set_precision=False)
    B, tf = v.m.BACKEND, v.tf
    for w in v.config["seq"]:
        if w == "bad":
            for x in others(v):
                v.raises("refused", ValueError, setattr, B, "dtype", x)
        else:
            r, e = v.attempt(setattr, B, "dtype", {32: tf.float32, 64: tf.float64}[w])
            v.true("accepted", e is None)
    last = [w for w in v.config["seq"] if w != "bad"]
    check_width(v, "width", B, last[-1] if last else 32)
    check_width(v, "again", B, last[-1] if last else 32)


def c26_frozen(v):
    "after the first read of any of the three precisions every later set raises and changes nothing"
    v.package(set_precision=False)
    B, tf = v.m.BACKEND, v.tf
    w = v.config["w"]
    if w == 64:
        B.dtype = tf.float64
    getattr(B, v.config["read"])
    for x in [tf.float32, tf.float64] + others(v):
        v.raises("frozen", Exception, setattr, B, "dtype", x)
        check_width(v, "unchanged", B, w)


def c26_alias(v):
    "the published names TENSOR_32BITS and TENSOR_64BITS select the widths"
    v.package(set_precision=False)
    B = v.m.BACKEND
    B.dtype = {32: B.TENSOR_32BITS, 64: B.TENSOR_64BITS}[v.config["w"]]
    check_width(v, "width", B, v.config["w"])


def c26_used(v):
    "grids, profiles, holograms and fields have the configured width"
    v.package()
    d = dmd_bool(v)
    for n, g in (("device", d.o._fourier_plane_grid()), ("image", d.o._image_plane_grid())):
        for x in pair(v, n, g):
            v.array(n, x, (d.ny, d.nx), v.FT)
    for c in (False, True):
        x = d.o.profile_to_tensor(v.real("number"), complex=c)
        v.array("profile", x, (d.ny, d.nx), v.CT if c else v.FT)
        x = d.o.profile_to_tensor(opaque(v, "f"), at_fourier_plane=False, complex=c)
        v.array("profile", x, (d.ny, d.nx), v.CT if c else v.FT)
    s = sim(v, d)
    s.o.propagate_to_image(v.ndarray("light", (d.Ny, d.Nx), "complex128"))
    for n in ("input", "output", "image_plane"):
        v.array(n + "_field", getattr(s.o, n + "_field"), (s.ny, s.nx), v.CT)
        v.array(n + "_intensity", getattr(s.o, n + "_intensity"), (s.ny, s.nx), v.FT)
    d.o.set_dmd_grating_state(method="ideal")
    v.array("grating", d.o.dmd_state, (d.ny, d.nx), v.FT)
    l = lcos(v, "l")
    for kw in (dict(method="gs"), dict(method="mraf", signal_window=1)):
        l.o.calculate_hologram(v.ndarray("l2", (l.Ny, l.Nx), "complex128"), v.ndarray("t2", (l.Ny, l.Nx), "float64"), N=2, **kw)
        v.array("hologram", l.o.slm_state, (l.ny, l.nx), v.FT)


# ---- C27 ----------------------------------------------------------------------------------------------------------
def c27_transform(v):
    "forward and inverse are the 2-D DFT and its inverse, for any size and either backend"
    v.package()
    L = v.module("_lib")
    ny, nx = v.int("ny", 1), v.int("nx", 1)
    a = v.tensor("field", (ny, nx), v.CT)
    g = elem_of(a)
    sh = (ny.t, nx.t)
    F, G = L._fourier_transform(a), L._inverse_fourier_transform(a)
    f, h = A.transform("fft2", sh, lambda i, j: cx(g(i, j))), A.transform("ifft2", sh, lambda i, j: cx(g(i, j)))
    v.forall("forward", F, sh, lambda i, j: f.at((i, j)), v.CT, "tf")
    v.forall("inverse", G, sh, lambda i, j: h.at((i, j)), v.CT, "tf")
    B = L._inverse_fourier_transform(F)
    b = A.transform("ifft2", sh, lambda i, j: f.at((i, j)))
    v.forall("there and back", B, sh, lambda i, j: b.at((i, j)), v.CT, "tf")
    i, j = v.idx("i", ny), v.idx("j", nx)
    v.lemma("dft-inversion: the inverse discrete Fourier transform undoes the forward one",
            and_(eq(b.at((i, j)).re, g(i, j).re), eq(b.at((i, j)).im, g(i, j).im)))
    v.eq("inverse to each other", b.at((i, j)), g(i, j))
    v.forall("input", a, sh, g, v.CT)


def c27_switch(v):
    "the selected backend carries out the next computation, also for sizes computed with before; the result is the same"
    v.package()
    L = v.module("_lib")
    B = v.m.BACKEND
    ny, nx = v.int("ny", 1), v.int("nx", 1)
    a = v.tensor("field", (ny, nx), v.CT)
    g = elem_of(a)
    sh = (ny.t, nx.t)
    sel = "tensorflow" if v.config.get("gpu") else "numpy"
    for kind, f in (("fft2", L._fourier_transform), ("ifft2", L._inverse_fourier_transform)):
        w = A.transform(kind, sh, lambda i, j: cx(g(i, j)))
        for k, b in enumerate(v.config["seq"]):
            if b is not None:
                B.fft_backend = {"numpy": B.FFT_BACKEND_NUMPY, "tensorflow": B.FFT_BACKEND_TENSORFLOW}[b]
            v.ctx.fft_log.clear()
            r = f(a)
            v.forall("%s.%d" % (kind, k), r, sh, lambda i, j: w.at((i, j)), v.CT)
            if b is not None:
                sel = b
            v.true("%s.%d computed by the selected backend" % (kind, k), v.ctx.fft_log == [sel])


def c27_simulation(v):
    "a device and a simulation used before follow the selection, with the same fields"
    v.package()
    B = v.m.BACKEND
    d = dmd_bool(v)
    s = sim(v, d)
    e = field(v, "light", d)
    got = []
    for b in (1, 0, 1):
        B.fft_backend = b
        v.ctx.fft_log.clear()
        s.o.propagate_to_image(e)
        got.append(s.o.image_plane_field)
        v.true("backend %d" % b, v.ctx.fft_log == [{0: "tensorflow", 1: "numpy"}[b]])
    w = elem_of(got[0])
    for x in got[1:]:
        v.forall("same", x, (s.ny, s.nx), w, v.CT, "np")


def precs(*cfgs):
    return [dict(c, prec=p) for p in (32, 64) for c in cfgs]


CONTRACTS = {
    "C24": [Contract("forward", c24_forward, precs({})[:1]), Contract("converse", c24_converse, precs({})[:1]),
            Contract("small", c24_small, precs({})[:1])],
    "C25": [Contract("decompose", c25_decompose, precs({"terms": 4, "reconstruct": True, "extrapolate": True}, {"terms": 0}, {"terms": 6},
                                                       {"terms": 3, "verbose": True, "reconstruct": True},
                                                       {"terms": 2, "dtype": "float32"}, {"terms": 2, "dtype": "int64"},
                                                       {"terms": 3, "real": True, "reconstruct": True})),
            Contract("any", c25_any, precs({}, {"reconstruct": True})),
            Contract("trivial", c25_trivial, precs({}, {"defocus": True}, {"defocus": False, "verbose": True}, {"dtype": "int64", "defocus": True},
                                                   {"dtype": "float32"}, {"real": True, "defocus": True}))],
    "C26": [Contract("choice", c26_choice, [{"seq": s} for s in ([], [32], [64], [64, 32], [32, 64], ["bad"], ["bad", 64], [64, "bad"], [64, 64, "bad", 32])], past=0),
            Contract("frozen", c26_frozen, [{"w": w, "read": r} for w in (32, 64) for r in READS], past=0),
            Contract("alias", c26_alias, [{"w": 32}, {"w": 64}], past=0),
            Contract("used", c26_used, precs({}))],
    "C27": [Contract("transform", c27_transform, precs({"fft": "sym"}), past_with={}),
            Contract("switch", c27_switch, precs({"seq": [None, "tensorflow", "numpy", "tensorflow"]},
                                                 {"seq": ["numpy", "numpy", "tensorflow", "numpy"]}, {"seq": [None, "numpy"], "gpu": True}), past=0),
            Contract("simulation", c27_simulation, precs({}))],
}

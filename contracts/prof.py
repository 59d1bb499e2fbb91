from .common import *


# ---- arbitrary profiles ---------------------------------------------------------------------------------------------
def opaque(v, name, cplx=False):
    """a profile about which nothing is known but its (real or complex) value at every point"""
    def value(x, y):
        re = T.fn("prof_" + name, x, y)
        return Cx(re, T.fn("prof_im_" + name, x, y)) if cplx else re

    class Opaque(v.m.FunctionProfile):
        def _func(self, x, y):
            c = nd.emap(value, v.CT if cplx else v.FT, x.core, y.core)
            return X.TfTensor(c)
    o = Opaque()
    o.spec, o.cplx = value, cplx
    return o


def points(v, name="", rank=2):
    """coordinate arrays of any size"""
    sh = tuple(v.int("%slen%d" % (name, k), 1) for k in range(rank))
    return v.ndarray(name + "x", sh), v.ndarray(name + "y", sh)


def check_value(v, name, p, spec, cplx=None, xy=None, rank=2):
    """p evaluates at every coordinate to spec(x, y), one value per coordinate"""
    x, y = xy or points(v, name, rank)
    r = p(x, y)
    dt = None if cplx is None else (v.CT if cplx else v.FT)
    ex, ey = elem_of(x), elem_of(y)
    v.forall(name, r, x.core.shape, lambda *ix: spec(ex(*ix), ey(*ix)), dt, "np")


def both(cfgs):
    return [dict(c, prec=p) for p in (32, 64) for c in cfgs]


# ---- C08 --------------------------------------------------------------------------------------------------------------
ARRAYS = ["float32", "float64", "int64", "bool", "complex64", "complex128"]
C08 = [{"kind": k, "complex": c} for k in ["profile", "cprofile", "window", "constant", "cconstant", "float", "int", "complexnum", "npscalar",
                                           "tensor0", "big"] + ["nd:" + a for a in ARRAYS] + ["tf:" + a for a in ARRAYS]
       for c in (False, True)
       if c or k not in ("cprofile", "cconstant", "complexnum") and "complex" not in k]


def c08_sample(v):
    "profile_to_tensor: plane, shape, precision and values; the argument is not modified"
    v.package()
    d = {"slm": slm, "dmd": dmd, "lcos": lcos}[v.config.get("device", "slm")](v)
    k, cplx = v.config["kind"], v.config["complex"]
    keep = None
    if k in ("profile", "cprofile"):
        p = opaque(v, "f", k == "cprofile")
        val_ = p.spec
    elif k == "window":
        r = v.real("r", pos=True)
        p = v.m.RectangularWindowCircular(0.0, 0.0, r)
        val_ = lambda x, y: ite(le(dist2(x, y), T.mul(r.t, r.t)), num(1), num(0))
    elif k in ("constant", "cconstant"):
        c = v.real("c")
        z = SComplex(Cx(c.t, v.real("ci").t)) if k == "cconstant" else c
        p = v.m.ConstantProfile(z)
        val_ = lambda x, y: val(z)
    elif k in ("float", "int", "complexnum", "npscalar", "tensor0"):
        c = v.real("c")
        p = {"float": lambda: c, "int": lambda: v.int("ci"), "complexnum": lambda: SComplex(Cx(c.t, v.real("ci").t)),
             "npscalar": lambda: v.np.float64(c), "tensor0": lambda: v.tf.constant(c, dtype=v.tf.float64)}[k]()
        q = tm(p)
        val_ = lambda x, y: q
    elif k == "big":
        # a nested expression
        f, g = opaque(v, "f"), opaque(v, "g")
        p = (f + g.shift(1.0, 2.0)) * 2.0
        val_ = lambda x, y: T.scale(T.add(f.spec(x, y), g.spec(T.sub(x, num(1)), T.sub(y, num(2)))), 2)
    else:
        how, dt = k.split(":")
        p = (v.ndarray if how == "nd" else v.tensor)("a", (d.Ny, d.Nx), dt)
        keep = elem_of(p)
        val_ = None
    plane = v.bool("at_fourier_plane")
    for n in range(2):
        t = d.o.profile_to_tensor(p, at_fourier_plane=plane, complex=cplx)

        def spec(i, j):
            if val_ is None:
                z = keep(i, j)
            else:
                a, b = dev_xy(d, i, j), img_xy(d.lf, d.d.t, d.nx, d.ny, i, j)
                z = val_(ite(plane.t, a[0], b[0]), ite(plane.t, a[1], b[1]))
            z = z if isinstance(z, Cx) or z.sort != "B" else ite(z, num(1), num(0))
            return cx(z) if cplx else z
        v.forall("value%d" % n, t, (d.ny, d.nx), spec, v.CT if cplx else v.FT, "tf")
    if keep is not None:
        v.forall("argument", p, (d.ny, d.nx), keep, k.split(":")[1])


def c08_default(v):
    "by default the device plane and the real precision are used"
    v.package()
    d = slm(v)
    f = opaque(v, "f")
    v.forall("value", d.o.profile_to_tensor(f), (d.ny, d.nx), lambda i, j: f.spec(*dev_xy(d, i, j)), v.FT, "tf")
    # and a second, different device afterwards
    e = slm(v, "other_")
    v.forall("other", e.o.profile_to_tensor(f), (e.ny, e.nx), lambda i, j: f.spec(*dev_xy(e, i, j)), v.FT, "tf")
    v.forall("image", e.o.profile_to_tensor(f, at_fourier_plane=False), (e.ny, e.nx),
             lambda i, j: f.spec(*img_xy(e.lf, e.d.t, e.nx, e.ny, i, j)), v.FT, "tf")


# ---- C09 --------------------------------------------------------------------------------------------------------------
OPS = {"add": lambda a, b: a + b, "sub": lambda a, b: a - b, "mul": lambda a, b: a * b, "div": lambda a, b: a / b, "pow": lambda a, b: a ** b}


def arith(op, a, b):
    if isinstance(a, Cx) or isinstance(b, Cx):
        a, b = cx(a), cx(b)
    if op == "pow" and not isinstance(a, Cx):
        return T.fn("powr", a, b)
    if op == "pow":
        return X.k_arith("pow", a, b, "c")
    return OPS[op](a, b)


def scalar(v, kind):
    if kind == "int":
        return v.int("c")
    if kind == "float":
        return v.real("c")
    return SComplex(Cx(v.real("c").t, v.real("ci").t))


def c09_pair(v):
    "f op g at every point, for real and complex profiles"
    v.package()
    op, a, b = v.config["op"], v.config["f"], v.config["g"]
    f, g = opaque(v, "f", a == "c"), opaque(v, "g", b == "c")
    p = OPS[op](f, g)
    c = a == "c" or b == "c"
    check_value(v, "value", p, lambda x, y: arith(op, f.spec(x, y), g.spec(x, y)), c)
    check_value(v, "again", p, lambda x, y: arith(op, f.spec(x, y), g.spec(x, y)), c, rank=1)
    check_value(v, "f.unchanged", f, f.spec, a == "c")
    check_value(v, "g.unchanged", g, g.spec, b == "c")
    same = OPS[op](f, f)
    check_value(v, "same", same, lambda x, y: arith(op, f.spec(x, y), f.spec(x, y)), a == "c", rank=1)


def c09_scalar(v):
    "f op c, and c + f, c * f, at every point"
    v.package()
    op, a, k = v.config["op"], v.config["f"], v.config["c"]
    f = opaque(v, "f", a == "c")
    c = scalar(v, k)
    z = val(c)
    cp = a == "c" or k == "complex"
    p = OPS[op](f, c)
    check_value(v, "right", p, lambda x, y: arith(op, f.spec(x, y), z), cp)
    if op in ("add", "mul"):
        q = OPS[op](c, f)
        check_value(v, "left", q, lambda x, y: arith(op, z, f.spec(x, y)), cp)
    check_value(v, "f.unchanged", f, f.spec, a == "c")


def c09_neg(v):
    "negation"
    v.package()
    f = opaque(v, "f", v.config["f"] == "c")
    check_value(v, "value", -f, lambda x, y: -f.spec(x, y), v.config["f"] == "c")
    check_value(v, "f.unchanged", f, f.spec, v.config["f"] == "c")


def c09_nested(v):
    "nested expressions, repeated operands, expressions of expressions"
    v.package()
    f, g, h = opaque(v, "f"), opaque(v, "g", True), opaque(v, "h")
    c = v.real("c")
    p = (f + g) * (f - c) / h - (-g)
    q = p * p + f
    F, G, H = f.spec, g.spec, h.spec

    def sp(x, y):
        return (cx(F(x, y)) + G(x, y)) * (F(x, y) - c.t) / H(x, y) + G(x, y)
    check_value(v, "p", p, sp, True)
    check_value(v, "q", q, lambda x, y: sp(x, y) * sp(x, y) + F(x, y), True, rank=1)
    check_value(v, "p.again", p, sp, True, rank=1)
    for n, e in (("f", f), ("g", g), ("h", h)):
        check_value(v, n + ".unchanged", e, e.spec, e.cplx, rank=1)


def c09_constant(v):
    "expressions with constant profiles and beams"
    v.package()
    k = v.config["c"]
    c, w, a = scalar(v, k), v.real("w", pos=True), v.real("a")
    b = v.m.SuperGaussian(0.0, 0.0, a, w)
    if k == "int":
        c = SFloat(val(c))
    p = v.m.ConstantProfile(c)
    B = lambda x, y: T.mul(a.t, T.fn("exp", T.scale(T.div(dist2(x, y), T.mul(w.t, w.t)), -1)))
    z = val(c)
    cp = k == "complex"
    check_value(v, "b+c", b + p, lambda x, y: arith("add", B(x, y), z), cp)
    check_value(v, "c-b", p - b, lambda x, y: arith("sub", z, B(x, y)), cp)
    check_value(v, "c*c", p * p, lambda x, y: arith("mul", z, z), cp)
    check_value(v, "b", b, B, False)
    check_value(v, "c", p, lambda x, y: z, cp)


# ---- C10 --------------------------------------------------------------------------------------------------------------
def rot(t, x, y):
    c, s = T.fn("cos", t), T.fn("sin", t)
    return T.sub(T.mul(x, c), T.mul(y, s)), T.add(T.mul(x, s), T.mul(y, c))


def transforms(v, tag=""):
    dx, dy, t = v.real(tag + "dx"), v.real(tag + "dy"), v.real(tag + "t")
    mx, my = v.real(tag + "mx", nonzero=True), v.real(tag + "my", nonzero=True)
    return {
        "shift": (lambda f: f.shift(dx, dy), lambda x, y: (T.sub(x, dx.t), T.sub(y, dy.t))),
        "rotate": (lambda f: f.rotate(t), lambda x, y: rot(t.t, x, y)),
        "rescale_x": (lambda f: f.rescale_x(mx), lambda x, y: (T.div(x, mx.t), y)),
        "rescale_y": (lambda f: f.rescale_y(my), lambda x, y: (x, T.div(y, my.t))),
    }


def c10_single(v):
    "each coordinate transform and as_complex_profile, for real and complex profiles; the original stays"
    v.package()
    f = opaque(v, "f", v.config["f"] == "c")
    for n, (tr, co) in transforms(v).items():
        p = tr(f)
        check_value(v, n, p, lambda x, y, co=co: f.spec(*co(x, y)), f.cplx)
        check_value(v, n + ".again", p, lambda x, y, co=co: f.spec(*co(x, y)), f.cplx, rank=1)
    p = f.as_complex_profile()
    check_value(v, "as_complex", p, lambda x, y: (Cx(0, 1) * cx(f.spec(x, y))).exp(), True)
    check_value(v, "f.unchanged", f, f.spec, f.cplx)


def c10_compose(v):
    "transforms compose as coordinate maps"
    v.package()
    f = opaque(v, "f")
    T1, T2 = transforms(v), transforms(v, "b_")
    n = v.config["first"]
    for m in T2:
        p = T2[m][0](T1[n][0](f))
        # (T2 T1 f)(x) = (T1 f)(c2(x)) = f(c1(c2(x)))
        check_value(v, n + "." + m, p, lambda x, y: f.spec(*T1[n][1](*T2[m][1](x, y))), False)
    q = T1[n][0](f).as_complex_profile()
    check_value(v, n + ".complex", q, lambda x, y: expi(f.spec(*T1[n][1](x, y))), True)
    r = T1[n][0](f.as_complex_profile())
    check_value(v, "complex." + n, r, lambda x, y: expi(f.spec(*T1[n][1](x, y))), True)


def c10_back(v):
    "shifting back undoes a shift; rotating back undoes a rotation; transforms of expressions"
    v.package()
    f, g = opaque(v, "f"), opaque(v, "g")
    dx, dy, t, m = v.real("dx"), v.real("dy"), v.real("t"), v.real("m", nonzero=True)
    check_value(v, "shift", f.shift(dx, dy).shift(-dx, -dy), f.spec, False)
    check_value(v, "rotate", f.rotate(t).rotate(-t), f.spec, False)
    check_value(v, "rescale", f.rescale_x(m).rescale_x(1 / m), f.spec, False)
    e = (f * g).shift(dx, dy) + f
    check_value(v, "expr", e, lambda x, y: T.add(T.mul(f.spec(x - dx.t, y - dy.t), g.spec(x - dx.t, y - dy.t)), f.spec(x, y)), False)


def operators(v, tag):
    "every way of making a profile from a profile: (apply, coordinate map or None, value map, makes it complex)"
    r = {n: (tr, lambda S, co=co: lambda x, y: S(*co(x, y)), False) for n, (tr, co) in transforms(v, tag).items()}
    c, g = v.real(tag + "c"), opaque(v, tag + "g")
    r["add"] = (lambda f: f + c, lambda S: lambda x, y: S(x, y) + c.t, False)
    r["radd"] = (lambda f: c + f, lambda S: lambda x, y: S(x, y) + c.t, False)
    r["rmul"] = (lambda f: c * f, lambda S: lambda x, y: S(x, y) * c.t, False)
    r["neg"] = (lambda f: -f, lambda S: lambda x, y: -S(x, y), False)
    r["minus"] = (lambda f: f - g, lambda S: lambda x, y: S(x, y) - g.spec(x, y), False)
    r["times"] = (lambda f: g * f, lambda S: lambda x, y: S(x, y) * g.spec(x, y), False)
    r["complex"] = (lambda f: f.as_complex_profile(), lambda S: lambda x, y: (Cx(0, 1) * cx(S(x, y))).exp(), True)
    return r


COORD = ("shift", "rotate", "rescale_x", "rescale_y", "complex")


def chains(last):
    """three operators in a row (all triples): what one of them leaves behind on its result must not show in the next ones. A
    profile made by an operator is then as good an argument as any other."""
    def run(v):
        v.package()
        f = opaque(v, "f")
        n1 = v.config["first"]
        O1, O2, O3 = [operators(v, k) for k in ("a_", "b_", "c_")]
        p, S, c = O1[n1][0](f), O1[n1][1](f.spec), O1[n1][2]
        for n2, (a2, s2, c2) in O2.items():
            if c2 and c:
                continue
            q, S2 = a2(p), s2(S)
            for n3, (a3, s3, c3) in O3.items():
                if (n3 in COORD) == last or c3 and (c or c2):
                    continue
                check_value(v, "%s.%s.%s" % (n1, n2, n3), a3(q), s3(S2), c or c2 or c3, rank=1)
            check_value(v, "%s.%s" % (n1, n2), q, S2, c or c2, rank=1)
        check_value(v, n1, p, S, c, rank=1)
    run.__doc__ = chains.__doc__
    return run


def lifetimes(v):
    """an expression owns what it is made of: it keeps its value when its operands, and the expressions they were made of, are
    dropped (traced methods and traces refer to instances and variables weakly)"""
    v.package()
    x0, y0, a, w = beam_params(v)
    B = lambda x, y: T.mul(a.t, T.fn("exp", T.scale(T.div(dist2(T.sub(x, x0.t), T.sub(y, y0.t)), T.mul(w.t, w.t)), -1)))
    mk_ = lambda: v.m.SuperGaussian(x0, y0, a, w)
    used = v.config["used"]
    O1, O2 = operators(v, "a_"), operators(v, "b_")
    for n in O1:
        f = mk_()
        if used:
            check_value(v, n + ".operand", f, B, rank=1)
        p = O1[n][0](f)
        q = O2["neg" if n == "complex" else "minus"][0](p)
        r = O2["shift"][0](q)
        v.collect(f, p, q, live=[r])
        S = O2["shift"][1](O2["neg" if n == "complex" else "minus"][1](O1[n][1](B)))
        check_value(v, n, r, S, rank=1)
    f, g = mk_(), mk_()
    p = f * g + f
    v.collect(f, g, live=[p])
    check_value(v, "product", p, lambda x, y: T.add(T.mul(B(x, y), B(x, y)), B(x, y)), rank=1)


FIRST = [{"first": n} for n in ("shift", "rotate", "rescale_x", "rescale_y", "add", "radd", "rmul", "neg", "minus", "times", "complex")]


# ---- C11 --------------------------------------------------------------------------------------------------------------
def nonneg_int(v, name, hi=4):
    return v.int(name, 0, None, gen=lambda r: int(r.integers(0, hi)))


def hermite(n, u):
    "physicists' Hermite polynomial H_n(u)"
    if isinstance(n, int):
        a, b = num(1), T.scale(u, 2)
        if n == 0:
            return a
        for k in range(1, n):
            a, b = b, T.sub(T.mul(T.scale(u, 2), b), T.scale(a, 2 * k))
        return b
    return A.sum_term((T.add(n, num(1)),), lambda k: T.mul(T.fn("coef_hermite", n, k), T.power(u, T.sub(n, k))))


def laguerre(p, a, u):
    "generalised Laguerre polynomial L_p^a(u)"
    if isinstance(p, int):
        x, y = num(1), T.sub(T.add(num(1), T.lift(a)), u)
        if p == 0:
            return x
        for k in range(1, p):
            x, y = y, T.div(T.sub(T.mul(T.sub(T.add(num(2 * k + 1), T.lift(a)), u), y), T.mul(T.add(num(k), T.lift(a)), x)), num(k + 1))
        return y
    return A.sum_term((T.add(p, num(1)),), lambda k: T.mul(T.fn("coef_genlaguerre", p, a, k), T.power(u, T.sub(p, k))))


def ipow(u, k):
    return T.power(u, k) if not isinstance(k, int) else T.power(u, num(k))


def beam_params(v, nonzero=True, p=""):
    return [v.real(p + "x0"), v.real(p + "y0"), v.real(p + "a"), v.real(p + "w", pos=not nonzero, nonzero=nonzero)]


def scaled(x, y, b):
    return T.div(T.sub(x, b[0]), b[3]), T.div(T.sub(y, b[1]), b[3])


SQ2 = lambda: T.fn("sqrt", num(2))


def hg(b, n, m, x, y):
    X_, Y_ = scaled(x, y, b)
    return T.mul(b[2], hermite(n, T.mul(SQ2(), X_)), hermite(m, T.mul(SQ2(), Y_)), T.fn("exp", T.scale(dist2(X_, Y_), -1)))


def sg(b, p, x, y):
    X_, Y_ = scaled(x, y, b)
    return T.mul(b[2], T.fn("exp", T.scale(T.fn("powr", dist2(X_, Y_), p), -1)))


def lg(b, l, p, x, y):
    X_, Y_ = scaled(x, y, b)
    R2 = dist2(X_, Y_)
    al = abs(l) if isinstance(l, int) else T.fn("abs", l)
    phi = T.fn("atan2", T.sub(y, b[1]), T.sub(x, b[0]))
    amp = T.mul(b[2], ipow(T.mul(SQ2(), T.fn("sqrt", R2)), al), laguerre(p, al, T.scale(R2, 2)), T.fn("exp", T.scale(R2, -1)))
    ph = T.mul(T.lift(l), phi)
    return cx(amp) * expi(T.scale(ph, -1))


def order(v, name, x):
    return x if isinstance(x, int) else nonneg_int(v, name)


def c11_hg(v):
    "Hermite-Gaussian formula"
    v.package()
    b = beam_params(v)
    n, m = order(v, "n", v.config["n"]), order(v, "m", v.config["m"])
    p = v.m.HermiteGaussian(*b, n, m) if v.config.get("pos", True) else v.m.HermiteGaussian(*b, n=n, m=m)
    B = [t.t for t in b]
    N, M = [x if isinstance(x, int) else x.t for x in (n, m)]
    check_value(v, "value", p, lambda x, y: hg(B, N, M, x, y), False)
    v.eq("n", p.n, tm(n))
    v.eq("m", p.m, tm(m))


def c11_hg_default(v):
    "defaults: the fundamental mode; a super-Gaussian is a Gaussian"
    v.package()
    b = beam_params(v)
    B = [t.t for t in b]
    check_value(v, "hg", v.m.HermiteGaussian(*b), lambda x, y: hg(B, 0, 0, x, y), False)
    check_value(v, "sg", v.m.SuperGaussian(*b), lambda x, y: sg(B, num(1), x, y), False)
    check_value(v, "sg.scalar", v.m.SuperGaussian(*b), lambda x, y: sg(B, num(1), x, y), False, rank=1)


def c11_sg(v):
    "super-Gaussian formula"
    v.package()
    b = beam_params(v)
    q = v.real("p", pos=True)
    p = v.m.SuperGaussian(*b, q)
    B = [t.t for t in b]
    check_value(v, "value", p, lambda x, y: sg(B, q.t, x, y), False)


def c11_lg(v):
    "Laguerre-Gaussian formula"
    v.package()
    b = beam_params(v, False)
    l, q = v.config["l"], order(v, "p", v.config["p"])
    if not isinstance(l, int):
        l = v.int("l", gen=lambda r: int(r.integers(-3, 4)))
    p = v.m.LaguerreGaussian(*b, l, q)
    B = [t.t for t in b]
    L_, Q = [x if isinstance(x, int) else x.t for x in (l, q)]
    check_value(v, "value", p, lambda x, y: lg(B, L_, Q, x, y), True)


def c11_constant(v):
    "a constant profile equals its constant at every coordinate"
    v.package()
    c = scalar(v, v.config["c"])
    z = val(c)
    p = v.m.ConstantProfile(c)
    check_value(v, "value", p, lambda x, y: z, v.config["c"] == "complex")
    check_value(v, "row", p, lambda x, y: z, v.config["c"] == "complex", rank=1)
    x = v.real("x1")
    r = p(x, x)
    v.array("point", r, ())
    v.eq("point", v.value(r), z)


# ---- C12 --------------------------------------------------------------------------------------------------------------
def make_beam(v, kind, tag=""):
    """(object factory, parameter names, symbolic values, formula over values)"""
    r = lambda n, **k: v.real(tag + n, **k)
    if kind == "hg":
        ps = {"x0": r("x0"), "y0": r("y0"), "a": r("a"), "w": r("w", nonzero=True)}
        return (lambda q: v.m.HermiteGaussian(q["x0"], q["y0"], q["a"], q["w"], 2, 1)), ps, \
            (lambda q, x, y: hg([q["x0"], q["y0"], q["a"], q["w"]], 2, 1, x, y))
    if kind == "sg":
        ps = {"x0": r("x0"), "y0": r("y0"), "a": r("a"), "w": r("w", nonzero=True), "p": r("p", pos=True)}
        return (lambda q: v.m.SuperGaussian(q["x0"], q["y0"], q["a"], q["w"], q["p"])), ps, \
            (lambda q, x, y: sg([q["x0"], q["y0"], q["a"], q["w"]], q["p"], x, y))
    if kind == "const":
        ps = {"c": r("c")}
        return (lambda q: v.m.ConstantProfile(q["c"])), ps, (lambda q, x, y: q["c"])
    if kind == "cconst":
        z = SComplex(Cx(r("c").t, r("ci").t))
        return (lambda q: v.m.ConstantProfile(q["c"])), {"c": z}, (lambda q, x, y: q["c"])
    if kind == "rect":
        ps = {"x0": r("x0"), "y0": r("y0"), "wx": r("wx"), "wy": r("wy")}
        return (lambda q: v.m.RectangularWindowRectangle(q["x0"], q["y0"], q["wx"], q["wy"])), ps, \
            (lambda q, x, y: rect([q["x0"], q["y0"], q["wx"], q["wy"]], x, y))
    if kind == "circ":
        ps = {"x0": r("x0"), "y0": r("y0"), "r": r("r")}
        return (lambda q: v.m.RectangularWindowCircular(q["x0"], q["y0"], q["r"])), ps, \
            (lambda q, x, y: circ([q["x0"], q["y0"], q["r"]], x, y))
    if kind == "zernike":
        ps = {"a": r("a")}
        R = r("radius", pos=True)
        return (lambda q: v.m.Zernike(q["a"], R, 2, -2)), ps, (lambda q, x, y: zern(q["a"], R.t, 2, -2, True, False, x, y))
    raise KeyError(kind)


PARAMS = {"hg": "x0 y0 a w", "sg": "x0 y0 a w p", "const": "c", "cconst": "c", "rect": "x0 y0 wx wy", "circ": "x0 y0 r", "zernike": "a"}


def c12_set(v):
    "assigning a parameter: read back, other parameters kept, later evaluations of the object and of everything built from it"
    v.package()
    kind, name = v.config["kind"], v.config["param"]
    build, ps, formula = make_beam(v, kind)
    cplx = kind == "cconst"
    p, other = build(ps), build(ps)
    g = opaque(v, "g")
    dx, dy = v.real("dx"), v.real("dy")
    derived = {"sum": p + g, "shift": p.shift(dx, dy), "twice": p * p, "neg": -p, "complex": p.as_complex_profile(), "pow": p + p.shift(dx, dy)}
    if v.config["before"]:
        xy = points(v, "early")
        p(*xy)
        other(*xy)
        for e in derived.values():
            e(*xy)
    _, new, _ = make_beam(v, kind, "new_")
    setattr(p, name, new[name])
    now = dict(ps)
    now[name] = new[name]
    for n in ps:
        v.eq("read." + n, v.value(getattr(p, n)), val(now[n]))
    q, q0 = {k: val(x) for k, x in now.items()}, {k: val(x) for k, x in ps.items()}
    F = lambda x, y: formula(q, x, y)
    xy = points(v, "early") if v.config["before"] else points(v, "pt")
    check_value(v, "value", p, F, cplx, xy)
    check_value(v, "other", other, lambda x, y: formula(q0, x, y), cplx, xy)
    sh = lambda x, y: F(T.sub(x, dx.t), T.sub(y, dy.t))
    specs = {"sum": lambda x, y: arith("add", F(x, y), g.spec(x, y)), "shift": sh, "twice": lambda x, y: arith("mul", F(x, y), F(x, y)),
             "neg": lambda x, y: -F(x, y), "complex": lambda x, y: (Cx(0, 1) * cx(F(x, y))).exp(),
             "pow": lambda x, y: arith("add", F(x, y), sh(x, y))}
    for n, e in derived.items():
        check_value(v, n, e, specs[n], None, xy)
    # a second assignment
    _, newer, _ = make_beam(v, kind, "newer_")
    setattr(p, name, newer[name])
    q2 = dict(q)
    q2[name] = val(newer[name])
    check_value(v, "second", p, lambda x, y: formula(q2, x, y), cplx, xy)
    check_value(v, "second.shift", derived["shift"], lambda x, y: formula(q2, T.sub(x, dx.t), T.sub(y, dy.t)), cplx, xy)
    v.eq("second.read", v.value(getattr(p, name)), val(newer[name]))


def c12_device(v):
    """devices and simulations see the assignment too: sampling the same profile, or something built from it, again on the same device
    (and on another one), on both planes"""
    v.package()
    kind, name = v.config["kind"], v.config["param"]
    build, ps, formula = make_beam(v, kind)
    cplx = kind == "cconst"
    p = build(ps)
    dx = v.real("dx")
    twice, shifted = p * 2.0, p.shift(dx, 0.0)
    d = {"slm": slm, "dmd": dmd, "lcos": lcos}[v.config.get("device", "slm")](v)
    e = slm(v, "other_")
    s = v.m.SLMSimulation(d.o, 0, 0) if v.config.get("device", "slm") != "slm" else None

    def use():
        d.o.profile_to_tensor(p, complex=cplx)
        d.o.profile_to_tensor(p, at_fourier_plane=False, complex=True)
        d.o.profile_to_tensor(twice, complex=cplx)
        d.o.profile_to_tensor(shifted, complex=cplx)
        if s is not None:
            s.propagate_to_image(p)
    use()
    for k in ("new_", "newer_"):
        _, new, _ = make_beam(v, kind, k)
        setattr(p, name, new[name])
        q = {m: val(x) for m, x in ps.items()}
        q[name] = val(new[name])
        F = lambda x, y: formula(q, x, y)
        G = (lambda x, y: cx(F(x, y))) if cplx else F
        dt = v.CT if cplx else v.FT
        v.forall(k + "device", d.o.profile_to_tensor(p, complex=cplx), (d.ny, d.nx), lambda i, j: G(*dev_xy(d, i, j)), dt, "tf")
        v.forall(k + "image", d.o.profile_to_tensor(p, at_fourier_plane=False, complex=True), (d.ny, d.nx),
                 lambda i, j: cx(F(*img_xy(d.lf, d.d.t, d.nx, d.ny, i, j))), v.CT, "tf")
        v.forall(k + "built", d.o.profile_to_tensor(twice, complex=cplx), (d.ny, d.nx), lambda i, j: arith("mul", G(*dev_xy(d, i, j)), num(2)), dt, "tf")

        def sh(i, j):
            x, y = dev_xy(d, i, j)
            return G(T.sub(x, dx.t), y)
        v.forall(k + "shifted", d.o.profile_to_tensor(shifted, complex=cplx), (d.ny, d.nx), sh, dt, "tf")
        v.forall(k + "other", e.o.profile_to_tensor(p, complex=cplx), (e.ny, e.nx), lambda i, j: G(*dev_xy(e, i, j)), dt, "tf")
        if s is not None:
            s.propagate_to_image(p)
            v.forall(k + "simulated", s.input_field, (d.ny, d.nx), lambda i, j: cx(F(*dev_xy(d, i, j))), v.CT, "np")


# ---- C13 --------------------------------------------------------------------------------------------------------------
def zern(a, R, n, m, normalize, extrapolate, x, y):
    """ANSI/OSA Zernike; n, m: int or term; normalize, extrapolate: bool or term"""
    N, M = T.lift(n), T.lift(m)
    am = T.fn("abs", M)
    rho = T.div(T.fn("sqrt", dist2(x, y)), R)
    phi = T.fn("atan2", y, x)

    def coef(i):
        k = T.fdiv(i, num(2))
        h1, h2 = T.fdiv(T.add(N, am), num(2)), T.fdiv(T.sub(N, am), num(2))
        F = lambda t: T.fn("factorial", t)
        return T.div(T.mul(T.signpow(k), F(T.sub(N, k))), T.mul(F(k), F(T.sub(h1, k)), F(T.sub(h2, k))))
    if T.is_num(N) and T.is_num(M):
        nn, mm = int(N.val), abs(int(M.val))
        rad = T.add(*[T.mul(coef(num(i)), T.power(rho, num(nn - i))) for i in range(0, nn - mm + 1, 2)])
    else:
        rad = A.sum_term((T.add(N, num(1)),), lambda i: ite(and_(eq(T.mod(i, num(2)), num(0)), le(i, T.sub(N, am))),
                                                         T.mul(coef(i), T.power(rho, T.sub(N, i))), num(0)))
        rad = ite(eq(N, num(0)), num(1), rad)        # the single term i = 0 is 1
    ang = ite(le(num(0), M), T.fn("cos", T.mul(M, phi)), T.fn("sin", T.mul(am, phi)))
    nrm = ite(eq(M, num(0)), T.fn("sqrt", T.add(N, num(1))), T.fn("sqrt", T.add(T.scale(N, 2), num(2))))
    nrm = ite(tm(normalize), nrm, num(1))
    z = T.mul(a, nrm, rad, ang)
    return ite(and_(not_(tm(extrapolate)), lt(num(1), rho)), num(0), z)


def c13_value(v):
    "Zernike profile equals the ANSI/OSA polynomial for every admissible (n, m)"
    v.package()
    a, R = v.real("a"), v.real("radius", pos=True)
    if "n" in v.config:
        n, m = v.config["n"], v.config["m"]
        N, M = num(n), num(m)
    else:
        sgn = v.config["sign"]
        h = nonneg_int(v, "h", 3)
        if sgn == "0":
            m = 0
            M = num(0)
        else:
            k = v.int("mabs", 1, None, gen=lambda r: int(r.integers(1, 4)))
            m = k if sgn == "+" else -k
            M = val(m)
        n = (k if sgn != "0" else 0) + 2 * h
        N = val(n)
    nz, ex = v.bool("normalize"), v.bool("extrapolate")
    p = v.m.Zernike(a, R, n, m, normalize=nz, extrapolate=ex)
    v.eq("n", p.n, N)
    v.eq("m", p.m, M)
    v.eq("radius", v.value(p.radius), R.t)
    v.eq("a", v.value(p.a), a.t)
    check_value(v, "value", p, lambda x, y: zern(a.t, R.t, N, M, nz, ex, x, y), False)


def c13_default(v):
    "by default modes are normalised and not extrapolated, and (n, m) = (0, 0)"
    v.package()
    a, R = v.real("a"), v.real("radius", pos=True)
    check_value(v, "piston", v.m.Zernike(a, R), lambda x, y: zern(a.t, R.t, 0, 0, True, False, x, y), False)
    check_value(v, "coma", v.m.Zernike(a, R, 3, -1), lambda x, y: zern(a.t, R.t, 3, -1, True, False, x, y), False)
    check_value(v, "positional", v.m.Zernike(a, R, 2, 0, False, True), lambda x, y: zern(a.t, R.t, 2, 0, False, True, x, y), False)


def c13_reject(v):
    "every (n, m) with n < |m| or n - m odd raises ValueError"
    v.package()
    a, R = v.real("a"), v.real("radius", pos=True)
    n, m = v.int("n", gen=lambda r: int(r.integers(-3, 5))), v.int("m", gen=lambda r: int(r.integers(-5, 6)))
    v.assume(or_(lt(n.t, T.fn("abs", m.t)), eq(T.mod(T.sub(n.t, m.t), num(2)), num(1))))
    v.raises("rejected", ValueError, v.m.Zernike, a, R, n, m)


# ---- C14 --------------------------------------------------------------------------------------------------------------
def rect(b, x, y):
    ab = lambda t: T.fn("abs", t)
    return ite(and_(lt(ab(T.sub(x, b[0])), half(b[2])), lt(ab(T.sub(y, b[1])), half(b[3]))), num(1), num(0))


def circ(b, x, y):
    return ite(le(dist2(T.sub(x, b[0]), T.sub(y, b[1])), T.mul(b[2], b[2])), num(1), num(0))


def c14_rect(v):
    "rectangular window"
    v.package()
    b = [v.real(n) for n in ("x0", "y0", "wx", "wy")]
    p = v.m.RectangularWindowRectangle(*b)
    check_value(v, "value", p, lambda x, y: rect([t.t for t in b], x, y), False)
    check_value(v, "row", p, lambda x, y: rect([t.t for t in b], x, y), False, rank=1)


def c14_circ(v):
    "circular window"
    v.package()
    b = [v.real(n) for n in ("x0", "y0", "r")]
    p = v.m.RectangularWindowCircular(*b)
    check_value(v, "value", p, lambda x, y: circ([t.t for t in b], x, y), False)
    check_value(v, "row", p, lambda x, y: circ([t.t for t in b], x, y), False, rank=1)


ZS = [(n, m) for n in range(6) for m in range(-n, n + 1, 2)]
CONTRACTS = {
    "C08": [Contract("sample", c08_sample, both(C08 + [{"kind": "profile", "complex": False, "device": "dmd"}, {"kind": "profile", "complex": True, "device": "lcos"}])),
            Contract("default", c08_default)],
    "C09": [Contract("pair", c09_pair, both([{"op": o, "f": a, "g": b} for o in OPS for a in "rc" for b in "rc"])),
            Contract("scalar", c09_scalar, both([{"op": o, "f": a, "c": c} for o in OPS for a in "rc" for c in ("int", "float", "complex")])),
            Contract("neg", c09_neg, both([{"f": "r"}, {"f": "c"}])),
            Contract("nested", c09_nested), Contract("lifetimes", lifetimes, both([{"used": True}, {"used": False}])), Contract("chains", chains(True), both(FIRST)),
            Contract("constant", c09_constant, both([{"c": c} for c in ("int", "float", "complex")]))],
    "C10": [Contract("single", c10_single, both([{"f": "r"}, {"f": "c"}])),
            Contract("compose", c10_compose, both([{"first": n} for n in ("shift", "rotate", "rescale_x", "rescale_y")])),
            Contract("back", c10_back), Contract("lifetimes", lifetimes, both([{"used": True}, {"used": False}])), Contract("chains", chains(False), both(FIRST))],
    "C11": [Contract("hermite", c11_hg, both([{"n": "sym", "m": "sym"}] + [{"n": n, "m": m} for n in range(4) for m in range(3)])),
            Contract("default", c11_hg_default),
            Contract("super", c11_sg),
            Contract("laguerre", c11_lg, both([{"l": "sym", "p": "sym"}] + [{"l": l, "p": p} for l in range(-2, 3) for p in range(3)])),
            Contract("constant", c11_constant, both([{"c": c} for c in ("int", "float", "complex")]))],
    "C12": [Contract("set", c12_set, both([{"kind": k, "param": n, "before": b} for k in PARAMS for n in PARAMS[k].split() for b in (True, False)])),
            Contract("device", c12_device, both([{"kind": k, "param": n, "device": ("slm", "dmd", "lcos")[z % 3]}
                                                 for z, (k, n) in enumerate((k, n) for k in PARAMS for n in PARAMS[k].split())]))],
    "C13": [Contract("general", c13_value, both([{"sign": s} for s in "0+-"])),
            Contract("low orders", c13_value, both([{"n": n, "m": m} for n, m in ZS])),
            Contract("default", c13_default), Contract("reject", c13_reject)],
    "C14": [Contract("rectangle", c14_rect), Contract("circle", c14_circ)],
}

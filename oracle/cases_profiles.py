import gc
import numpy as np
import spec as S
from run import case, close, same, true, raises, Bad, Skip
from cases_optics import Dv, crand


def coords(D, tag="xy"):
    r = D.seed(tag)
    sh = D.pick(tag + "_shape", [(), (5,), (3, 4), (4, 1)])
    x, y = r.uniform(-2, 2, sh), r.uniform(-2, 2, sh)
    if D.bool(tag + "_origin") and sh == (5,):
        x[0] = y[0] = 0
    return x, y


class Leaf:
    """(profile, its spec as a function of float64 x, y)"""

    def __init__(self, D, L, t, kinds=("hg", "sg", "lg", "const", "cconst", "zernike", "rect", "circ")):
        P, Wn = L.profile, L.window
        self.k = k = D.pick(t + "kind", kinds)
        r = lambda n, a, b: float(np.float32(D.real(t + n, a, b)))
        self.q = q = {}
        self.setters = []
        if k in ("hg", "sg", "lg"):
            q.update(x0=r("x0", -.7, .7), y0=r("y0", -.7, .7), a=r("a", .3, 2), w=r("w", .8, 2.5))
            self.setters = ["x0", "y0", "a", "w"] if k != "lg" else []
        if k == "hg":
            self.n, self.m = D.int(t + "n", 0, 4), D.int(t + "m", 0, 4)
            self.o = P.HermiteGaussian(q["x0"], q["y0"], q["a"], q["w"], self.n, self.m)
        elif k == "sg":
            q["p"] = r("p", .5, 3)
            self.setters.append("p")
            self.o = P.SuperGaussian(q["x0"], q["y0"], q["a"], q["w"], q["p"])
        elif k == "lg":
            self.l, self.p = D.int(t + "l", -3, 3), D.int(t + "p", 0, 3)
            self.o = P.LaguerreGaussian(q["x0"], q["y0"], q["a"], q["w"], self.l, self.p)
        elif k == "const":
            q["c"] = r("c", .3, 2)
            self.setters = ["c"]
            self.o = P.ConstantProfile(q["c"])
        elif k == "cconst":
            q["c"] = complex(r("c", .3, 2), r("ci", -1, 1))
            self.setters = ["c"]
            self.o = P.ConstantProfile(q["c"])
        elif k == "zernike":
            self.nm = D.pick(t + "nm", [(0, 0), (1, -1), (1, 1), (2, 0), (2, -2), (2, 2), (3, 1), (3, -3), (4, 0), (4, -2), (5, 3), (6, 0)])
            self.norm, self.extra = D.bool(t + "norm"), D.bool(t + "extra")
            q["a"] = r("a", .3, 2)
            self.setters = ["a"]
            self.R = r("R", 1, 3)
            self.o = P.Zernike(q["a"], self.R, *self.nm, normalize=self.norm, extrapolate=self.extra)
        elif k == "rect":
            q.update(x0=r("x0", -.7, .7), y0=r("y0", -.7, .7), wx=r("wx", .5, 3), wy=r("wy", .5, 3))
            self.setters = ["x0", "y0", "wx", "wy"]
            self.o = Wn.RectangularWindowRectangle(q["x0"], q["y0"], q["wx"], q["wy"])
        else:
            q.update(x0=r("x0", -.7, .7), y0=r("y0", -.7, .7), r=r("r", .5, 2))
            self.setters = ["x0", "y0", "r"]
            self.o = Wn.RectangularWindowCircular(q["x0"], q["y0"], q["r"])
        self.complex = k in ("lg", "cconst")

    def near(self, x, y):
        "points too close to an edge for rounding to decide"
        q, k = self.q, self.k
        if k == "rect":
            return (np.abs(np.abs(x - q["x0"]) - q["wx"] / 2) < 1e-5) | (np.abs(np.abs(y - q["y0"]) - q["wy"] / 2) < 1e-5)
        if k == "circ":
            return np.abs(np.hypot(x - q["x0"], y - q["y0"]) - q["r"]) < 1e-5
        if k == "zernike":
            return np.abs(np.hypot(x, y) - self.R) < 1e-5
        return np.zeros(np.shape(x), bool)

    def __call__(self, x, y):
        q, k = self.q, self.k
        if k in ("hg", "sg", "lg"):
            X, Y = (x - q["x0"]) / q["w"], (y - q["y0"]) / q["w"]
            R2 = X * X + Y * Y
        if k == "hg":
            return q["a"] * S.hermite(self.n, np.sqrt(2) * X) * S.hermite(self.m, np.sqrt(2) * Y) * np.exp(-R2)
        if k == "sg":
            return q["a"] * np.exp(-R2 ** q["p"])
        if k == "lg":
            al = abs(self.l)
            return q["a"] * (np.sqrt(2 * R2)) ** al * S.laguerre(self.p, al, 2 * R2) * np.exp(-R2) * np.exp(-1j * self.l * np.arctan2(Y, X))
        if k in ("const", "cconst"):
            return np.full(np.shape(x), q["c"])
        if k == "zernike":
            return S.zernike(q["a"], self.R, *self.nm, x, y, self.norm, self.extra)
        if k == "rect":
            return ((np.abs(x - q["x0"]) < q["wx"] / 2) & (np.abs(y - q["y0"]) < q["wy"] / 2)) * 1.0
        return ((x - q["x0"]) ** 2 + (y - q["y0"]) ** 2 <= q["r"] ** 2) * 1.0


def tol(L, want):
    w = np.abs(want)
    return 2e-4 * L.eps * (np.max(w[np.isfinite(w)], initial=0.0) + 1e-3)


def agree(L, name, p, f, x, y, mask=True):
    with np.errstate(all="ignore"):
        want = np.asarray(f(x, y))
    got = p(x, y)
    fin = np.isfinite(want) & mask & (np.abs(want) < 1e4)
    true(name + " precision", np.asarray(got).dtype in (L.R, L.C), np.asarray(got).dtype)
    if np.iscomplexobj(want):
        true(name + " is complex", np.iscomplexobj(got))
    close(name, np.where(fin, got, 0), np.where(fin, want, 0), tol(L, np.where(fin, want, 0)))


OPS = {"+": lambda a, b: a + b, "-": lambda a, b: a - b, "*": lambda a, b: a * b, "/": lambda a, b: a / b, "**": lambda a, b: a ** b}


def tree(D, L, t, leaves, depth):
    """(profile, spec, near) built from drawn operations"""
    if depth == 0 or D.int(t + "leaf", 0, 3) == 0:
        if leaves and D.int(t + "reuse", 0, 2) == 0:
            l = leaves[D.int(t + "which", 0, 99) % len(leaves)]
        else:
            l = Leaf(D, L, t)
            leaves.append(l)
        return l.o, l, l.near
    op = D.pick(t + "op", ["+", "-", "*", "/", "**", "neg", "c+", "c*", "+c", "-c", "*c", "/c", "**c", "shift", "rotate", "rx", "ry", "cplx"])
    a, fa, na = tree(D, L, t + "l", leaves, depth - 1)
    if op in OPS:
        b, fb, nb = tree(D, L, t + "r", leaves, depth - 1)
        if op == "**":
            # a base away from zero and the branch cut
            a, fa = a * 0.0 + 1.7, (lambda x, y, f=fa: f(x, y) * 0.0 + 1.7)
        return OPS[op](a, b), (lambda x, y: OPS[op](fa(x, y), fb(x, y))), (lambda x, y: na(x, y) | nb(x, y))
    if op == "neg":
        return -a, (lambda x, y: -fa(x, y)), na
    r = lambda n, lo, hi: float(np.float32(D.real(t + n, lo, hi)))
    if op[0] == "c" and len(op) == 2 or op[-1] == "c" and op != "cplx" and op != "**c":
        c = D.pick(t + "c", [2, 3, 0.5, -1.25, 1 + 2j, 0.7j, True])
        if op == "c+":
            return c + a, (lambda x, y: c + fa(x, y)), na
        if op == "c*":
            return c * a, (lambda x, y: c * fa(x, y)), na
        o = OPS[op[0]]
        return o(a, c), (lambda x, y: o(fa(x, y), c)), na
    if op == "**c":
        c = D.pick(t + "c", [2, 3, 1])
        return a ** c, (lambda x, y: fa(x, y) ** c), na
    if op == "shift":
        dx, dy = r("dx", -1, 1), r("dy", -1, 1)
        g = lambda f: (lambda x, y: f(x - dx, y - dy))
        return a.shift(dx, dy), g(fa), g(na)
    if op == "rotate":
        th = r("th", -4, 4)
        g = lambda f: (lambda x, y: f(x * np.cos(th) - y * np.sin(th), x * np.sin(th) + y * np.cos(th)))
        return a.rotate(th), g(fa), g(na)
    if op in ("rx", "ry"):
        m = r("m", .5, 2) * (-1 if D.bool(t + "sgn") else 1)
        g = (lambda f: (lambda x, y: f(x / m, y))) if op == "rx" else (lambda f: (lambda x, y: f(x, y / m)))
        return (a.rescale_x(m) if op == "rx" else a.rescale_y(m)), g(fa), g(na)
    return a.as_complex_profile(), (lambda x, y: np.exp(1j * fa(x, y))), na


@case("C09", 14)
@case("C10", 14)
def expressions(D, L):
    leaves = []
    p, f, near = tree(D, L, "t", leaves, 3)
    x, y = coords(D)
    agree(L, "expression", p, f, x, y, ~near(x, y))
    for l in leaves:
        agree(L, "an operand afterwards (%s)" % l.k, l.o, l, x, y, ~l.near(x, y))
    agree(L, "expression again", p, f, x, y, ~near(x, y))


@case("C09", 10)
def operators(D, L):
    f, g = Leaf(D, L, "f"), Leaf(D, L, "g")
    x, y = coords(D)
    m = ~(f.near(x, y) | g.near(x, y))
    c = D.pick("c", [2, 0.5, -1.5, 1 + 0.5j])
    todo = [("f+g", f.o + g.o, lambda x, y: f(x, y) + g(x, y)), ("f-g", f.o - g.o, lambda x, y: f(x, y) - g(x, y)),
            ("f*g", f.o * g.o, lambda x, y: f(x, y) * g(x, y)), ("f/g", f.o / g.o, lambda x, y: f(x, y) / g(x, y)),
            ("-f", -f.o, lambda x, y: -f(x, y)), ("f+c", f.o + c, lambda x, y: f(x, y) + c), ("f-c", f.o - c, lambda x, y: f(x, y) - c),
            ("f*c", f.o * c, lambda x, y: f(x, y) * c), ("f/c", f.o / c, lambda x, y: f(x, y) / c), ("c+f", c + f.o, lambda x, y: c + f(x, y)),
            ("c*f", c * f.o, lambda x, y: c * f(x, y)), ("f-f", f.o - f.o, lambda x, y: f(x, y) * 0), ("f*f", f.o * f.o, lambda x, y: f(x, y) ** 2),
            ("f**2", f.o ** 2, lambda x, y: f(x, y) ** 2), ("f+g again", f.o + g.o, lambda x, y: f(x, y) + g(x, y))]
    b, fb = f.o * f.o + 0.5, (lambda x, y: f(x, y) ** 2 + 0.5)
    if not f.complex and f.k != "hg":
        todo.append(("(f*f+0.5)**g", b ** g.o, lambda x, y: fb(x, y) ** g(x, y)))
        todo.append(("(f*f+0.5)**c", b ** c, lambda x, y: fb(x, y) ** c))
    for n, p, w in todo:
        with np.errstate(all="ignore"):
            agree(L, n + " with %s, %s" % (f.k, g.k), p, w, x, y, m & (np.abs(g(x, y)) > 1e-3 if n == "f/g" else True))


@case("C10", 10)
def transforms(D, L):
    f = Leaf(D, L, "f")
    x, y = coords(D)
    r = lambda n, lo, hi: float(np.float32(D.real(n, lo, hi)))
    dx, dy, th, m = r("dx", -1, 1), r("dy", -1, 1), r("th", -4, 4), r("m", .5, 2) * (-1 if D.bool("sgn") else 1)

    def ok(n, p, w, u, v):
        agree(L, n + " of " + f.k, p, w, x, y, ~f.near(u, v))
    ok("shift", f.o.shift(dx, dy), lambda x, y: f(x - dx, y - dy), x - dx, y - dy)
    c, s = np.cos(th), np.sin(th)
    ok("rotate", f.o.rotate(th), lambda x, y: f(x * c - y * s, x * s + y * c), x * c - y * s, x * s + y * c)
    ok("rescale_x", f.o.rescale_x(m), lambda x, y: f(x / m, y), x / m, y)
    ok("rescale_y", f.o.rescale_y(m), lambda x, y: f(x, y / m), x, y / m)
    ok("as_complex", f.o.as_complex_profile(), lambda x, y: np.exp(1j * f(x, y)), x, y)
    ok("back", f.o.shift(dx, dy).shift(-dx, -dy), f, x, y)
    ok("composed", f.o.shift(dx, dy).rotate(th), lambda x, y: f(x * c - y * s - dx, x * s + y * c - dy), x * c - y * s - dx, x * s + y * c - dy)
    ok("the original", f.o, f, x, y)


@case("C09", 1)
@case("C10", 1)
def chains(D, L):
    "three operators in a row, each triple"
    f = Leaf(D, L, "f", kinds=("hg",))
    x, y = coords(D)
    r = lambda n, lo, hi: float(np.float32(D.real(n, lo, hi)))

    def ops(t):
        dx, dy, th, m, c = r(t + "dx", -1, 1), r(t + "dy", -1, 1), r(t + "th", -4, 4), r(t + "m", .5, 2), r(t + "c", -2, 2)
        C, S_ = np.cos(th), np.sin(th)
        return {"shift": (lambda p: p.shift(dx, dy), lambda g: lambda x, y: g(x - dx, y - dy)),
                "rotate": (lambda p: p.rotate(th), lambda g: lambda x, y: g(x * C - y * S_, x * S_ + y * C)),
                "rescale_x": (lambda p: p.rescale_x(m), lambda g: lambda x, y: g(x / m, y)),
                "rescale_y": (lambda p: p.rescale_y(m), lambda g: lambda x, y: g(x, y / m)),
                "neg": (lambda p: -p, lambda g: lambda x, y: -g(x, y)),
                "add": (lambda p: p + c, lambda g: lambda x, y: g(x, y) + c),
                "mul": (lambda p: c * p, lambda g: lambda x, y: g(x, y) * c)}
    A_, B_, C_ = ops("a_"), ops("b_"), ops("c_")
    names = list(A_)
    for q in D.seed("which").permutation(len(names) ** 3)[:24]:
        i, j, k = names[q % 7], names[q // 7 % 7], names[q // 49]
        agree(L, "%s, %s, %s" % (i, j, k), C_[k][0](B_[j][0](A_[i][0](f.o))), C_[k][1](B_[j][1](A_[i][1](f))), x, y)


@case("C09", 2)
@case("C10", 2)
def lifetimes(D, L):
    "expressions whose operands are gone"
    x, y = coords(D)
    for n, op, g in [("neg", lambda p: -p, lambda f: lambda x, y: -f(x, y)), ("add", lambda p: p + 2.5, lambda f: lambda x, y: f(x, y) + 2.5),
                     ("mul", lambda p: 2 * p, lambda f: lambda x, y: f(x, y) * 2), ("square", lambda p: p * p, lambda f: lambda x, y: f(x, y) ** 2),
                     ("shift", lambda p: p.shift(.25, -.5), lambda f: lambda x, y: f(x - .25, y + .5)),
                     ("rotate", lambda p: p.rotate(np.pi / 2), lambda f: lambda x, y: f(-y, x)),
                     ("rescale_x", lambda p: p.rescale_x(2.), lambda f: lambda x, y: f(x / 2, y)),
                     ("rescale_y", lambda p: p.rescale_y(-2.), lambda f: lambda x, y: f(x, -y / 2)),
                     ("complex", lambda p: p.as_complex_profile(), lambda f: lambda x, y: np.exp(1j * f(x, y)))]:
        for used in (D.bool(n),):
            f = Leaf(D, L, "f", kinds=("hg",))
            if used:
                f.o(x, y)
            p = op(f.o) - op(f.o) + op(f.o)
            f.o = None
            gc.collect()
            agree(L, "%s of a dropped profile" % n, p, g(f), x, y)


@case("C11", 24)
@case("C14", 24)
def formulas(D, L):
    f = Leaf(D, L, "f")
    x, y = coords(D)
    agree(L, f.k, f.o, f, x, y, ~f.near(x, y))
    true("one value per coordinate", np.shape(f.o(x, y)) == np.shape(x), np.shape(f.o(x, y)))
    if f.k in ("hg", "lg", "sg") and np.ndim(x) == 0:
        agree(L, "at the centre", f.o, f, np.array(f.q["x0"]), np.array(f.q["y0"]))
    if f.k in ("rect", "circ"):
        true("real precision", f.o(x, y).dtype == L.R)


@case("C11", 6)
def flat_tops(D, L):
    "super-Gaussians of small and integral orders, at the centre too"
    x, y = np.meshgrid(np.linspace(-2, 2, 9), np.linspace(-1.5, 2, 8))
    x, y = x.astype(L.R), y.astype(L.R)
    i, j = D.int("i", 0, 7), D.int("j", 0, 8)
    x0, y0, w, p = float(x[i, j]), float(y[i, j]), D.pick("w", [0.5, 1.0, 2.0]), D.pick("p", [0, 1, 2, 3, 0.0, 0.5, 1.0, 4.0])
    f = L.profile.SuperGaussian(x0, y0, 1.3, w, p)
    with np.errstate(all="ignore"):
        want = 1.3 * np.exp(-(((x.astype(float) - x0) / w) ** 2 + ((y.astype(float) - y0) / w) ** 2) ** p)
    close("order %s" % p, f(x, y), want, 1e-4 * L.eps)


@case("C11", 3)
def orders(D, L):
    x, y = np.meshgrid(np.linspace(-2, 2, 9), np.linspace(-1.5, 2, 8))
    P = L.profile
    for k in range(4):
        n, m = D.int("n%d" % k, 0, 9), D.int("m%d" % k, 0, 9)
        x0, y0, w = D.real("x0%d" % k, -1, 1), D.real("y0%d" % k, -1, 1), D.real("w%d" % k, 1, 3)
        X, Y = (x - x0) / w, (y - y0) / w
        want = 1.3 * S.hermite(n, np.sqrt(2) * X) * S.hermite(m, np.sqrt(2) * Y) * np.exp(-(X ** 2 + Y ** 2))
        close("hermite %d %d" % (n, m), P.HermiteGaussian(x0, y0, 1.3, w, n, m)(x, y), want, 1e-3 * L.eps * (np.max(np.abs(want)) + 2.0 ** (n + m) * 30))
        l, p = D.int("l%d" % k, -6, 6), D.int("p%d" % k, 0, 5)
        R2 = X ** 2 + Y ** 2
        want = 1.3 * np.sqrt(2 * R2) ** abs(l) * S.laguerre(p, abs(l), 2 * R2) * np.exp(-R2) * np.exp(-1j * l * np.arctan2(Y, X))
        close("laguerre %d %d" % (l, p), P.LaguerreGaussian(x0, y0, 1.3, w, l, p)(x, y), want, 5e-3 * L.eps * (np.max(np.abs(want)) + 1))


@case("C12", 14)
def parameters(D, L):
    f, g = Leaf(D, L, "f"), Leaf(D, L, "g")
    other = Leaf(D, L, "o")
    if not f.setters:
        raise Skip
    x, y = coords(D)
    expr = [("f", f.o, f, f.near), ("f*g", f.o * g.o, lambda x, y: f(x, y) * g(x, y), lambda x, y: f.near(x, y) | g.near(x, y)),
            ("f.shift", f.o.shift(.25, -.5), lambda x, y: f(x - .25, y + .5), lambda x, y: f.near(x - .25, y + .5)),
            ("f+1", f.o + 1.0, lambda x, y: f(x, y) + 1, f.near), ("exp(if)", f.o.as_complex_profile(), lambda x, y: np.exp(1j * f(x, y)), f.near),
            ("2*f.rotate", 2.0 * f.o.rotate(.5), lambda x, y: 2 * f(x * np.cos(.5) - y * np.sin(.5), x * np.sin(.5) + y * np.cos(.5)),
             lambda x, y: f.near(x * np.cos(.5) - y * np.sin(.5), x * np.sin(.5) + y * np.cos(.5))),
            ("other", other.o, other, other.near), ("g", g.o, g, g.near)]
    if D.bool("evaluate before"):
        for n, p, s, near in expr:
            p(x, y)
    for k in range(D.int("changes", 1, 4)):
        a = D.pick("attr%d" % k, f.setters)
        v = float(np.float32(D.real("value%d" % k, .4, 1.9)))
        if f.k == "cconst":
            v = complex(v, .25)
        setattr(f.o, a, v)
        f.q[a] = v
        for b in f.setters:
            got = np.asarray(getattr(f.o, b))
            close("%s.%s after setting %s" % (f.k, b, a), got, f.q[b], 1e-6 * L.eps * abs(f.q[b]))
        if k % 2 == 0 or D.bool("check%d" % k):
            for n, p, s, near in expr:
                agree(L, "%s after setting %s of %s" % (n, a, f.k), p, s, x, y, ~near(x, y))
    for n, p, s, near in expr:
        agree(L, "%s at the end" % n, p, s, x, y, ~near(x, y))


@case("C13", 12)
def zernike(D, L):
    n = D.int("n", 0, 9)
    m = -n + 2 * D.int("k", 0, n)
    norm, extra = D.bool("norm"), D.bool("extra")
    R, a = float(np.float32(D.real("R", .8, 3))), D.real("a", .3, 2)
    z = L.profile.Zernike(a, R, n, m, normalize=norm, extrapolate=extra)
    x, y = np.meshgrid(np.linspace(-1.1, 1.3, 11) * R, np.linspace(-1.2, 1.1, 9) * R)
    x[0, 0] = y[0, 0] = 0
    want = S.zernike(a, R, n, m, x, y, norm, extra)
    near = np.abs(np.hypot(x, y) / R - 1) < 1e-5
    big = np.max(np.abs(want)) + np.max(np.sum([1])) * 4.0 ** (n / 2)
    close("Z(%d, %d)" % (n, m), z(x, y), want, 3e-3 * L.eps * big, ~near)
    got = z(np.array([R, 0.0, R * 1.5]), np.array([0.0, 0.0, 0.0]))
    w0 = S.zernike(a, R, n, m, np.array([R, 0.0, R * 1.5]), np.zeros(3), norm, extra)
    close("on the rim and outside", got, w0, 3e-3 * L.eps * (big + np.max(np.abs(w0))))
    true("published", (int(z.n), int(z.m)) == (n, m), z.n, z.m)
    close("radius", z.radius, R, 1e-6)
    close("amplitude", np.asarray(z.a), a, 1e-6 * a)


@case("C13", 8)
def zernike_bad(D, L):
    for k in range(6):
        n, m = D.int("n%d" % k, -2, 8), D.int("m%d" % k, -9, 9)
        bad = n < abs(m) or (n - m) % 2
        mk = lambda: L.profile.Zernike(1.0, 1.0, n, m)
        if bad:
            raises("(%d, %d)" % (n, m), ValueError, mk)
        else:
            mk()


@case("C14", 10)
def windows(D, L):
    W = L.window
    g = 0.25       # a lattice on which edges are hit exactly in both precisions
    x0, y0 = g * D.int("x0", -4, 4), g * D.int("y0", -4, 4)
    wx, wy, r = 2 * g * D.int("wx", -1, 6), 2 * g * D.int("wy", -1, 6), 5 * g * D.int("r", -2, 2)
    x, y = np.meshgrid(np.arange(-14, 15) * g, np.arange(-14, 15) * g)
    same("rectangle", W.RectangularWindowRectangle(x0, y0, wx, wy)(x, y), ((np.abs(x - x0) < wx / 2) & (np.abs(y - y0) < wy / 2)).astype(L.R))
    same("circle", W.RectangularWindowCircular(x0, y0, r)(x, y), ((x - x0) ** 2 + (y - y0) ** 2 <= r * r).astype(L.R))


# ---- C08 -----------------------------------------------------------------------------------------------------------------
@case("C08", 20)
def conversion(D, L):
    v = Dv(D, L, 1, 7)
    r = D.seed("values")
    cplx, at = D.bool("complex"), D.bool("device plane")
    k = D.pick("kind_", ["profile", "expr", "array", "carray", "iarray", "barray", "f32", "f64", "tensor", "ctensor", "scalar", "int", "cscalar", "npscalar",
                         "tscalar", "const", "cconst", "list", "layout", "layout"])
    keep = None
    x, y = v.xy() if at else v.uv()
    w = v.d * 4 if at else v.lf / v.d / 3
    if k == "profile":
        a = L.profile.SuperGaussian(w / 5, -w / 7, 1.2, w, 1.0)
        val = 1.2 * np.exp(-((x - w / 5) ** 2 + (y + w / 7) ** 2) / w ** 2)
    elif k == "expr":
        if not cplx:
            raise Skip
        a = (L.profile.SuperGaussian(0, 0, 1, w, 1.0).shift(w / 3, 0) + 1.0).as_complex_profile() * 2.0
        val = 2 * np.exp(1j * (np.exp(-((x - w / 3) ** 2 + y ** 2) / w ** 2) + 1))
    elif k in ("array", "f32", "f64", "list"):
        a = r.standard_normal(v.shape).astype({"f32": "f4", "f64": "f8"}.get(k, L.R))
        val = a.astype(float)
        if k == "list":
            a = a.tolist()
        else:
            keep = a.copy()
    elif k == "carray":
        if not cplx:
            raise Skip
        a = crand(r, v.shape)
        val, keep = a, a.copy()
    elif k == "layout":
        # the same kind of values in memory orders other than row by row
        how = D.pick("how", ["fortran", "transposed", "reversed", "strided", "columns", "readonly"])
        dt = D.pick("dt", [L.R, "f8", "f4", "i8", "u1", "?"] + (["c16"] if cplx else []))
        big = (r.standard_normal((2 * v.shape[0] + 1, 2 * v.shape[1] + 1)) * 3 + (1j * r.standard_normal((2 * v.shape[0] + 1, 2 * v.shape[1] + 1)) if dt == "c16" else 0))
        big = big.astype(dt) if dt != "u1" else np.abs(big).astype(dt)
        ny, nx = v.shape
        a = {"fortran": lambda: np.asfortranarray(big[:ny, :nx]), "transposed": lambda: np.ascontiguousarray(big[:ny, :nx].T).T,
             "reversed": lambda: big[:ny, :nx][::-1, ::-1], "strided": lambda: big[1::2, 1::2][:ny, :nx], "columns": lambda: big[:ny, 1:nx + 1],
             "readonly": lambda: big[:ny, :nx].copy()}[how]()
        if how == "readonly":
            a.flags.writeable = False
        val, keep = np.array(a.tolist()).reshape(v.shape), a.copy()
    elif k == "iarray":
        a = r.integers(-3, 4, v.shape)
        val, keep = a.astype(float), a.copy()
    elif k == "barray":
        a = r.random(v.shape) < .5
        val, keep = a.astype(float), a.copy()
    elif k == "tensor":
        val = r.standard_normal(v.shape)
        a = L.tf.constant(val, D.pick("td", [L.tf.float32, L.tf.float64]))
    elif k == "ctensor":
        if not cplx:
            raise Skip
        val = crand(r, v.shape)
        a = L.tf.constant(val, D.pick("td", [L.tf.complex64, L.tf.complex128]))
    else:
        c = {"scalar": 1.25, "int": 3, "cscalar": 1.5 - .25j, "npscalar": np.float32(.75), "tscalar": L.tf.constant(2.5, L.tf.float32), "const": 1.5,
             "cconst": .5 + .25j}[k]
        if k in ("cscalar", "cconst") and not cplx:
            raise Skip
        a = L.profile.ConstantProfile(c) if k in ("const", "cconst") else c
        val = np.full(v.shape, np.asarray(c))
    for _ in range(2):
        t = v.o.profile_to_tensor(a, at_fourier_plane=at, complex=cplx)
        true("a tensor", isinstance(t, L.tf.Tensor), type(t))
        true("precision", t.dtype == (L.C if cplx else L.R), t.dtype)
        close(k, t.numpy(), val, 3e-5 * L.eps if k not in ("f32", "tensor", "ctensor", "layout") else 3e-5)
    if keep is not None:
        true("the argument is unchanged", np.array_equal(a, keep) and a.dtype == keep.dtype)
    t2 = v.o.profile_to_tensor(a, at_fourier_plane=at)if not cplx else None
    grids = v.o.fourier_plane_grid
    close("the grid is unchanged", grids[0], v.xy()[0], 1e-5 * L.eps * v.d * 10)


@case("C12", 8)
@case("C08", 4)
def on_devices(D, L):
    "the same profile objects sampled again on the same devices after assignments"
    f, g = Leaf(D, L, "f"), Leaf(D, L, "g")
    if not f.setters:
        raise Skip
    v, w = (Dv(D, L, 2, 6, k, tag=t) for k, t in ((D.pick("k", ["slm", "dmd", "lcos"]), "v_"), ("slm", "w_")))
    for d in (v, w):
        # coordinates of order one on both planes
        cls = type(d.o)
        d.wl, d.f, d.d = 1.0, 1.0, 0.7
        d.lf = 1.0
        if d.kind == "dmd":
            d.o = cls(1.0, 1.0, d.per, d.th, d.Nx, d.Ny, 0.7, negative_order=d.neg)
        else:
            d.o = cls(1.0, 1.0, d.Nx, d.Ny, 0.7)
    e, h = f.o * g.o, f.o.shift(.25, 0.125)
    sim = v.sim(L, 0, 0) if v.kind != "slm" else None
    cf, ce = f.complex, f.complex or g.complex

    def ok(what):
        for d in (v, w):
            for x, y, at in (d.xy() + (True,), d.uv() + (False,)):
                for n, p, s, near, c in (("f", f.o, f, f.near(x, y), cf), ("f*g", e, lambda x, y: f(x, y) * g(x, y), f.near(x, y) | g.near(x, y), ce),
                                         ("f.shift", h, lambda x, y: f(x - .25, y - .125), f.near(x - .25, y - .125), cf)):
                    for cc in ({True} if c else {False, True}):
                        t = d.o.profile_to_tensor(p, at_fourier_plane=at, complex=cc)
                        true("precision", t.dtype == (L.C if cc else L.R), t.dtype)
                        want = s(x, y)
                        close("%s %s (%s)" % (what, n, f.k), np.where(near, 0, t.numpy()), np.where(near, 0, want), tol(L, want))
        if sim is not None:
            sim.propagate_to_image(f.o)
            x, y = v.xy()
            want = f(x, y)
            nr = f.near(x, y)
            close(what + " simulated light", np.where(nr, 0, sim.input_field), np.where(nr, 0, want), tol(L, want))
    ok("fresh")
    for k in range(2):
        a = D.pick("attr%d" % k, f.setters)
        x = float(np.float32(D.real("value%d" % k, .4, 1.9)))
        if f.k == "cconst":
            x = complex(x, .25)
        setattr(f.o, a, x)
        f.q[a] = x
        ok("after setting " + a)


@case("C09", 3)
def powers(D, L):
    f = Leaf(D, L, "f")
    x, y = coords(D)
    b, fb = f.o * f.o + (0.5 if not f.complex else 3.0), (lambda x, y: f(x, y) ** 2 + (0.5 if not f.complex else 3.0))
    for c in (-3, -2, -1, 0, 1, 2, 3, 5, -0.5, 0.5, 1.5, -1.0, 2.0, 1 + 1j, -2j):
        if f.complex and not isinstance(c, complex) and c != int(c):
            continue
        agree(L, "(f*f+c)**%s of %s" % (c, f.k), b ** c, lambda x, y: fb(x, y) ** c, x, y, ~f.near(x, y))

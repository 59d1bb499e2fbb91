"""Specification vocabulary: written from the property texts, over exact real arithmetic."""
from slmv import terms as T
from slmv import arr as A
from slmv import nd
from slmv import tensors as X
from slmv.arr import Cx, cx
from slmv.terms import num, ite, le, lt, and_, or_, not_, eq
from slmv.engine import Contract, dim, tm
from slmv.ctx import Unsupported
from slmv.pyvals import SInt, SFloat, SBool, SComplex, SList, mk, val, nval


class Dev:
    """symbolic device parameters"""

    def __init__(self, v, p="", like=None):
        self.wl, self.f, self.d = [v.real(p + n, pos=True) for n in ("wavelength", "focal", "pitch")]
        self.Nx, self.Ny = (like.Nx, like.Ny) if like else (v.int(p + "Nx", 1, None), v.int(p + "Ny", 1, None))
        self.nx, self.ny = self.Nx.t, self.Ny.t
        self.lf = T.mul(self.wl.t, self.f.t)


def slm(v, p=""):
    d = Dev(v, p)
    d.o = v.m.SLM(d.wl, d.f, d.Nx, d.Ny, d.d)
    return d


def dmd(v, p="", neg=None, cls=None, like=None):
    d = Dev(v, p, like)
    d.p = v.real(p + "periodicity", pos=True)
    d.theta = v.real(p + "theta")
    d.neg = v.bool(p + "negative") if neg is None else neg
    d.o = (cls or v.m.DMD)(d.wl, d.f, d.p, d.theta, d.Nx, d.Ny, d.d, negative_order=d.neg)
    return d


def lcos(v, p="", like=None):
    d = Dev(v, p, like)
    d.o = v.m.LCOS_SLM(d.wl, d.f, d.Nx, d.Ny, d.d)
    return d


def half(n):
    return T.scale(n, T.Fraction(1, 2))


def dev_xy(d, i, j):
    """device-plane coordinates of pixel (i, j)"""
    return (T.mul(T.sub(j, half(d.nx)), d.d.t), T.mul(T.sub(half(d.ny), i), d.d.t))


def img_xy(lf, d, nx, ny, i, j):
    """image-plane coordinates of sample (i, j) for an nx by ny lattice"""
    return (T.div(T.mul(T.sub(j, T.fdiv(nx, num(2))), lf), T.mul(nx, d)),
            T.scale(T.div(T.mul(T.sub(i, T.fdiv(ny, num(2))), lf), T.mul(ny, d)), -1))


def pair(v, name, r):
    if not isinstance(r, (tuple, list)) or len(r) != 2:
        v.fail(name + ".pair", "not a pair")
        raise Unsupported("not a pair")
    return r


# ---- centred transforms -------------------------------------------------------------------------------------------
def from_centre(i, n):
    "array index of the sample that is at position i of the 0-based transform (i + n//2 mod n)"
    k = T.add(i, T.fdiv(n, num(2)))
    return ite(lt(k, n), k, T.sub(k, n))


def to_centre(i, n):
    "transform index of array sample i (i - n//2 mod n)"
    k = T.sub(i, T.fdiv(n, num(2)))
    return ite(lt(k, num(0)), T.add(k, n), k)


def uncentred(kind, shape, fn):
    "transform array of the samples fn(i, j), index origin moved from the array centre to 0"
    ny, nx = shape
    return A.transform(kind, shape, lambda i, j: fn(from_centre(i, ny), from_centre(j, nx)))


def centred(kind, shape, fn):
    """(i, j) -> centred DFT: with all indices counted from floor(N/2),
    fft2: SUM f(m, n) exp(-2 pi i (...)),  ifft2: 1/(Nx Ny) SUM f(m, n) exp(+2 pi i (...))"""
    ny, nx = shape
    a = uncentred(kind, shape, fn)
    return lambda i, j: a.at((to_centre(i, ny), to_centre(j, nx)))


def padded(fn, py, px, ny, nx):
    "fn surrounded by zeros"
    def f(i, j):
        a, b = T.sub(i, py), T.sub(j, px)
        return A.ite_v(and_(le(num(0), a), lt(a, ny), le(num(0), b), lt(b, nx)), fn(a, b), cx(num(0)))
    return f


def expi(t):
    return Cx(T.fn("cos", t), T.fn("sin", t))


def dist2(x, y):
    return T.add(T.mul(x, x), T.mul(y, y))


def field(v, name, d, dtype=None):
    "an arbitrary complex field on the device"
    return v.tensor(name, (d.Ny, d.Nx), dtype or v.CT)


def elem_of(x):
    "element function of an array at this moment"
    c = x.core
    return lambda *ix: c.at(*ix)


def unit_gen(rng, shape):
    import numpy as np
    a = rng.uniform(size=shape)
    return np.where(rng.uniform(size=shape) < 0.3, rng.integers(0, 2, size=shape), a)


def unit_facts(ix, val):
    return [le(num(0), val), le(val, num(1))]


# ---- iterations ---------------------------------------------------------------------------------------------------
def iterate(shape, cplx, init, step, n):
    """s(0) = init, s(k+1) = step(k, s(k)) elementwise over shape; returns the element function of s(n) for n >= 1.
    step(k, cur, *idx) where cur(*idx) is s(k)."""
    g = A.Group("spec")
    a = g.add("s", shape, ("re", "im") if cplx else ("v",))
    k = A.K()
    cur = lambda *ix: a.at((k,) + tuple(ix), ())
    b = A.binders(len(shape))
    with A.scope():
        i0, s = init(*b), step(k, cur, *b)
    if cplx:
        i0, s = cx(i0), cx(s)
    g.idx[0], g.init[0] = tuple(b), (i0.re, i0.im) if cplx else (i0,)
    g.step[0] = (s.re, s.im) if cplx else (s,)
    last = T.sub(n, num(1))
    return lambda *ix: A.subst_v(A.subst_v(s, dict(zip(b, ix))), {k: last})


def iterations(v, name="N"):
    return v.int(name, 1, None, gen=lambda r: int(r.integers(1, 4)))

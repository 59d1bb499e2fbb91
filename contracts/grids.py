from .common import *


def grids_ok(v, name, g, d, cls="np"):
    x, y = pair(v, name, g)
    sh = (d.ny, d.nx)
    v.forall(name + ".x", x, sh, lambda i, j: dev_xy(d, i, j)[0], v.FT, cls)
    v.forall(name + ".y", y, sh, lambda i, j: dev_xy(d, i, j)[1], v.FT, cls)


def image_ok(v, name, g, d, cls="np"):
    x, y = pair(v, name, g)
    sh = (d.ny, d.nx)
    v.forall(name + ".x", x, sh, lambda i, j: img_xy(d.lf, d.d.t, d.nx, d.ny, i, j)[0], v.FT, cls)
    v.forall(name + ".y", y, sh, lambda i, j: img_xy(d.lf, d.d.t, d.nx, d.ny, i, j)[1], v.FT, cls)


def c01_grid(v):
    "fourier_plane_grid: x = (j - Nx/2) d, y = (Ny/2 - i) d on an (Ny, Nx) grid"
    v.package()
    d = slm(v)
    grids_ok(v, "grid", d.o.fourier_plane_grid, d)


def c01_stable(v):
    "the published grid is a copy: writing into it, other computations and other devices leave later grids as they were"
    v.package()
    d, e = slm(v), slm(v, "other_")
    x, y = d.o.fourier_plane_grid
    x[0, 0] = 12345.0
    y *= 2.0
    e.o.fourier_plane_grid
    d.o.image_plane_grid
    d.o.profile_to_tensor(v.m.HermiteGaussian(0.0, 0.0, 1.0, v.real("w", pos=True)))
    grids_ok(v, "again", d.o.fourier_plane_grid, d)
    grids_ok(v, "other", e.o.fourier_plane_grid, e)


def c01_inverse(v):
    "_convert_slm_coordinate_to_pixel_index inverts _convert_pixel_index_to_dmd_coordinate"
    v.package()
    d = slm(v)
    shape = (v.int("len", 1),)
    i, j = v.tensor("i", shape), v.tensor("j", shape)
    x, y = d.o._convert_pixel_index_to_dmd_coordinate(i, j)
    k = v.idx("k", shape[0])
    v.eq("x", v.at(x, k), dev_xy(d, v.at(i, k), v.at(j, k))[0])
    v.eq("y", v.at(y, k), dev_xy(d, v.at(i, k), v.at(j, k))[1])
    i2, j2 = d.o._convert_slm_coordinate_to_pixel_index(x, y)
    v.eq("i", v.at(i2, k), v.at(i, k))
    v.eq("j", v.at(j2, k), v.at(j, k))
    # and from coordinates to indices and back
    p, q = v.tensor("px", shape), v.tensor("py", shape)
    a, b = d.o._convert_slm_coordinate_to_pixel_index(p, q)
    x2, y2 = d.o._convert_pixel_index_to_dmd_coordinate(a, b)
    v.eq("x.back", v.at(x2, k), v.at(p, k))
    v.eq("y.back", v.at(y2, k), v.at(q, k))


def c02_grid(v):
    "image_plane_grid is the reciprocal lattice with the optical axis on sample (Ny//2, Nx//2)"
    v.package()
    d = slm(v)
    image_ok(v, "grid", d.o.image_plane_grid, d)


def c02_stable(v):
    "the published image grid is a copy"
    v.package()
    d, e = slm(v), slm(v, "other_")
    x, y = d.o.image_plane_grid
    x[0, 0] = 12345.0
    y *= 2.0
    e.o.image_plane_grid
    image_ok(v, "again", d.o.image_plane_grid, d)
    image_ok(v, "other", e.o.image_plane_grid, e)


def sim(v, d, cls=None, p=""):
    px, py = v.int(p + "padding_x", 0, None, gen=lambda r: int(r.integers(0, 4))), v.int(p + "padding_y", 0, None, gen=lambda r: int(r.integers(0, 4)))
    s = (cls or v.m.SLMSimulation)(d.o, px, py)
    s_ = type("Sim", (), {})()
    s_.o, s_.px, s_.py = s, px.t, py.t
    s_.nx, s_.ny = T.add(d.nx, T.scale(px.t, 2)), T.add(d.ny, T.scale(py.t, 2))
    return s_


def c03_sizes(v):
    "Nx, Ny and paddings of a simulation"
    v.package()
    d = slm(v)
    s = sim(v, d)
    v.eq("Nx", s.o.Nx, s.nx)
    v.eq("Ny", s.o.Ny, s.ny)
    v.eq("padding_x", s.o.padding_x, s.px)
    v.eq("padding_y", s.o.padding_y, s.py)


def c03_device(v):
    "fourier_plane_padded_grid continues the device lattice; its inner window is the device grid"
    v.package()
    d = slm(v)
    s = sim(v, d)
    x, y = pair(v, "grid", s.o.fourier_plane_padded_grid)
    sh = (s.ny, s.nx)
    v.forall("grid.x", x, sh, lambda i, j: dev_xy(d, T.sub(i, s.py), T.sub(j, s.px))[0], v.FT, "np")
    v.forall("grid.y", y, sh, lambda i, j: dev_xy(d, T.sub(i, s.py), T.sub(j, s.px))[1], v.FT, "np")
    gx, gy = d.o.fourier_plane_grid
    i, j = v.idx("i", d.ny), v.idx("j", d.nx)
    v.eq("inner.x", v.at(x, T.add(i, s.py), T.add(j, s.px)), v.at(gx, i, j))
    v.eq("inner.y", v.at(y, T.add(i, s.py), T.add(j, s.px)), v.at(gy, i, j))


def c03_image(v):
    "image_plane_padded_grid is the reciprocal lattice of the padded size, and stays so"
    v.package()
    d = slm(v)
    s = sim(v, d)
    for k in ("first", "again"):
        x, y = pair(v, k, s.o.image_plane_padded_grid)
        sh = (s.ny, s.nx)
        v.forall(k + ".x", x, sh, lambda i, j: img_xy(d.lf, d.d.t, s.nx, s.ny, i, j)[0], v.FT, "np")
        v.forall(k + ".y", y, sh, lambda i, j: img_xy(d.lf, d.d.t, s.nx, s.ny, i, j)[1], v.FT, "np")
        x[0, 0] = 5.0
        y *= 3.0


def c03_areas(v):
    "pixel areas are the products of the grid spacings"
    v.package()
    d = slm(v)
    s = sim(v, d)
    v.eq("fourier", s.o.fourier_plane_pixel_area, T.mul(d.d.t, d.d.t))
    v.eq("image", s.o.image_plane_pixel_area, T.mul(T.div(d.lf, T.mul(s.nx, d.d.t)), T.div(d.lf, T.mul(s.ny, d.d.t))))


CONTRACTS = {
    "C01": [Contract("grid", c01_grid), Contract("stable", c01_stable), Contract("inverse", c01_inverse)],
    "C02": [Contract("grid", c02_grid), Contract("stable", c02_stable)],
    "C03": [Contract("sizes", c03_sizes), Contract("device", c03_device), Contract("image", c03_image), Contract("areas", c03_areas)],
}

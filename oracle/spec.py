"""NumPy statements of the properties, in double precision, written from the property texts (no FFT library: explicit DFT matrices)."""
import math
import numpy as np


def dev_grid(Nx, Ny, d):
    j, i = np.meshgrid(np.arange(Nx), np.arange(Ny))
    return (j - Nx / 2) * d, (Ny / 2 - i) * d


def img_grid(Nx, Ny, d, lf):
    j, i = np.meshgrid(np.arange(Nx), np.arange(Ny))
    return (j - Nx // 2) * lf / (Nx * d), -(i - Ny // 2) * lf / (Ny * d)


def W(N, sign):
    k = np.arange(N) - N // 2
    return np.exp(sign * 2j * np.pi * ((np.outer(k, k)) % N) / N)


def to_image(F):
    "sum over samples of F times exp(+2 pi i (u m/Nx + v n/Ny)), all indices counted from the centres"
    Ny, Nx = F.shape
    return W(Ny, 1) @ np.asarray(F, complex) @ W(Nx, 1)


def to_device(F):
    "the inverse of to_image up to 1/(Nx Ny)"
    Ny, Nx = F.shape
    return W(Ny, -1) @ np.asarray(F, complex) @ W(Nx, -1)


def image_field(out, d, lf):
    return to_image(out) * d * d / lf


def pad(F, px, py):
    F = np.asarray(F)
    o = np.zeros((F.shape[0] + 2 * py, F.shape[1] + 2 * px), F.dtype)
    o[py:py + F.shape[0], px:px + F.shape[1]] = F
    return o


def grating_phase(x, y, p, theta):
    return 2 * np.pi * (x * np.cos(theta) + y * np.sin(theta)) / p


def lee(amp, pin, pout, g, neg):
    dphi = (pout - pin) * (-1 if neg else 1)
    return amp * (1 + np.cos(g - dphi)) / 2


def target_hologram(inp, tgt, win):
    "greyscale amplitude, phases, constant (of the unnormalised spectrum)"
    spec = to_device(tgt) * win
    a = np.where(spec == 0, 0, np.abs(spec) / np.where(inp == 0, 1, np.abs(inp)))
    c = a.max()
    return spec, a / c, np.angle(inp), np.angle(spec), c


def on_prob(amp, dphi, r):
    q = np.arccos(np.clip(np.cos(dphi), -1, 1))
    w = np.arcsin(amp)
    return 0.5 * (np.tanh(r * (q + w)) - np.tanh(r * (q - w)))


def ifta(inp, h0, N, win):
    "(final unbinarized hologram, margin to the nearest threshold)"
    h = h0.copy()
    ideal = to_image(inp * h0)
    mask = inp == 0
    margin = np.inf
    for k in range(1, N + 1):
        t = k / (2 * N)
        margin = min(margin, np.min(np.abs(h - (1 - t))), np.min(np.abs(h - t)))
        b = np.where(h > 1 - t, 1.0, h)
        b = np.where(h < t, 0.0, b)
        im = to_image(inp * b)
        im = im + (ideal - im) * win
        back = to_device(im) / im.size
        h = np.where(mask, 0.0, np.real(back / np.where(mask, 1, inp)))
    margin = min(margin, np.min(np.abs(h - 0.5)))
    return h, margin


def gs(inp, tgt, N, phase):
    for _ in range(N):
        im = to_image(inp * np.exp(1j * phase))
        c = tgt * np.exp(1j * np.angle(im))
        phase = np.angle(to_device(c) * np.exp(-1j * np.angle(inp)))
    return phase


def mraf(inp, tgt, N, phase, win, m):
    for _ in range(N):
        im = to_image(inp * np.exp(1j * phase)) / inp.size     # the inverse transform of C27
        c = m * tgt * np.exp(1j * np.angle(im)) * win + (1 - m) * im * (1 - win)
        phase = np.angle(to_device(c) * np.exp(-1j * np.angle(inp)))
    return phase


def hermite(n, x):
    a, b = np.ones_like(x), 2 * x
    if n == 0:
        return a
    for k in range(1, n):
        a, b = b, 2 * x * b - 2 * k * a
    return b


def laguerre(p, k, x):
    return sum((-1) ** i * math.comb(p + k, p - i) * x ** i / math.factorial(i) for i in range(p + 1))


def radial(n, m, rho):
    m = abs(m)
    return sum((-1) ** k * math.factorial(n - k) / (math.factorial(k) * math.factorial((n + m) // 2 - k) * math.factorial((n - m) // 2 - k))
               * rho ** (n - 2 * k) for k in range((n - m) // 2 + 1))


def zernike(a, R, n, m, x, y, norm=True, extra=False):
    rho, phi = np.hypot(x, y) / R, np.arctan2(y, x)
    N = (math.sqrt(n + 1) if m == 0 else math.sqrt(2 * n + 2)) if norm else 1.0
    z = a * N * radial(n, m, rho) * (np.cos(m * phi) if m >= 0 else np.sin(abs(m) * phi))
    return z if extra else np.where(rho > 1, 0.0, z)


def ansi(j):
    n = 0
    while (n + 1) * (n + 2) // 2 <= j:
        n += 1
    m = 2 * j - n * (n + 2)
    return n, m

"""Random spectra with exact Matsubara data, and the transform back, independent of /repo."""
import numpy as np

FINE = np.linspace(-25, 25, 20001)


def weights(w):
    """trapezoidal weights on any mesh"""
    d = np.zeros(len(w))
    d[1:] += np.diff(w) / 2
    d[:-1] += np.diff(w) / 2
    return d


def gaussians(rng, wmax, lo=.35, hi=.9):
    n = int(rng.integers(1, 4))
    return rng.uniform(-.4, .4, size=n) * wmax, rng.uniform(lo, hi, size=n), rng.dirichlet(np.ones(n))


def spectrum(p, w, bos=False):
    c, s, a = p
    f = lambda x: sum(ai * np.exp(-.5 * ((x - ci) / si) ** 2) / si / np.sqrt(2 * np.pi) for ci, si, ai in zip(c, s, a))
    return f(w) + f(-w) if bos else f(w)


def kernel(x, w, bos):
    if bos:
        return np.where((x[:, None] == 0), 1., w ** 2 / (w ** 2 + x[:, None] ** 2 + 1e-300))
    return 1 / (1j * x[:, None] - w)


def matsubara(beta, n, bos):
    return 2 * np.pi / beta * np.arange(-n, n + 1) if bos else np.pi / beta * (2 * np.arange(-n, n) + 1)


def exact(p, x, bos):
    w = FINE[FINE >= 0] if bos else FINE
    return kernel(x, w, bos) @ (weights(w) * spectrum(p, w, bos))


def noisy(rng, d, err, bos):
    e = err * rng.normal(size=d.shape)
    if bos:
        return d + (e + e[::-1]) / 2
    e = e + 1j * err * rng.normal(size=d.shape)
    return d + (e + e[::-1].conj()) / 2


def back(a, w, x, bos):
    return kernel(x, w, bos) @ (weights(w) * a)


def hilbert(a, w):
    """principal value of int A(x)/(w-x) dx for piecewise linear A (zero at the ends), exact at every mesh point"""
    out = np.zeros(len(w))
    da = np.diff(a) / np.diff(w)
    jump = np.zeros(len(w))  # change of slope at every mesh point
    jump[0], jump[-1] = da[0], -da[-1]
    jump[1:-1] = np.diff(da)
    # second antiderivative: int A(x)/(w-x) = sum_i jump_i (w-w_i) log|w-w_i| + boundary terms
    for j, x in enumerate(w):
        r = x - w
        with np.errstate(divide='ignore', invalid='ignore'):
            t = np.where(r == 0, 0., r * np.log(np.abs(r)))
            e = [0. if r[k] == 0 else np.log(abs(r[k])) for k in (0, -1)]
        out[j] = np.sum(jump * t) + a[0] * e[0] - a[-1] * e[1]
    return out

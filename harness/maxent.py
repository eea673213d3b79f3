"""Independent maximum of Q = alpha*S - chi2/2 through its convex dual, in units of the data."""
import numpy as np
from scipy.interpolate import CubicSpline
from scipy.special import wofz

from harness.spectra import weights


def kernel(kind, x, w, beta, b=0.):
    """data = int K A dw; b: width of a Gaussian the spectrum is smeared with"""
    x, w = np.asarray(x)[:, None], np.asarray(w)[None, :]
    if kind == 'freq_fermionic':
        return 1 / (1j * x - w) if b == 0 else -1j * smear((1j * x - w) / b) / b
    if kind == 'freq_bosonic':
        if b == 0:
            return np.where(x == 0, 1., w ** 2 / (w ** 2 + x ** 2 + 1e-300))
        # w^2/(w^2+x^2) = 1 + x Im 1/(w + i x)
        s = smear((w + 1j * x) / b) / b
        return np.where(x == 0, 1., 1 + x * (-1j * s).imag)
    if kind == 'time_fermionic':
        return np.exp(-np.logaddexp(x * w, -(beta - x) * w))
    if kind == 'time_bosonic':
        with np.errstate(all='ignore'):
            k = .5 * w * (np.exp(-w * x) + np.exp(-w * (beta - x))) / -np.expm1(-beta * w)
        return np.where(w == 0, 1 / beta, k)
    if kind == 'freq_fermionic_phsym':
        return -2 * x / (x ** 2 + w ** 2)
    if kind == 'freq_bosonic_xyz':
        return np.where(x == 0, 0., -x / (x ** 2 + w ** 2 + 1e-300))
    if kind == 'time_fermionic_phsym':
        return np.exp(-np.logaddexp(x * w, -(beta - x) * w)) + np.exp(-np.logaddexp(-x * w, (beta - x) * w))
    raise KeyError(kind)


def smear(z):
    """i * int g(x)/(z-x) dx for the unit Gaussian, Im z > 0"""
    return np.sqrt(np.pi / 2) * wofz(z / np.sqrt(2))


def rows(k, d, err=None, cov=None):
    """real whitened kernel and data: chi2 = |d - int K A|^2"""
    if cov is None:
        k, d = k / err[:, None], d / err
    else:
        low = np.linalg.cholesky(cov)
        k, d = np.linalg.solve(low, k), np.linalg.solve(low, d)
    if np.iscomplexobj(k):
        k, d = np.concatenate((k.real, k.imag)), np.concatenate((d.real, d.imag))
    return k, d


class Optimum:
    """A = D exp(s) (or D exp(s) - D exp(-s)) with s = K^T y, which holds exactly at the maximum"""

    def __init__(self, k, d, model, w, alpha, offdiag=False):
        self.k, self.d, self.model, self.w, self.off = k, d, model, w, offdiag
        self.dw = weights(w)
        y = np.zeros(len(d))
        # from the default model downwards in alpha, so that every start is close to its maximum
        top = float(np.max((k * k) @ (self.dw * model))) + 1e-300
        path = [alpha]
        while path[0] < top:
            path.insert(0, path[0] * 30)
        for self.alpha in path:
            y, ok = self.newton(y)
        self.converged = ok
        self.y, self.s = y, k.T @ y
        e = np.exp(self.s)
        self.a = model * (e - 1 / e) if offdiag else model * e

    def newton(self, y):
        f, last = self.value(y), np.inf
        for _ in range(400):
            g, h = self.gradient(y)
            step = np.linalg.lstsq(h, -g, rcond=1e-15)[0]
            ds = self.k.T @ step
            top = np.max(np.abs(ds))
            if not np.isfinite(top):
                return y, False
            t = min(1., 1.5 / top) if top > 0 else 1.
            while t > 1e-9:
                fn = self.value(y + t * step)
                if top < 1e-3 or fn <= f + 1e-4 * t * (g @ step) + 1e-12 * abs(f):
                    break
                t /= 2
            y, f = y + t * step, self.value(y + t * step)
            if top < 1e-8 or (top < 1e-4 and top > .5 * last):
                return y, top < 1e-5
            last = top
        return y, False

    def value(self, y):
        s = self.k.T @ y
        with np.errstate(over='ignore'):
            e = np.exp(s) + (np.exp(-s) if self.off else 0.)
            return np.sum(self.dw * self.model * e) - self.d @ y + .5 * self.alpha * y @ y

    def gradient(self, y):
        s = self.k.T @ y
        e = np.exp(s)
        a, b = (self.model * (e - 1 / e), self.model * (e + 1 / e)) if self.off else (self.model * e,) * 2
        g = self.k @ (self.dw * a) - self.d + self.alpha * y
        return g, (self.k * (self.dw * b)) @ self.k.T + self.alpha * np.eye(len(y))

    @property
    def chi2(self):
        return float(np.sum((self.d - self.k @ (self.dw * self.a)) ** 2))

    @property
    def entropy(self):
        return entropy(self.a, self.model, self.dw, self.off)

    @property
    def q(self):
        return self.alpha * self.entropy - .5 * self.chi2

    def bayes(self):
        """trace of the number of good directions, and its ratio to -2 alpha S"""
        m = np.sqrt(self.a ** 2 + 4 * self.model ** 2) if self.off else self.a
        b = self.k * np.sqrt(self.dw * m)
        lam = np.linalg.svd(b, compute_uv=False) ** 2
        tr = float(np.sum(lam / (self.alpha + lam)))
        return tr, tr / (-2 * self.alpha * self.entropy)


def entropy(a, model, dw, off=False):
    if off:
        r = np.sqrt(a ** 2 + 4 * model ** 2)
        return float(np.sum(dw * (r - 2 * model - a * np.log((r + a) / 2 / model))))
    with np.errstate(divide='ignore', invalid='ignore'):
        t = np.where(a > 0, a * np.log(a / model), 0.)
    return float(np.sum(dw * (a - model - t)))


def blurred(a, w, b, even=False):
    """convolution with a Gaussian of width b; nothing outside the mesh"""
    if even:
        w0, a0 = np.concatenate((-w[:0:-1], w)), np.concatenate((a[:0:-1], a))
    else:
        w0, a0 = w, a
    f = CubicSpline(w0, a0)
    t, g = np.polynomial.legendre.leggauss(120)
    t, g = 5 * b * t, 5 * b * g * np.exp(-.5 * (5 * t) ** 2) / b / np.sqrt(2 * np.pi)
    x = w[:, None] + t
    return np.where((x >= w0[0]) & (x <= w0[-1]), f(x), 0.) @ g

"""Generators of physically admissible random inputs shared by the checks (independent of the code under test)."""
import numpy as np


def iv(beta, niv, shift=0, pos=False):
    n = np.arange(shift, niv + shift) if pos else np.arange(-niv + shift, niv + shift)
    return 1j * np.pi / beta * (2 * n + 1)


class PoleSigma:
    """Sigma(z) = h + sum_p a_p / (z - e_p), a_p > 0: causal, with known moments and known exact filling."""

    def __init__(self, rng, npole=None, strength=None):
        npole = int(rng.integers(1, 4)) if npole is None else npole
        self.h = float(rng.normal() * 0.7)
        self.e = rng.normal(size=npole) * 1.5
        self.a = rng.uniform(0.05, 1.0, size=npole) * (rng.uniform(0.05, 2.) if strength is None else strength)

    def __call__(self, z):
        z = np.asarray(z)
        return self.h + np.sum(self.a / (z[..., None] - self.e), axis=-1)

    @property
    def mom1(self):
        """code convention: Sigma ~ smom0 - smom1/(iv)"""
        return -float(np.sum(self.a))

    def occ(self, ek, mu, beta):
        """exact occupation per spin of G=1/(z+mu-ek-Sigma(z)), from the arrow matrix whose resolvent G is"""
        ek = np.asarray(ek)
        out = np.zeros(ek.shape)
        v = np.sqrt(self.a)
        for idx in np.ndindex(*ek.shape):
            m = np.diag(np.concatenate(([ek[idx] + self.h - mu], self.e)))
            m[0, 1:] = v
            m[1:, 0] = v
            w, u = np.linalg.eigh(m)
            out[idx] = np.sum(np.abs(u[0]) ** 2 * 0.5 * (1 - np.tanh(0.5 * beta * w)))
        return out


def square_ek(nk, t=1.0, tp=0.0, tpp=0.0, tx=None, tz=0.0):
    kx, ky, kz = np.meshgrid(*[np.arange(n) * 2 * np.pi / n for n in nk], indexing='ij')
    tx = t if tx is None else tx
    return (-2 * (tx * np.cos(kx) + t * np.cos(ky) + tz * np.cos(kz)) - 4 * tp * np.cos(kx) * np.cos(ky)
            - 2 * tpp * (np.cos(2 * kx) + np.cos(2 * ky)))


def rand_nk(rng, lo=1, hi=5, nz=True):
    return (int(rng.integers(lo, hi)), int(rng.integers(lo, hi)), int(rng.choice([1, 1, 2, 3])) if nz else 1)


def crandn(rng, *shape):
    return rng.normal(size=shape) + 1j * rng.normal(size=shape)

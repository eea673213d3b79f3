"""Exact one- and two-particle Green's functions of small Hubbard clusters (impurity = site 0) from their spectra.

G2_{s s'}(w,v,v') = 1/beta int d1 d2 d3 exp(-i v t1 + i (v-w) t2 - i (v'-w) t3) <T c+_s(t1) c_s(t2) c+_s'(t3) c_s'(0)>,
the 'minus' convention with legs v and v-w.  The time-ordered integrals are divided differences of exp (Hermite-Genocchi).
"""
import itertools

import numpy as np


def fock(nmode):
    dim = 2 ** nmode
    ops = []
    for m in range(nmode):
        c = np.zeros((dim, dim))
        for s in range(dim):
            if (s >> m) & 1:
                c[s & ~(1 << m), s] = (-1) ** bin(s & ((1 << m) - 1)).count('1')
        ops.append(c)
    return ops


def divdiff_exp(points, beta):
    """divided difference of exp(beta x) on the points (list of equally shaped complex arrays)"""
    p = np.sort(np.round(np.stack(np.broadcast_arrays(*points)), 11), axis=0)
    n = len(p)
    tab = [np.exp(beta * p[k]) for k in range(n)]
    fact = 1.0
    for lev in range(1, n):
        fact *= beta / lev
        new = []
        for k in range(n - lev):
            d = p[k + lev] - p[k]
            deg = np.abs(d) < 1e-9
            new.append(np.where(deg, fact * np.exp(beta * p[k]), (tab[k + 1] - tab[k]) / np.where(deg, 1, d)))
        tab = new
    return tab[0]


class Cluster:
    """sites with on-site U on site 0 only; hop[i,j] one-body matrix incl. levels, mu included by the caller"""

    def __init__(self, beta, u, h1):
        self.beta, self.u = beta, u
        h1 = np.atleast_2d(np.asarray(h1, float))
        ns = len(h1)
        self.h1 = h1
        c = fock(2 * ns)  # mode 2*i+s
        self.n_op = c[0].T @ c[0] + c[1].T @ c[1]
        h = u * c[0].T @ c[0] @ c[1].T @ c[1]
        for s in range(2):
            for i in range(ns):
                for j in range(ns):
                    h = h + h1[i, j] * c[2 * i + s].T @ c[2 * j + s]
        # diagonalize within particle-number sectors (keeps the operators sparse)
        num = np.array([[bin(x >> s & int('01' * ns, 2)).count('1') for s in range(2)] for x in range(2 ** (2 * ns))])
        e = np.zeros(len(h))
        v = np.zeros_like(h)
        pos = 0
        for key in sorted({tuple(x) for x in num}):
            idx = [k for k in range(len(h)) if tuple(num[k]) == key]
            ee, vv = np.linalg.eigh(h[np.ix_(idx, idx)])
            for m in range(len(idx)):
                e[pos] = ee[m]
                v[idx, pos] = vv[:, m]
                pos += 1
        e = np.round(e, 10)
        self.e = e - e.min()
        self.v = v
        self.c = [v.T @ x @ v for x in c[:2]]
        self.z = np.exp(-beta * self.e).sum()
        nn = v.T @ self.n_op @ v
        self.n = float(np.sum(np.diag(nn) * np.exp(-beta * self.e)) / self.z)
        self.nn = nn
        self.double = float(np.sum(np.diag(v.T @ (c[0].T @ c[0] @ c[1].T @ c[1]) @ v) * np.exp(-beta * self.e)) / self.z)

    def g(self, iv):
        """G(i v_n) at complex frequencies"""
        w = np.exp(-self.beta * self.e) / self.z
        out = np.zeros(len(iv), dtype=complex)
        for a, b in zip(*np.nonzero(np.abs(self.c[0]) > 1e-12)):
            out += self.c[0][a, b] ** 2 * (w[a] + w[b]) / (iv + self.e[a] - self.e[b])
        return out

    def g0inv(self, iv):
        h = self.h1
        hyb = np.zeros(len(iv), dtype=complex)
        for k in range(1, len(h)):
            hyb += h[0, k] ** 2 / (iv - h[k, k])
        return iv - h[0, 0] - hyb

    def sigma(self, iv):
        return self.g0inv(iv) - 1 / self.g(iv)

    def g2(self, wn, niv, spin):
        """G2_{up,spin}[w,v,vp], spin 0 = up, 1 = down"""
        b = self.beta
        vs = (2 * np.arange(-niv, niv) + 1) * np.pi / b
        w = 2 * np.pi / b * np.asarray(wn)[:, None, None]
        v = vs[None, :, None]
        vp = vs[None, None, :]
        om = [-v + 0 * w + 0 * vp, v - w + 0 * vp, -(vp - w) + 0 * v]
        cu, cs = self.c[0], self.c[spin]
        ops = [cu.T, cu, cs.T]
        o4 = cs
        out = np.zeros(om[0].shape, dtype=complex)
        bz = np.exp(-b * self.e) / self.z
        for perm in itertools.permutations(range(3)):
            sg = np.linalg.det(np.eye(3)[list(perm)])
            A, B, C = (ops[p] for p in perm)
            fa, fb, fc = (om[p] for p in perm)
            amp = np.einsum('ij,jk,kl,li->ijkl', A, B, C, o4, optimize=False)
            acc = {}
            for i, j, k, l in zip(*np.nonzero(np.abs(amp) > 1e-11)):
                key = tuple(np.round([self.e[i] - self.e[j], self.e[j] - self.e[k], self.e[k] - self.e[l]], 9))
                acc[key] = acc.get(key, 0) + amp[i, j, k, l] * bz[i]
            for (x, y, zz), val in acc.items():
                if abs(val) < 1e-14:
                    continue
                p1 = 1j * fa + x
                p2 = p1 + 1j * fb + y
                p3 = p2 + 1j * fc + zz
                out += sg * val * divdiff_exp([np.zeros_like(p1), p1, p2, p3], b)
        return out / b

    def chi(self, wn, kind):
        """exact chi_dens / chi_magn = 1/2 int dt e^{iwt} <O(t)O(0)>_c, O = n_up +- n_dn"""
        o = self.c[0].T @ self.c[0] + (1 if kind == 'dens' else -1) * self.c[1].T @ self.c[1]
        w = np.exp(-self.beta * self.e) / self.z
        av = np.sum(np.diag(o) * w)
        out = np.zeros(len(wn), dtype=complex)
        for j, n in enumerate(wn):
            iw = 2j * np.pi * n / self.beta
            d = self.e[None, :] - self.e[:, None]  # E_b - E_a
            deg = np.abs(d) < 1e-8
            if n == 0:
                t = np.where(deg, self.beta * w[:, None], (w[:, None] - w[None, :]) / np.where(deg, 1, d))
            else:
                t = np.where(deg, 0, (w[:, None] - w[None, :]) / (d - iw))
            out[j] = 0.5 * np.sum(np.abs(o) ** 2 * t)
            if n == 0:
                out[j] -= 0.5 * self.beta * av ** 2
        return out

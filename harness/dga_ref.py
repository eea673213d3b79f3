"""Independent re-computation of a whole (small) ladder-DGA run: explicit inversions and sums, no code of dga except the
objects that complete the one-particle Green's function with its high-frequency tail (checked by C08/C09)."""
import numpy as np
from dga import two_point as tp
from harness import gen
from harness.props.C12 import sde_ref
from harness.props.C13 import bubble_q, sde_q
from harness.props.C16 import rule, solve
from harness.vertex import UR, pad, solve_box


class Spec:
    """One physical input"""

    def __init__(self, rng, i, thorough=False, flat=False, symmetric=True, meshes=None):
        self.beta = float(rng.uniform(1.5, 6))
        self.u = float(rng.uniform(.5, 2.))
        if symmetric:
            n = int(rng.choice([4] if not thorough else [4, 5, 6]))
            self.nk = (n, n, 1)
        else:
            self.nk = (int(rng.integers(4, 6)), int(rng.integers(4, 6 if thorough else 5)), 1)
        self.nq = self.nk
        if meshes is not None:
            self.nk, self.nq = meshes
        self.hop = [0., 0., 0.] if flat else [float(rng.uniform(.3, 1.)), float(rng.uniform(-.3, .1)), float(rng.uniform(0, .15))]
        self.niw = int(rng.integers(2, 5))
        self.niv = int(rng.integers(max(3, self.niw), 7))
        self.shell = int(rng.integers(0, 4)) * 3
        self.big_v, self.big_w = int(rng.integers(0, 3)), int(rng.integers(0, 2))  # the vertex on disk may have a larger box
        k = np.meshgrid(*[2 * np.pi * np.arange(n) / n for n in self.nk], indexing='ij')
        t, tp_, tpp = self.hop
        self.ek = -2 * t * (np.cos(k[0]) + np.cos(k[1])) - 4 * tp_ * np.cos(k[0]) * np.cos(k[1]) - 2 * tpp * (np.cos(2 * k[0]) + np.cos(2 * k[1]))
        s = gen.PoleSigma(rng)
        self.nsig = int(rng.integers(45, 70))
        mu_rel = float(rng.normal() * .5)
        # Hartree term and filling consistent with each other: Sigma = u n/2 + poles (fixed point by bisection)
        lo, hi = 0., 2.
        for _ in range(60):
            n = .5 * (lo + hi)
            s.h = self.u * n / 2
            if 2 * np.mean(s.occ(self.ek, mu_rel + self.u / 2, self.beta)) > n:
                lo = n
            else:
                hi = n
        self.siw = s(gen.iv(self.beta, self.nsig))
        self.mu = mu_rel + self.u / 2
        self.niv_asympt = self.niv + self.shell + 2 * self.niw
        self.niv_opt = None
        self.g = self.green(self.siw, mu=self.mu)
        self.n = float(np.real(self.g.n))
        self.gam = {c: self.rand_vertex(rng, c) for c in ('dens', 'magn')}

    def q_mesh(self):
        """coordinates of the bosonic momenta, [3, q]"""
        return [x.ravel() for x in np.meshgrid(*(2 * np.pi * np.arange(n) / n for n in self.nq), indexing='ij')]

    def shifts(self):
        """every bosonic momentum as a shift on the fermionic mesh"""
        return [tuple(int(x) * (k // m) for x, k, m in zip(q, self.nk, self.nq)) for q in np.ndindex(*self.nq)]

    def green(self, siw, **kw):
        so = tp.SelfEnergy(siw[None, None, None, :], self.beta)
        return tp.GreensFunction(so, self.ek, niv_asympt=self.niv_asympt, **kw)

    def rand_vertex(self, rng, c):
        """generalized susceptibility on disk: the ladder of a random local vertex in a slightly larger box"""
        from harness.vertex import rand_gamma
        nv, nw = self.niv + self.big_v, self.niw + self.big_w
        wn = np.arange(-nw, nw + 1)
        gam = rand_gamma(rng, wn, nv, self.beta, self.u, c, strength=.2)
        nf = nv + self.shell + 3
        g = np.asarray(self.green(self.siw, mu=self.mu).g_loc)
        N = len(g) // 2
        if N < nf + nw:
            so = tp.SelfEnergy(self.siw[None, None, None, :], self.beta)
            g = np.asarray(tp.GreensFunction(so, self.ek, mu=self.mu, niv_asympt=nf + nw).g_loc)
            N = len(g) // 2
        x0 = np.array([-self.beta * g[N - nf:N + nf] * g[N - nf - w:N + nf - w] for w in wn])
        x = solve_box(pad(gam, UR[c] * self.u / self.beta ** 2, nf), x0)[:, nf - nv:nf + nv, nf - nv:nf + nv]
        # statistical noise that is not symmetric in v,v' (a production run symmetrises it away)
        noise = gen.crandn(rng, *x.shape)
        noise = .5 * (noise + np.conj(noise[::-1, ::-1, ::-1]))
        self.noise = 1e-3
        x = x + self.noise * np.max(np.abs(x)) * noise
        if c == 'dens':
            x[nw] += 2 * self.beta * np.outer(g[N - nv:N + nv], g[N - nv:N + nv])
        return x / self.beta

    def dmft_dict(self):
        return {'n': self.n, 'beta': self.beta, 'u': self.u, 'mu_dmft': self.mu, 'giw': np.asarray(self.g.g_loc), 'siw': self.siw,
                'g4iw_dens': self.gam['dens'], 'g4iw_magn': self.gam['magn']}

    def case(self):
        return dict(nk=self.nk, nq=self.nq, hop=[round(x, 3) for x in self.hop], beta=round(self.beta, 3), u=round(self.u, 3), n=round(self.n, 3),
                    niw=self.niw, niv=self.niv, shell=self.shell, big=(self.big_v, self.big_w), nsig=self.nsig)


def reference(s, lambda_corr='spch', sym=True, niv_asympt=None):
    """every saved quantity of the run, or None when a denominator is close to zero"""
    r = {}
    if niv_asympt is not None:
        s.niv_asympt = niv_asympt
        s.g = s.green(s.siw, mu=s.mu)
    beta, u, niv, niw = s.beta, s.u, s.niv, s.niw
    nf = niv + s.shell
    G = np.array(s.g.g_full())
    gl = np.mean(G, axis=(0, 1, 2))
    N = len(gl) // 2
    wn = np.arange(-niw, niw + 1)
    core = slice(s.shell, s.shell + 2 * niv)
    qs = s.shifts()
    nq = len(qs)
    x0l = np.array([-beta * gl[N - nf:N + nf] * gl[N - nf - w:N + nf - w] for w in wn])
    x0q = np.array([bubble_q(G, beta, wn, nf, q) for q in qs])
    sh = slice(0, 0)
    cond = 1
    chi, V, kref, L, full = {}, {}, {}, {}, {}
    parts = {}
    for c in ('dens', 'magn'):
        ur = UR[c] * u
        m = s.gam[c][s.big_w:s.gam[c].shape[0] - s.big_w, s.big_v:s.gam[c].shape[1] - s.big_v, s.big_v:s.gam[c].shape[1] - s.big_v].copy()
        if sym:
            m = .5 * (m + m.transpose(0, 2, 1))
        x = beta * m
        if c == 'dens':
            x[niw] -= 2 * beta * np.outer(gl[N - niv:N + niv], gl[N - niv:N + niv])
        gam = np.empty_like(x)
        for j in range(len(wn)):
            t = (x0l[j].sum() - x0l[j, core].sum())
            b2 = ur / beta ** 2
            gam[j] = np.linalg.inv(x[j]) - np.diag(1 / x0l[j, core]) + b2 ** 2 * t / (1 + b2 * t)
        gf = pad(gam, ur / beta ** 2, nf)
        xl = solve_box(gf, x0l)
        cl = xl.sum(axis=(1, 2)) / beta ** 2
        fl = np.array([np.diag(1 / x0l[j]) - xl[j] / np.outer(x0l[j], x0l[j]) for j in range(len(wn))])
        xq = np.array([solve_box(gf, x0q[k]) for k in range(nq)])
        chi[c] = xq.sum(axis=(-1, -2)) / beta ** 2
        V[c] = (xq.sum(-1) / x0q / (1 - ur * chi[c])[..., None])[..., core]
        cond = max(cond, np.max(np.abs(x)) * np.max(np.abs(np.linalg.inv(x))), np.max(np.abs(xq)) * np.max(np.abs(1 / x0q)),
                   np.max(1 / np.abs(1 - ur * chi[c])) ** 2, np.max(1 / np.abs(1 - ur * cl)) ** 2, np.max(np.abs(1 / chi[c])) ** 1)
        L[c] = (cl, fl)
        r[f'gamma_{c}'] = gam
        r[f'chi_{c}_loc'] = cl
        # f = f1 + (1-u chi) f2 with the susceptibility that enters separately (it is replaced by the lambda-corrected one)
        full[c] = (1 / x0q[..., :, None] * (np.eye(2 * nf) - xq / x0q[..., None, :]))[..., core, core] * beta ** 2
        f2 = ur * V[c][..., :, None] * V[c][..., None, :]
        parts[c] = (full[c] - (1 - ur * chi[c])[..., None, None] * f2, f2)
    r['cond'] = cond
    r['parts'] = parts
    r['V'] = V
    n = s.n
    loc = u * n / 2 + sum(sde_ref(L[c][1], x0l, gl, wn, UR[c] * u / 2, beta, nf) for c in ('dens', 'magn'))
    r['siw_sde_full'] = loc
    mesh = {c: chi[c].reshape(s.nq + (len(wn),)) for c in chi}
    r['chi_lad'] = {c: mesh[c].copy() for c in mesh}
    lam = {'dens': 0., 'magn': 0.}
    if lambda_corr != 'none':
        tgt = {c: L[c][0].sum().real / beta for c in L}
        if lambda_corr == 'sp':
            tgt['magn'] = tgt['magn'] + tgt['dens'] - rule(mesh['dens'], 0, beta)
        for c in ('dens', 'magn') if lambda_corr == 'spch' else ('magn',):
            # targets that no positive susceptibility can reach are outside of the method
            if tgt[c] <= 1e-4 or np.min(np.abs(mesh[c])) < 1e-8:
                return None
            sol = solve(mesh[c], tgt[c], beta)
            if sol is None:
                return None
            lam[c] = sol[0]
            mesh[c] = 1 / (1 / mesh[c] + lam[c])
            cond = max(cond, np.max(np.abs(mesh[c])) ** 2)
    r['lambda'] = lam
    r['chi_lam'] = mesh
    dc = np.array([[-u * (L['magn'][1][j] @ x0q[k, j])[core] for j in range(len(wn))] for k in range(nq)])
    kern = -dc
    for c, f in (('dens', 1), ('magn', 3)):
        kern = kern + f * UR[c] * u / 2 * (1 - (1 - UR[c] * u * mesh[c].reshape(nq, -1))[..., None] * V[c])
    sig = sde_q(kern, G, beta, qs, wn, nq)
    M = len(s.siw) // 2
    sig = sig + s.siw[M - niv:M + niv] - loc[core] + u * n / 2
    dm = s.g.sigma.get_siw(nf)[0, 0, 0]
    out = np.empty(s.nk + (2 * nf,), dtype=complex)
    out[...] = dm
    out[..., core] = sig
    r['siwk_dga'] = out
    so = tp.SelfEnergy(out, beta, smom0=s.g.sigma.smom0, smom1=s.g.sigma.smom1, niv_core=nf)
    try:
        g = tp.GreensFunction(so, s.ek, n=n, niv_asympt=s.niv_asympt)
    except (AssertionError, ValueError):
        return None
    r['mu'] = float(np.real(g.mu))
    # Dyson equation by hand
    tail = nf + s.niv_asympt
    iv = gen.iv(beta, tail)
    sg = np.empty(s.nk + (2 * tail,), dtype=complex)
    sg[...] = so.smom0 - so.smom1 / iv
    sg[..., tail - nf:tail + nf] = out
    r['sigma_tail'] = sg
    r['giwk_dga'] = 1 / (iv + r['mu'] - s.ek[..., None] - sg)
    r['cond'] = cond
    Md = s.g.niv_full
    ivd = gen.iv(beta, Md)
    sd = np.array(s.g.sigma.smom0 - s.g.sigma.smom1 / ivd)
    nc = s.g.niv_core
    sd[Md - nc:Md + nc] = s.siw[M - nc:M + nc]
    gd = 1 / (ivd + s.mu - s.ek[..., None] - sd)
    r['energies'] = [np.mean(np.sum(s.ek[..., None] * r['giwk_dga'], -1)).real / beta, np.mean(np.sum(s.ek[..., None] * gd, -1)).real / beta,
                     np.mean(np.sum((sg - so.smom0) * r['giwk_dga'], -1)).real / beta + so.smom0 * n / 2,
                     np.mean(np.sum((sd - so.smom0) * gd, -1)).real / beta + so.smom0 * n / 2]
    return r

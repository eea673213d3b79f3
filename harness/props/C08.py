"""C08: the self-energy object: input inside the core, moment tail outside, conjugation symmetry everywhere."""
import numpy as np
from dga import two_point as tp
from harness import gen

RULE = ('causal self-energies from random poles (local or k-dependent, full or positive half, 24-200 frequencies, random '
        'beta) queried at random window sizes below, at and above the core; tail moments known analytically. '
        'Non-trivial: the query window crosses the core boundary')
ASSUMPTIONS = ['the input obeys Sigma(-v) = conj(Sigma(v))']


def make(rng, i):
    beta = float(rng.uniform(2, 30))
    niv = int(rng.integers(24, 160)) if i % 5 else int(rng.integers(5, 20))  # also less data than the minimal core
    s = gen.PoleSigma(rng)
    nk = gen.rand_nk(rng, 1, 4)
    local = i % 3 == 0
    if local:
        nk = (1, 1, 1)
    mod = 1 + 0.2 * rng.normal(size=nk)
    if local:
        mod[:] = 1
    mod -= mod.mean() - 1  # k-mean of the dynamical part is the local one
    z = gen.iv(beta, niv)
    dyn = s(z) - s.h
    sig = s.h + mod[..., None] * dyn
    return beta, niv, s, nk, local, sig


def sc_window(ctx, rng, i):
    beta, niv, s, nk, local, sig = make(rng, i)
    pos = bool(rng.integers(0, 2))
    given = bool(rng.integers(0, 2))
    core = int(rng.integers(1, niv + 1)) if rng.uniform() < 0.6 else 'estimate'
    arg = sig[..., niv:] if pos else sig
    if local and rng.integers(0, 2):
        arg = arg[0, 0, 0]
    given0, given1 = s.h, s.mom1
    if given and i % 4 == 1:  # an explicit moment is used as given, also when it vanishes
        given0, given1 = [(0., s.mom1), (s.h, 0.), (0., 0.)][int(rng.integers(0, 3))]
    kw = dict(smom0=given0, smom1=given1) if given else {}
    keep = arg.copy()
    so = tp.SelfEnergy(arg, beta, pos=pos, niv_core=core, **kw)
    nc = int(so.niv_core)
    asks = sorted({1, max(1, nc - 1), nc, nc + 1, int(rng.integers(1, 2 * niv)), niv, niv + 7})
    ctx.describe(beta=round(beta, 2), niv=niv, nk=nk, pos=pos, given=given, core=core, poles=len(s.e))
    ctx.equal(arg, keep, 'alias', 'input modified')
    ctx.true(so.niv == niv and so.nk == nk, 'size', f'{so.niv} {so.nk}')
    ctx.true(core == 'estimate' or nc == core, 'core', 'requested core size')
    m0, m1 = so.smom0, so.smom1
    if given:
        ctx.true(m0 == given0 and m1 == given1, 'moments', 'given moments must be used')
    else:
        nf = max(4, int(0.2 * niv))
        loc = sig.mean(axis=(0, 1, 2))[-nf:]
        v = gen.iv(beta, niv)[-nf:].imag
        eps = 1e-10
        ctx.true(loc.real.min() - eps <= m0 <= loc.real.max() + eps, 'moments', f'static moment {m0} outside the tail values '
                 f'[{loc.real.min()},{loc.real.max()}]')
        t = loc.imag * v
        ctx.true(t.min() - eps <= m1 <= t.max() + eps, 'moments', f'first moment {m1} outside the tail values [{t.min()},{t.max()}]')
    ctx.close(so.sigma_core, sig[..., niv - nc:niv + nc], 'core', 'core of the self-energy', rtol=1e-12)
    for n in asks:
        got = so.get_siw(n)
        ctx.true(got.shape == nk + (2 * n,), 'window', f'shape {got.shape} for niv={n}')
        c = min(n, nc)
        ctx.close(got[..., n - c:n + c], sig[..., niv - c:niv + c], 'window', f'core part, niv={n} core={nc}', rtol=1e-12)
        z = gen.iv(beta, n)
        tail = (m0 - m1 / z) * np.ones(nk)[..., None]
        ctx.close(got[..., n + c:], tail[..., n + c:], 'tail', f'positive tail, niv={n} core={nc}', rtol=1e-11)
        ctx.close(got[..., :n - c], tail[..., :n - c], 'tail', f'negative tail, niv={n} core={nc}', rtol=1e-11)
        ctx.close(got, np.conj(got[..., ::-1]), 'conj', 'Sigma(-v)=conj Sigma(v)', rtol=1e-13)
        sh = so.get_siw(n, pi_shift=True)
        ref = np.empty_like(got)
        for k in np.ndindex(*nk):
            ref[(k[0] + nk[0] // 2) % nk[0], (k[1] + nk[1] // 2) % nk[1], k[2]] = got[k]
        ctx.equal(sh, ref, 'pi_shift', 'momentum origin moved to the zone centre')
        ctx.saw('frequencies', 2 * n)
    ctx.equal(so.get_siw().shape[-1], 2 * niv, 'window', 'default window is the data window')
    na = int(rng.integers(1, 30))
    z = gen.iv(beta, na, shift=nc, pos=True)
    tail = (m0 - m1 / z) * np.ones(nk)[..., None]
    ctx.close(so.get_asympt(na), tail, 'asympt', 'tail following the core', rtol=1e-11)
    full = so.get_asympt(na, pos=False)
    ctx.close(full[..., na:], tail, 'asympt', 'tail following the core', rtol=1e-11)
    ctx.close(full[..., :na], np.conj(tail[..., ::-1]), 'asympt', 'negative tail', rtol=1e-11)
    nm = int(rng.integers(0, 30))
    z = gen.iv(beta, na, shift=nm, pos=True)
    ctx.close(so.get_asympt(na, n_min=nm), (m0 - m1 / z) * np.ones(nk)[..., None], 'asympt', 'tail from n_min', rtol=1e-11)
    ctx.close(so.k_mean(), sig.mean(axis=(0, 1, 2))[niv:], 'k_mean', rtol=1e-11)


def sc_core(ctx, rng, i):
    """the core ends where the moment tail is accurate, and never before"""
    beta = float(rng.uniform(2, 20))
    niv = int(rng.integers(24, 400))
    s = gen.PoleSigma(rng, npole=1, strength=float(rng.uniform(0.05, 6)))
    if i % 4 == 0:
        niv = int(rng.integers(24, 40))
    err = float(10. ** rng.uniform(-6, -2))
    if i % 3 == 1:  # particle-hole symmetric: only the imaginary part decides
        s.e, s.a = np.abs(s.e[0]) * np.array([1., -1.]) + 0., s.a[0] / 2 * np.ones(2)
    z = gen.iv(beta, niv)
    sig = s(z)
    so = tp.SelfEnergy(sig, beta, smom0=s.h, smom1=s.mom1, err=err)
    zp = z[niv:]
    dev = s(zp) - (s.h - s.mom1 / zp)
    bad = (np.abs(dev.real) >= err) | (np.abs(dev.imag) >= err)
    ctx.describe(beta=round(beta, 2), niv=niv, err=err, crossing=int(bad.sum()), nontrivial=bad.any())
    nc = int(so.niv_core)
    ctx.true(min(20, niv) <= nc <= niv, 'core', f'core size {nc} outside [20,{niv}]')
    ctx.true(not bad[nc:].any(), 'core', f'the tail replaces frequencies from n={nc} of {niv}, but deviates by more than {err:.1e} '
             f'up to n={int(np.max(np.nonzero(bad)[0])) if bad.any() else -1}')
    first_ok = int(np.max(np.nonzero(bad)[0])) + 1 if bad.any() else 0
    ctx.true(nc <= max(20, first_ok), 'core', f'core {nc} larger than needed ({first_ok})')
    ctx.saw('core_estimates')


def sc_never(ctx, rng, i):
    """one of the two parts never comes close to its tail: nothing may be replaced"""
    beta, niv = float(rng.uniform(2, 20)), int(rng.integers(24, 200))
    h, m1 = float(rng.normal()), -float(rng.uniform(.1, 3))
    err = float(10. ** rng.uniform(-6, -3))
    zp = gen.iv(beta, niv)[niv:]
    off = float(rng.uniform(10, 100)) * err * (1 if rng.integers(0, 2) else -1)
    pos = h - m1 / zp + (1j * off if i % 2 else off)
    sig = np.concatenate((np.conj(pos[::-1]), pos))
    ctx.describe(beta=round(beta, 2), niv=niv, err=err, part='imag' if i % 2 else 'real')
    so = tp.SelfEnergy(sig, beta, smom0=h, smom1=m1, err=err)
    ctx.true(int(so.niv_core) == niv, 'core', f'core {so.niv_core} of {niv}, although the tail is never reached')
    ctx.close(so.get_siw(niv), np.broadcast_to(sig, (1, 1, 1, 2 * niv)), 'core', 'data replaced by a tail it never reaches', rtol=1e-12)
    ctx.saw('core_estimates')


def sc_dga_tail(ctx, rng, i):
    beta, niv, s, nk, local, _ = make(rng, (0, 3, 6, 9)[i % 4])
    nkd = gen.rand_nk(rng, 1, 4)
    nc = int(rng.integers(4, 40))
    shell = int(rng.integers(1, 60))
    z = gen.iv(beta, niv)
    dm = tp.SelfEnergy(s(z), beta, smom0=s.h, smom1=s.mom1)
    dga = gen.crandn(rng, *nkd, nc)
    dga = np.concatenate((np.conj(dga[..., ::-1]), dga), axis=-1)
    ctx.describe(beta=round(beta, 2), niv=niv, dmft_core=int(dm.niv_core), nk=nkd, nc=nc, shell=shell)
    so = tp.create_dga_siwk_with_dmft_as_asympt(dga.copy(), dm, shell)
    n = nc + shell
    got = so.get_siw(n)
    ctx.close(got[..., shell:shell + 2 * nc], dga, 'dga-core', 'ladder self-energy inside the core', rtol=1e-12)
    ref = dm.get_siw(n)[0, 0, 0]
    ones = np.ones(nkd)[..., None]
    ctx.close(got[..., :shell], ones * ref[:shell], 'dga-shell', 'DMFT self-energy below the core', rtol=1e-12)
    ctx.close(got[..., shell + 2 * nc:], ones * ref[-shell:], 'dga-shell', 'DMFT self-energy above the core', rtol=1e-12)
    big = so.get_siw(n + 11)
    zz = gen.iv(beta, n + 11)
    ctx.close(big[..., -11:], ones * (s.h - s.mom1 / zz)[-11:], 'dga-tail', 'DMFT moments beyond', rtol=1e-11)
    ctx.true(abs(so.beta - beta) < 1e-12, 'beta')
    ctx.saw('frequencies', 2 * n)


def sc_moments(ctx, rng, i):
    u, n = float(rng.uniform(0, 10)), float(rng.uniform(0, 2))
    ctx.describe(u=u, n=n)
    ctx.close(tp.get_smom0(u, n), u * n / 2, 'hartree', rtol=1e-12)
    ctx.close(tp.get_smom1(u, n), -u ** 2 * (n / 2) * (1 - n / 2), 'smom1', rtol=1e-12)
    ctx.close(tp.get_sum_chiupup(n), (n / 2) - (n / 2) ** 2, 'chiupup', rtol=1e-12)
    # exact atomic-limit self-energy has these moments
    beta, niv = float(rng.uniform(1, 20)), 4000
    z = gen.iv(beta, niv)
    mu = float(rng.normal())
    g = (1 - n / 2) / (z + mu) + (n / 2) / (z + mu - u)
    sig = z + mu - 1 / g
    so = tp.SelfEnergy(sig, beta)
    ctx.close(so.smom0, tp.get_smom0(u, n), 'fit', 'Hartree moment', atol=2e-3 * (1 + u ** 3), rtol=0)
    ctx.close(so.smom1, tp.get_smom1(u, n), 'fit', 'first moment', atol=2e-3 * (1 + u ** 4), rtol=0)
    c = tp.sigma_const(beta, 0.3, (2, 1, 1), np.arange(100))
    w = c.get_siw(20)
    ctx.close(w[..., 20:], -0.3j * np.ones((2, 1, 1, 20)), 'const', 'constant scattering rate')
    ctx.close(w[..., :20], 0.3j * np.ones((2, 1, 1, 20)), 'const', 'constant scattering rate')
    ctx.raises(lambda: tp.SelfEnergy(np.zeros((3, 40), dtype=complex), beta), 'rank', 'two-dimensional self-energy', ValueError)
    ctx.saw('moments', 4)


SCENARIOS = [('window', sc_window, 900, 1500), ('core', sc_core, 900, 1500), ('never', sc_never, 300, 300), ('dga_tail', sc_dga_tail, 450, 600),
             ('moments', sc_moments, 300, 300)]

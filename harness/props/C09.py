"""C09: Green's function: Dyson equation, filling <-> chemical potential, energies, spectral functions."""
import numpy as np
from dga import brillouin_zone as bz
from dga import two_point as tp
from harness import gen

RULE = ('random lattices (t-t\'-t\'\' dispersions, 1-4 points per direction) x random causal pole self-energies x random beta; '
        'exact occupation from diagonalising the equivalent impurity problem (self-energy poles as extra levels). '
        'Non-trivial: self-energy with non-zero dynamical part')
ASSUMPTIONS = ['the filling is compared with the exact value within the truncation error of the frequency window used']


def lattice(rng):
    nk = gen.rand_nk(rng, 1, 5)
    return nk, gen.square_ek(nk, 1.0, float(rng.uniform(-.4, .4)), float(rng.uniform(-.2, .2)), tx=float(rng.uniform(0.2, 1.5)))


def setup(rng, kdep=True, niv=None):
    nk, ek = lattice(rng)
    beta = float(rng.uniform(1, 15))
    s = gen.PoleSigma(rng)
    niv = int(rng.integers(24, 120)) if niv is None else niv
    z = gen.iv(beta, niv)
    sig = s(z)[None, None, None, :]
    if kdep:
        mod = 1 + 0.2 * rng.normal(size=nk)
        sig = s.h + mod[..., None] * (sig - s.h)
    return nk, ek, beta, s, niv, sig


def sc_dyson(ctx, rng, i):
    nk, ek, beta, s, niv, sig = setup(rng, kdep=bool(i % 2))
    mu = float(rng.normal() + s.h)
    core = int(rng.integers(4, niv + 1)) if i % 3 else 'estimate'
    na = int(rng.integers(1, 60))
    so = tp.SelfEnergy(sig, beta, smom0=s.h, smom1=s.mom1, niv_core=core)
    nc = int(so.niv_core)
    ctx.describe(nk=nk, beta=round(beta, 2), niv=niv, core=nc, asympt=na, kdep=bool(i % 2))
    g = tp.GreensFunction(so, ek, mu=mu, niv_asympt=na)
    n = nc + na
    z = gen.iv(beta, n)
    sf = np.ones(nk)[..., None] * so.get_siw(n)
    ref = 1 / (z + mu - ek[..., None] - sf)
    full = g.g_full()
    ctx.true(full.shape == nk + (2 * n,), 'dyson', f'shape {full.shape}')
    ctx.close(full, ref, 'dyson', '1/(iv+mu-e_k-Sigma)', rtol=1e-11)
    ctx.close(g.full, ref, 'dyson', 'stored full range', rtol=1e-11)
    ctx.close(g.core, ref[..., na:na + 2 * nc], 'dyson', 'core', rtol=1e-11)
    ctx.close(full, np.conj(full[..., ::-1]), 'conj', 'G(-v)=conj G(v)', rtol=1e-12)
    ctx.close(g.g_loc, ref.mean(axis=(0, 1, 2)), 'gloc', 'local part', rtol=1e-11)
    ctx.close(g.k_mean('core'), ref[..., na:na + 2 * nc].mean(axis=(0, 1, 2)), 'gloc', 'core mean', rtol=1e-11)
    ctx.close(g.k_mean('full'), ref.mean(axis=(0, 1, 2)), 'gloc', 'full mean', rtol=1e-11)
    ctx.close(g.v, z.imag, 'grid', rtol=1e-12)
    ctx.close(g.v_core, gen.iv(beta, nc).imag, 'grid', rtol=1e-12)
    ctx.equal(g.vn, np.arange(-n, n), 'grid')
    ctx.true(g.niv_full == n and g.niv_core == nc and g.mu == mu, 'sizes')
    sh = np.empty_like(ref)
    for k in np.ndindex(*nk):
        sh[(k[0] + nk[0] // 2) % nk[0], (k[1] + nk[1] // 2) % nk[1], k[2]] = ref[k]
    ctx.close(g.g_full(pi_shift=True), sh, 'pi_shift', rtol=1e-11)
    ctx.close(g.fs(), -ref[..., n].imag / np.pi, 'fs', 'spectral weight at the first positive frequency', rtol=1e-11)
    ctx.close(g.fs(pi_shift=True), -sh[..., n].imag / np.pi, 'fs', 'shifted', rtol=1e-11)
    na2 = na + 5
    sfa = np.ones(nk)[..., None] * so.get_siw(nc + na2)
    ctx.close(np.ones(nk)[..., None] * g.get_sigma_full(na2), sfa, 'sigma_full', rtol=1e-11)
    # energies by explicit summation
    ekin = (ek[..., None] * ref).mean(axis=(0, 1, 2)).sum() / beta
    ctx.close(g.e_kin, ekin.real, 'e_kin', rtol=1e-8, atol=1e-9)
    epot = ((sf - s.h) * ref).mean(axis=(0, 1, 2)).sum() / beta + s.h * g.n / 2
    ctx.close(g.e_pot, epot.real, 'e_pot', rtol=1e-8, atol=1e-9)
    # growing the window
    g.set_g_asympt(na2)
    z2 = gen.iv(beta, nc + na2)
    ref2 = 1 / (z2 + mu - ek[..., None] - sfa)
    ctx.close(g.g_full(), ref2, 'dyson', 'after enlarging the tail', rtol=1e-11)
    ctx.close(g.g_loc, ref2.mean(axis=(0, 1, 2)), 'gloc', 'after enlarging the tail', rtol=1e-11)
    ctx.true(g.niv_full == nc + na2, 'sizes')
    ctx.close(tp.get_gloc(iv=z, hk=ek, siwk=sf, mu_trial=mu), ref.mean(axis=(0, 1, 2)), 'gloc', rtol=1e-11)
    ctx.close(tp.build_g(z, ek, mu, sf), ref, 'dyson', rtol=1e-11)
    ctx.raises(lambda: tp.GreensFunction(so, ek), 'nomu', 'neither mu nor n given', ValueError)
    ctx.saw('frequencies', 2 * n)


def sc_fill(ctx, rng, i):
    nk, ek, beta, s, niv, sig = setup(rng, kdep=False, niv=600)
    mu = float(rng.uniform(-4, 4) + s.h)
    if i % 5 == 0:
        mu = s.h - float(rng.uniform(20, 40)) / 1.  # almost empty band: exercises the large-argument branch
    so = tp.SelfEnergy(sig, beta, smom0=s.h, smom1=s.mom1, niv_core=500)
    exact = 2 * s.occ(ek, mu, beta).mean()
    ctx.describe(nk=nk, beta=round(beta, 2), mu=round(mu, 3), n=round(float(exact), 4))
    g = tp.GreensFunction(so, ek, mu=mu, niv_shell_mu_find=500, niv_asympt=10)
    # real part of G - G_model decays like c/v^4
    vmax = np.pi / beta * 2000
    c = (np.abs(ek).max() + abs(mu - s.h) + 3) ** 2 * (np.abs(ek).max() ** 2 + s.a.sum() + 1)
    tol = 1e-9 + c / vmax ** 3
    ctx.close(g.n, exact, 'filling', 'electrons per site vs exact diagonalisation', rtol=0, atol=tol)
    n_el, rho = tp.get_fill(iv=gen.iv(beta, 1000), hk=ek, siwk=so.get_siw(1000), beta=beta, smom0=s.h, hloc=np.mean(ek), mu=mu)
    ctx.close(n_el, exact, 'filling', 'get_fill', rtol=0, atol=tol)
    ctx.close(2 * rho, n_el, 'filling', 'density matrix', rtol=1e-12)
    prim = tp.get_fill_primitive(g.g_loc, beta)
    ctx.close(prim, (np.sum(g.g_loc) / beta + .5) * 2, 'primitive', rtol=1e-10)
    # inversion: mu found for this filling gives the filling back and is the unique solution
    if 0.05 < exact < 1.95:
        g2 = tp.GreensFunction(so, ek, n=float(exact), niv_shell_mu_find=500, niv_asympt=10)
        back = 2 * s.occ(ek, g2.mu, beta).mean()
        ctx.close(back, exact, 'mu', f'filling at the chemical potential found ({g2.mu} vs {mu})', rtol=0, atol=2e-5 + 3 * tol)
        ctx.true(g2.n == float(exact), 'mu', 'requested filling is reported')
        ctx.true(np.isrealobj(np.asarray(g2.mu)), 'mu', 'real chemical potential')
        z = gen.iv(beta, 510)
        ctx.close(g2.g_full(), 1 / (z + g2.mu - ek[..., None] - so.get_siw(510)), 'dyson', 'with the mu found', rtol=1e-11)
        ctx.saw('mu_searches')
    # monotonic in mu
    g3 = tp.GreensFunction(so, ek, mu=mu + 0.5, niv_shell_mu_find=500, niv_asympt=10)
    ctx.true(g3.n > g.n - 2 * tol, 'monotonic', f'n(mu+0.5)={g3.n} < n(mu)={g.n}')
    ctx.saw('fillings')


def sc_window(ctx, rng, i):
    """the default frequency window of the mu search (core + requested shell), by explicit summation"""
    nk, ek, beta, s, niv, sig = setup(rng, kdep=bool(i % 2))
    mu = float(rng.normal() + s.h)
    shell = int(rng.integers(0, 80))
    so = tp.SelfEnergy(sig, beta, smom0=s.h, smom1=s.mom1, niv_core=int(rng.integers(4, niv + 1)))
    nn = so.niv_core + shell
    ctx.describe(nk=nk, beta=round(beta, 2), core=so.niv_core, shell=shell, mu=round(mu, 3))
    g = tp.GreensFunction(so, ek, mu=mu, niv_shell_mu_find=shell, niv_asympt=5)
    z = gen.iv(beta, nn)
    gl = (1 / (z + mu - ek[..., None] - so.get_siw(nn))).mean(axis=(0, 1, 2))
    x = s.h + ek.mean() - mu
    ref = 2 * (0.5 * (1 - np.tanh(beta * x / 2)) + (gl - 1 / (z - x)).real.sum() / beta)
    ctx.close(g.n, ref, 'filling', 'model-corrected sum', rtol=1e-6, atol=1e-8)
    ctx.saw('fillings')


def sc_real(ctx, rng, i):
    nk, ek = lattice(rng)
    ek = ek * 0.5
    nw = 1201
    w = np.linspace(-15, 15, nw)
    gam = float(rng.uniform(0.15, 0.5))
    e0, a0 = float(rng.normal() * .5), float(rng.uniform(0., 0.6))
    local = i % 2 == 0
    s = a0 / (w - e0 + 1j * gam)
    swk = np.ones((1, 1, 1) if local else nk)[..., None] * s
    delt = float(rng.uniform(0.08, 0.2))
    mu = float(rng.normal() * .5)
    ctx.describe(nk=nk, gam=round(gam, 3), e0=round(e0, 3), a0=round(a0, 3), delt=round(delt, 3), mu=round(mu, 3))
    g = tp.RealFrequencyGF(w, swk, ek, mu=mu, deltino=delt)
    ref = 1 / (w + mu - ek[..., None] - s + 1j * delt)
    ctx.close(g.gwk(), ref, 'dyson-real', 'retarded Green\'s function', rtol=1e-10)
    ctx.close(g.awk(), -ref.imag / np.pi, 'spectral', rtol=1e-10)
    ctx.true(np.all(g.awk() > 0), 'positive', 'spectral function of a causal self-energy')
    ctx.close(g.gw, ref.mean(axis=(0, 1, 2)), 'gloc-real', rtol=1e-10)
    ctx.close(g.aw, -ref.mean(axis=(0, 1, 2)).imag / np.pi, 'gloc-real', rtol=1e-10)
    iw0 = int(np.argmin(np.abs(w)))
    ctx.close(g.fs(), -ref[..., iw0].imag / np.pi, 'fs-real', rtol=1e-10)
    sh = np.empty_like(ref)
    for k in np.ndindex(*nk):
        sh[(k[0] + nk[0] // 2) % nk[0], (k[1] + nk[1] // 2) % nk[1], k[2]] = ref[k]
    ctx.close(g.gwk(pi_shift=True), sh, 'pi_shift', rtol=1e-10)
    ctx.close(g.fs(pi_shift=True), -sh[..., iw0].imag / np.pi, 'fs-real', rtol=1e-10)
    a = -ref.mean(axis=(0, 1, 2)).imag / np.pi
    m = w <= 0
    n = 2 * np.sum((a[m][1:] + a[m][:-1]) / 2 * np.diff(w[m]))
    ctx.close(g.n, n, 'filling-real', 'occupied spectral weight', rtol=1e-9)
    def fill_at(m_, sw):
        a_ = -(1 / (w + m_ - ek[..., None] - sw)).mean(axis=(0, 1, 2)).imag / np.pi
        return 2 * np.sum((a_[m][1:] + a_[m][:-1]) / 2 * np.diff(w[m]))

    g2 = tp.RealFrequencyGF(w, swk, ek, n=float(n), deltino=delt)
    grid = np.linspace(-1.5, 1.5, 61)
    comp = np.diff([fill_at(x, s - 1j * delt) for x in grid]) / 0.05
    if comp.min() > 0.05:  # otherwise (gap) the chemical potential is not determined by the filling
        ctx.close(fill_at(np.ravel(g2.mu)[0], s - 1j * delt), n, 'mu-real', 'filling at the chemical potential found', rtol=0, atol=2e-3)
        ctx.saw('mu_searches')
    ctx.close(g2.gwk(), 1 / (w + np.ravel(g2.mu)[0] - ek[..., None] - s + 1j * delt), 'dyson-real', 'with the mu found', rtol=1e-10)
    d2 = float(rng.uniform(0.08, 0.25))
    tb = g.get_gwk_tb(deltino=d2)
    tbm = np.ravel(tb.mu)[0]
    r = 1 / (w + tbm - ek[..., None] + 1j * d2)
    ctx.close(tb.gwk(), r, 'tb', 'non-interacting spectral function', rtol=1e-10)
    at = -r.mean(axis=(0, 1, 2)).imag / np.pi
    del at
    if np.diff([fill_at(x, -1j * d2) for x in grid]).min() / 0.05 > 0.05:
        ctx.close(fill_at(tbm, -1j * d2), n, 'tb', 'same filling', rtol=0, atol=2e-3)
    ctx.raises(lambda: tp.RealFrequencyGF(w, swk, ek), 'nomu', 'neither mu nor n', ValueError)
    ctx.saw('real_spectra')
    if min(sorted(nk)[1:]) > 1:
        fermi_surface(ctx, rng, g, w, ref, sh, nk)


def fermi_surface(ctx, rng, g, w, ref, sh, nk):
    """zeros of the real part on a plane of the zone: at every sign change and nowhere else"""
    grid = bz.KGrid(nk, ())
    dim = int(rng.choice([d for d in range(3) if min(np.delete(nk, d)) > 1]))
    kind = int(rng.integers(0, nk[dim]))
    for pi in (False, True):
        mat = np.moveaxis(sh if pi else ref, dim, 0)[kind]
        wval = float(rng.uniform(-2, 2))
        data = mat[..., int(np.argmin(np.abs(w - wval)))].real
        up = data > 0
        if up.all() or not up.any():
            continue
        ax1, ax0 = g.get_fs_surface_slice_indices(grid, k_slice_dim=dim, k_slice_val=kind * 2 * np.pi / nk[dim], w_val=wval, pi_shift=pi)
        pts = list(zip(np.asarray(ax0).tolist(), np.asarray(ax1).tolist()))
        for a, b in pts:
            near = up[max(0, a - 1):a + 2, max(0, b - 1):b + 2]
            ctx.true(near.any() and not near.all(), 'surface', f'({a},{b}) of {data.shape} is not next to a sign change (w={wval:.3f})')
        for a, b in np.argwhere(up[1:] != up[:-1]):
            ctx.true(any(abs(q - b) <= 1 and a - 1 <= p <= a + 2 for p, q in pts), 'surface', f'sign change at ({a}-{a + 1},{b}) missing')
        for a, b in np.argwhere(up[:, 1:] != up[:, :-1]):
            ctx.true(any(abs(p - a) <= 1 and b - 1 <= q <= b + 2 for p, q in pts), 'surface', f'sign change at ({a},{b}-{b + 1}) missing')
        ctx.saw('surface_points', len(pts))


def sc_primitive(ctx, rng, i):
    """the plain frequency sum: its filling and the search for its chemical potential agree with each other"""
    nk, ek, beta, s, niv, sig = setup(rng)
    sig = np.broadcast_to(sig, nk + (2 * niv,)) + 0j
    z = gen.iv(beta, niv)
    mu = float(s.h + rng.uniform(-1, 1))
    def fill(m):
        return 1 + 2 / beta * np.sum(np.mean(1 / (z + m - ek[..., None] - sig), axis=(0, 1, 2))).real
    n = fill(mu)
    ctx.describe(nk=nk, beta=round(beta, 3), niv=niv, mu=round(mu, 3), n=round(float(n), 4))
    gloc = tp.get_gloc(iv=z, hk=ek, siwk=sig, mu_trial=mu)
    ctx.close(tp.get_fill_primitive(gloc, beta), n, 'primitive', 'frequency sum of the filling', atol=1e-10)
    # near the solution the filling is monotonic: start there, at a distance the secant method copes with
    start = mu + float(rng.uniform(-.05, .05)) / beta
    got = tp.update_mu_primitive(mu0=start, target_filling=n, iv=z, hk=ek, siwk=sig, beta=beta, smom0=s.h, tol=1e-10, verbose=bool(i % 2))
    ctx.true(np.isrealobj(np.asarray(got)), 'primitive-real', f'{got}')
    if abs(fill(mu + 1e-4) - fill(mu - 1e-4)) > 2e-6:
        ctx.true(abs(fill(got) - n) < 1e-6, 'primitive-mu', f'mu {got} has the filling {fill(got)} instead of {n} (true mu {mu})')
        ctx.saw('primitive_mu')


SCENARIOS = [('primitive', sc_primitive, 30, 300), ('dyson', sc_dyson, 150, 1200), ('fill', sc_fill, 150, 800), ('window', sc_window, 150, 800), ("real", sc_real, 45, 300)]

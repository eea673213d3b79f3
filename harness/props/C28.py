"""C28: low-energy and long-wavelength fits."""
import os
import shutil
import tempfile
from unittest.mock import MagicMock
import numpy as np
from dga import analytic_continuation as ac
from dga import brillouin_zone as bz
from dga import dga_io
from dga import ornstein_zernicke_function as oz
from dga import plotting
from dga import two_point as tp
from harness import gen

RULE = ('polynomials of random order and noisy data fitted at random numbers of frequencies, causal self-energies with pole structure, momentum-dependent '
        'self-energies on symmetric and unsymmetric grids written to and read from the fit files; Ornstein-Zernicke susceptibilities exact, with noise, with '
        'another peak position and hopeless ones. Oracle: closed form for exact data, own QR least squares and scan of the residual otherwise. Non-trivial: more than one fit point')


def lsq0(x, y, order, deriv=0):
    """value (slope) at x=0 of the least-squares polynomial; own orthonormal basis"""
    s = np.max(np.abs(x))
    v = np.vander(x / s, order + 1, increasing=True)
    q, r = np.linalg.qr(v)
    c = np.linalg.solve(r, q.T @ y)
    return c[0] if deriv == 0 else c[1] / s


def sc_poly(ctx, rng, i):
    """extrapolation to zero frequency"""
    beta = float(rng.uniform(2, 60))
    n = int(rng.integers(3, 40))
    order = int(rng.integers(1, 7 if i % 3 == 0 else 5))
    n_fit = int(rng.integers(order + 1, order + 8))
    x = np.pi / beta * (2 * np.arange(max(n, n_fit)) + 1)
    exact = i % 2 == 0
    ctx.describe(beta=round(beta, 4), n=n, order=order, n_fit=n_fit, exact=exact)
    c = rng.normal(size=order + 1)
    if i % 4 < 2 or order > 4:  # every power of the same size at the end of the fit range
        c = c / x[n_fit - 1] ** np.arange(order, -1, -1)
    y = np.polyval(c, x)
    if not exact:
        y = y + rng.normal(size=len(x)) * .1
    sc = np.max(np.abs(y[:n_fit])) + np.max(np.abs(c))
    want, slope = (c[-1], c[-2]) if exact else (lsq0(x[:n_fit], y[:n_fit], order), lsq0(x[:n_fit], y[:n_fit], order, 1))
    cond = np.linalg.cond(np.vander(x[:n_fit] / x[n_fit - 1], order + 1))
    rt = max(1e-9, 1e-13 * cond ** 2)
    ctx.close(ac.poly_extrap_0(x, y, order, n_fit), want, 'extrapolation', f'order {order} from {n_fit} points', rtol=rt, scale=sc)
    ctx.close(ac.poly_der_extrap_0(x, y, order, n_fit), slope, 'slope', f'order {order} from {n_fit} points', rtol=rt, scale=sc / x[0])
    z = y.copy()
    z[n_fit:] = 1e3 * rng.normal(size=len(x) - n_fit)
    ctx.equal(ac.poly_extrap_0(x, z, order, n_fit), ac.poly_extrap_0(x, y, order, n_fit), 'fit-range', 'frequencies beyond the fit range matter')
    # coefficients of a self-energy a - i g - i (1/Z - 1) v + higher orders
    gam, a, zq = float(rng.uniform(0, 2)), float(rng.normal()), float(rng.uniform(.05, 1))
    kind = ['fermi-liquid', 'scattering', 'noise', 'non-causal'][i % 4]
    if kind == 'fermi-liquid':
        gam = 0.
    s = (1 - 1 / zq) * x - gam
    if kind == 'noise':
        s = s + rng.normal(size=len(x)) * .02
    if kind == 'non-causal':
        s = s + 3 * x
    siw = a + rng.normal() * .3 * x ** min(order, 2) + 1j * s
    keep = siw.copy()
    g, b, q = ac.get_gamma_bandshift_z(x, siw, order, n_fit)
    ctx.equal(siw, keep, 'alias', 'input modified')
    sc = np.max(np.abs(siw[:n_fit]))
    ctx.close(g, -lsq0(x[:n_fit], s[:n_fit], order), 'gamma', kind, rtol=rt, scale=sc)
    ctx.close(b, lsq0(x[:n_fit], siw.real[:n_fit], order), 'bandshift', kind, rtol=rt, scale=sc)
    if kind != 'noise':
        ctx.close(g, gam, 'gamma', f'{kind}: scattering rate', rtol=10 * rt, scale=sc)
    if order >= 2:
        ctx.close(b, a, 'bandshift', f'{kind}: real part at the Fermi level', rtol=10 * rt, scale=sc)
    den = 1 - lsq0(x[:n_fit], (s / x)[:n_fit], order)
    raw = 1 / den
    ref = min(max(raw, 0.), 1.) or 1.
    if abs(den) > 1e-3:
        ctx.close(q, ref, 'Z', f'{kind}: raw value {raw:.4f}', rtol=1e-6 + 100 * rt, scale=1 + abs(raw) ** 2 * np.max(np.abs(s / x)))
    if kind == 'fermi-liquid':
        ctx.close(q, zq, 'Z', 'quasi-particle weight of a Fermi liquid', rtol=1e-6)
    ctx.true(0 < q <= 1, 'Z-range', f'{q}')
    if raw <= 0:
        ctx.saw('non_causal')
    b2, g2, q2 = ac.extract_coefficient_imaxis(siwk=siw, iw=x, n_fit=n_fit, order=order)
    ctx.equal(np.array([g2, b2, q2]), np.array([g, b, q]), 'order', 'bandshift, scattering rate and Z are mixed up')
    # list of momenta: the coefficients of each
    many = np.array([siw * float(rng.uniform(.5, 2)) + float(rng.normal()) for _ in range(int(rng.integers(1, 6)))])
    ind = rng.integers(0, len(many), size=int(rng.integers(1, 8)))
    r, m, zz = ac.extract_coeff_on_ind(siwk=many, indizes=ind, v=x, n_fit=n_fit, order=order)
    each = np.array([ac.get_gamma_bandshift_z(x, many[j], order, n_fit) for j in ind])
    ctx.equal(np.array([m, r, zz]).T, each, 'list', 'coefficients belong to the momentum they are asked for')
    ctx.saw('fits', 3 + len(ind))


def k_grid(rng, i):
    """grid and a function with its symmetry"""
    kind = ['none', 'nematic', 'square'][i % 3]
    nk = [int(x) for x in rng.integers(2, 6, size=2)] + [int(rng.integers(1, 3))]
    if kind == 'square':
        nk[1] = nk[0]
    sym = {'none': [], 'nematic': bz.two_dimensional_nematic_symmetries(), 'square': bz.two_dimensional_square_symmetries()}[kind]
    k = [2 * np.pi * np.arange(n) / n for n in nk]
    c = [np.cos(x) + (.3 * np.sin(x) if kind == 'none' else 0) for x in k]
    f = c[0][:, None, None] + (1 if kind == 'square' else .6) * c[1][None, :, None] + .2 * np.cos(k[2])[None, None, :]
    if kind == 'square':
        f = f + .5 * c[0][:, None, None] * c[1][None, :, None]
    return kind, bz.KGrid(tuple(nk), symmetries=sym), tuple(nk), f


def sc_files(ctx, rng, i):
    """the fit files hold the coefficients of their own momentum"""
    kind, kg, nk, f = k_grid(rng, i)
    beta = float(rng.uniform(3, 30))
    niv = int(rng.integers(6, 20))
    order = int(rng.integers(1, 4))
    n_fit = int(rng.integers(order + 1, 9))
    v = np.pi / beta * (2 * np.arange(-niv, niv) + 1)
    ctx.describe(nontrivial=np.prod(nk) > 1, nk=nk, sym=kind, beta=round(beta, 4), niv=niv, order=order, n_fit=n_fit)
    u = float(rng.uniform(.5, 2))
    e = float(rng.uniform(.1, .8))
    sig = .3 * f[..., None] + u ** 2 / 4 / (1j * v - e * f[..., None]) + .2 / (1j * v + 1.5)
    d = tempfile.mkdtemp(prefix='verif_c28_') + '/'
    old = {x: getattr(plotting, x) for x in dir(plotting) if x.startswith('plot_')}
    shown = []
    try:
        for x in old:
            setattr(plotting, x, lambda *a, **k: None)
        plotting.plot_siwk_extrap = lambda **k: shown.append(k)
        dga_io.poly_fit(sig, beta, kg, n_fit, order, name='X', output_path=d)
        got = np.load(d + 'X.npy', allow_pickle=True).item()
        x = v[niv:niv + n_fit]
        y = sig[..., niv:niv + n_fit].reshape(-1, len(x)).T
        ref = {'re_fs': lsq0(x, y.real, order), 'im_fs': -lsq0(x, y.imag, order)}
        sc = np.max(np.abs(y))
        for key in ref:
            ctx.close(got[key], ref[key].reshape(nk), 'file', f'{key} on the full zone', rtol=1e-7, scale=sc)
        den = 1 - lsq0(x, (y.imag.T / x).T, order).reshape(nk)
        ok = np.abs(den) > 1e-2
        z = np.clip(1 / den, 0, 1)
        z[z == 0] = 1
        ctx.close(np.where(ok, got['Z'], 0), np.where(ok, z, 0), 'file', 'Z on the full zone', rtol=1e-5)
        ctx.true(len(shown) == 1 and np.array_equal(shown[0]['siwk_re_fs'], got['re_fs']) and np.array_equal(shown[0]['siwk_im_fs'], got['im_fs'])
                 and np.array_equal(shown[0]['siwk_z'], got['Z']), 'figure', 'the figure shows what is in the file')
        # the local self-energy of the DMFT calculation; only rank 0 and only on request
        more = niv + int(rng.integers(0, 8))  # on as many frequencies as the impurity solver gave
        vl = np.pi / beta * (2 * np.arange(-more, more) + 1)
        loc = .3 * f[0, 0, 0] + u ** 2 / 4 / (1j * vl - e * f[0, 0, 0]) + .2 / (1j * vl + 1.5)
        giwk = 1 / (1j * v - f[..., None] - sig)
        cfg = MagicMock(comm=MagicMock(rank=0), do_poly_fitting=True, sys=MagicMock(beta=beta, siw=loc), lattice=MagicMock(k_grid=kg),
                        n_fit=n_fit, o_fit=order, poly_fit_dir=d, box=MagicMock(niv_full=niv))
        giwk_obj = MagicMock(g_full=lambda pi_shift=False: giwk)
        for rank, do in ((0, False), (1, True), (0, True)):
            before = sorted(os.listdir(d))
            cfg.comm.rank, cfg.do_poly_fitting = rank, do
            dga_io.dmft_poly_fit(giwk_obj, cfg)
            dga_io.dga_poly_fit(cfg, tp.SelfEnergy(sig, beta), giwk_obj)
            if not do or rank:
                ctx.equal(np.array(sorted(os.listdir(d))), np.array(before), 'request', f'files written by rank {rank} with polynomial fits {"on" if do else "off"}')
        t = np.loadtxt(d + 'Siw_DMFT_polyfit.txt')
        y0 = loc[more:more + n_fit]
        w = [lsq0(vl[more:more + n_fit], y0.real, order), -lsq0(vl[more:more + n_fit], y0.imag, order)]
        ctx.close(t[:2], np.array(w), 'dmft', 'bandshift and scattering rate of the DMFT self-energy', rtol=1e-6, atol=2e-6, scale=np.max(np.abs(y0)))
        den = 1 - lsq0(vl[more:more + n_fit], y0.imag / vl[more:more + n_fit], order)
        ctx.true(abs(den) < 1e-2 or abs(t[2] - (min(max(1 / den, 0), 1) or 1)) < 1e-5, 'dmft', f'Z of the DMFT self-energy {t[2]}, expected {1 / den} in (0, 1]')
        for name, mat in (('Giwk_dmft_poly_cont_', giwk), ('Giwk_dga_poly_cont_', giwk), ('Siwk_poly_cont_', sig)):
            g = np.load(d + name + '.npy', allow_pickle=True).item()
            y = mat[..., niv:niv + n_fit].reshape(-1, len(x)).T
            ctx.close(g['re_fs'], lsq0(x, y.real, order).reshape(nk), 'file', name + ' real part', rtol=1e-7, scale=np.max(np.abs(y)))
            ctx.close(g['im_fs'], -lsq0(x, y.imag, order).reshape(nk), 'file', name + ' imaginary part', rtol=1e-7, scale=np.max(np.abs(y)))
        ctx.saw('momenta', int(np.prod(nk)))
    finally:
        for x in old:
            setattr(plotting, x, old[x])
        shutil.rmtree(d)


def oz_model(nk, a, xi, q=(np.pi, np.pi, 0.)):
    k = np.meshgrid(*[2 * np.pi * np.arange(n) / n for n in nk], indexing='ij')
    return a / (1 / xi ** 2 + sum((x - y) ** 2 for x, y in zip(k, q)))


def least_squares(ctx, m, c, where, wide=False):
    """the residual is no larger than with other parameters"""
    def res(p, x):
        return float(np.sum((oz_model(m.shape, p, x) - m) ** 2))
    got = res(c[0], abs(c[1]))
    best = got
    for x in abs(c[1]) * np.concatenate((10 ** np.linspace(-1, 1, 41) if wide else [], 1 + np.linspace(-.05, .05, 21))):
        s = oz_model(m.shape, 1., x)
        best = min(best, res(float(np.sum(s * m) / np.sum(s * s)), x))
    ctx.true(got <= best * (1 + 1e-4) + 1e-9 * np.sum(m ** 2), 'least-squares', f'{where} residual {got:.6e} of A={c[0]}, xi={c[1]}, but {best:.6e} is possible')


def sc_oz(ctx, rng, i):
    """correlation length"""
    nk = (int(rng.integers(4, 17)), int(rng.integers(4, 17)), int(rng.choice([1, 1, 2])))
    kg = bz.KGrid(nk)
    a, xi = float(10 ** rng.uniform(-1, 1.3)), float(10 ** rng.uniform(-.3, .9))
    kind = ['exact', 'noise', 'lattice', 'exact', 'hopeless'][i % 5]
    ctx.describe(nk=nk, a=round(a, 4), xi=round(xi, 4), kind=kind)
    m = oz_model(nk, a, xi)
    ctx.close(oz.oz_spin_w0(kg, a, xi), m.flatten(), 'function', 'Ornstein-Zernicke function around (pi, pi, 0)', rtol=1e-12)
    if kind == 'noise':
        m = m * (1 + .05 * rng.normal(size=nk))
    if kind == 'lattice':
        k = np.meshgrid(*[2 * np.pi * np.arange(n) / n for n in nk], indexing='ij')
        m = a / (1 / xi ** 2 + 2 * (2 + np.cos(k[0]) + np.cos(k[1])))
    niw = int(rng.integers(0, 4))
    chi = np.repeat(m[..., None], 2 * niw + 1, axis=-1) * (1. / (1 + 3 * np.abs(np.arange(-niw, niw + 1)))) + 1e-3j * rng.normal()
    if kind == 'hopeless':
        chi[int(rng.integers(0, nk[0])), 0, 0, niw] = np.nan
    d = tempfile.mkdtemp(prefix='verif_c28_')
    old, shown = plotting.plot_oz_fit, []
    try:
        np.save(d + '/chi_magn_lam.npy', chi)
        plotting.plot_oz_fit = lambda **k: shown.append(k)
        dga_io.fit_and_plot_oz(d, kg)
        c = np.loadtxt(d + '/oz_coeff.txt', delimiter=',')
        ctx.true(np.array_equal(np.load(d + '/chi_magn_lam.npy'), chi, equal_nan=True), 'alias', 'susceptibility file changed')
    finally:
        plotting.plot_oz_fit = old
        shutil.rmtree(d)
    ctx.true(len(shown) == 1 and np.allclose(np.asarray(shown[0]['oz_coeff']), c, atol=1e-8) and np.array_equal(shown[0]['chi_w0'], chi[..., niw], equal_nan=True),
             'figure', 'the figure shows the static susceptibility and the fit of the file')
    if kind == 'hopeless':
        ctx.equal(c, np.array([-1., -1.]), 'failure', 'data that cannot be fitted are marked')
        ctx.saw('hopeless')
        return
    ctx.true(c.shape == (2,) and np.all(np.isfinite(c)), 'file', f'{c}')
    if np.all(c == -1):
        ctx.saw('no_convergence')
        ctx.true(kind != 'exact' or xi > 4, 'recover', f'no fit of exact data A={a}, xi={xi}')
        return
    if kind == 'exact':
        # parameters are rounded to nine digits after the point
        ctx.close(np.array([c[0], abs(c[1])]), np.array([a, xi]), 'recover', 'amplitude and correlation length of exact data', rtol=1e-5)
    least_squares(ctx, m, c, '', wide=True)
    ctx.saw('correlation_lengths')


def sc_filling(ctx, rng, i):
    """filling of a spectrum"""
    n = int(rng.integers(200, 800))
    wmax = float(rng.uniform(6, 20))
    mesh = ['linear', 'tan'][i % 2]
    w = ac.get_w_mesh(mesh, -wmax, wmax, n)
    x0, s = float(rng.uniform(-2, 2)), float(rng.uniform(.3, 1))
    ctx.describe(n=n, wmax=round(wmax, 3), mesh=mesh, x0=round(x0, 3), s=round(s, 3))
    a = ac.gauss_peak(x0, s, 1., w)
    g = rng.normal(size=n) - 1j * np.pi * a
    from math import erf
    want = 2 * .5 * (1 + erf(-x0 / s / np.sqrt(2)))
    # one cell around the Fermi level and the resolution of the mesh
    h = np.max(np.diff(w)[np.abs(w[1:]) < 6])
    ctx.close(ac.check_filling(w, g), want, 'filling', 'twice the occupied weight', atol=2 * h * np.max(a) + 2 * h ** 2 / s ** 2 + 1e-4)
    ctx.saw('fillings')


SCENARIOS = [('poly', sc_poly, 800, 8000), ('files', sc_files, 60, 400), ('oz', sc_oz, 300, 3000), ('filling', sc_filling, 60, 400)]

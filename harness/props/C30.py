"""C30: figures show the data they are named after, at the right place."""
import contextlib
import os
from types import SimpleNamespace
from unittest.mock import MagicMock

import matplotlib
import matplotlib.pyplot as plt
import numpy as np
from matplotlib.collections import LineCollection, PathCollection, QuadMesh
from ruamel.yaml import YAML

from dga import analytic_continuation as ac
from dga import brillouin_zone as bz
from dga import dga_io
from dga import dga_max_ent
from dga import high_level_plotting as hlp
from dga import local_four_point as lfp
from dga import optics
from dga import plotting
from dga import two_point as tp
from harness.env import FakeComm, Log, scratch
from harness.props import C26

RULE = ('random data without any symmetry on meshes with different extents are handed to the routines that draw figures (and to the continuation program); '
        'every figure is intercepted when it is saved and its artists are read: the cell of the image that contains a coordinate holds the datum of that '
        'coordinate, the lines run through the data. Non-trivial: more than one datum per axis')
ASSUMPTIONS = ['a datum lies within half a cell of where it is drawn']


class Axes:
    """what an axes shows"""

    def __init__(self, ax):
        self.title, self.xlabel, self.ylabel = ax.get_title(), ax.get_xlabel(), ax.get_ylabel()
        self.xlim, self.ylim = ax.get_xlim(), ax.get_ylim()
        self.lines = [(np.array(x.get_xdata(), float), np.array(x.get_ydata()), x.get_label()) for x in ax.lines]
        self.dashed = [np.array(x.get_xydata(), float) for x in ax.lines if x.get_linestyle() == '--']
        self.ticks = (list(ax.get_xticks()), [x.get_text() for x in ax.get_xticklabels()])
        self.images, self.dots = [], []
        self.vertical = [s for c in ax.collections if isinstance(c, LineCollection) for s in c.get_segments()]
        for c in ax.collections:
            if isinstance(c, QuadMesh):
                xy = np.asarray(c.get_coordinates())
                self.images.append((xy[0, :, 0], xy[:, 0, 1], np.asarray(c.get_array()).reshape(xy.shape[0] - 1, xy.shape[1] - 1)))
            elif isinstance(c, PathCollection):
                self.dots.append(np.asarray(c.get_offsets()))
        for m in ax.images:
            z = np.asarray(m.get_array())
            if z.ndim == 2:
                x0, x1, y0, y1 = m.get_extent()
                if m.origin == 'upper':
                    z = z[::-1]
                self.images.append((np.linspace(x0, x1, z.shape[1] + 1), np.linspace(y0, y1, z.shape[0] + 1), z))

    def at(self, x, y, which=0):
        """values of the cells at all x, y (result [x, y])"""
        xe, ye, z = self.images[which]
        out = []
        for edges, v in ((xe, x), (ye, y)):
            e = edges if edges[-1] > edges[0] else edges[::-1]
            tol = 1e-9 * (e[-1] - e[0])
            j = np.searchsorted(e, np.asarray(v) + tol, side='right') - 1
            inside = (np.asarray(v) > e[0] - tol) & (np.asarray(v) < e[-1] + tol)
            j = np.clip(j, 0, len(e) - 2)
            out.append((np.where(inside, j if edges[-1] > edges[0] else len(e) - 2 - j, -1)))
        v = z[np.ix_(out[1], out[0])].T.astype(float)
        v[out[0] < 0] = np.nan
        v[:, out[1] < 0] = np.nan
        return v


@contextlib.contextmanager
def figures():
    """name of the file -> what its axes showed when it was saved; nothing is drawn"""
    got = {}
    old = [(matplotlib.figure.Figure, x, getattr(matplotlib.figure.Figure, x)) for x in ('savefig', 'tight_layout')]

    def save(self, fname, *a, **k):
        got.setdefault(os.path.basename(str(fname)), []).append([Axes(x) for x in self.axes])

    matplotlib.figure.Figure.savefig = save
    matplotlib.figure.Figure.tight_layout = lambda *a, **k: None
    try:
        yield got
    finally:
        for o, n, f in old:
            setattr(o, n, f)
        plt.close('all')


class Look:
    def __init__(self, ctx, got):
        self.ctx, self.got = ctx, got

    def figure(self, name, n=None):
        self.ctx.true(name in self.got, 'missing', f'no figure {name}, only {sorted(self.got)}')
        f = self.got[name]
        self.ctx.true(len(f) == 1, 'overwritten', f'{name} was written {len(f)} times')
        return f[0]

    def image(self, ax, x, y, want, what, rtol=1e-9):
        self.ctx.true(len(ax.images) > 0, 'image', f'{what}: no image in the panel')
        got = ax.at(x, y)
        self.ctx.close(got, np.asarray(want, float), 'image', what, rtol=rtol)
        self.ctx.saw('cells', got.size)

    def line(self, ax, x, y, what, rtol=1e-9):
        """one of the lines runs through the points"""
        y = np.asarray(y)
        sc = np.max(np.abs(y)) + 1e-300
        for lx, ly, _ in ax.lines:
            if len(lx) == len(x) and np.allclose(lx, x, rtol=1e-9, atol=1e-9) and np.allclose(ly, y, rtol=rtol, atol=rtol * sc, equal_nan=True):
                self.ctx.true(True, 'line')
                self.ctx.saw('points', len(x))
                return
        self.ctx.true(False, 'line', f'{what}: no line runs through the data')


def cplx(rng, *shape):
    return rng.normal(size=shape) + 1j * rng.normal(size=shape)


def mesh(rng, hi=14):
    """two different extents, of either parity"""
    n = rng.integers(4, hi, size=2)
    if n[0] == n[1]:
        n[1] += 2
    return int(n[0]), int(n[1]), int(rng.choice([1, 1, 2, 3]))


def centred(n):
    """momenta from -pi, and the mesh points (0, 2 pi) they are"""
    return 2 * np.pi * (np.arange(n) - n // 2) / n, (np.arange(n) - n // 2) % n


def labels(look, axes, real=r'$\Re$', imag=r'$\Im$'):
    for ax, t in zip(axes, (real, imag)):
        look.ctx.true(ax.title == t, 'title', f'panel is called {ax.title}, not {t}')


def kaxes(look, ax, what):
    look.ctx.true('k_x' in ax.xlabel and 'k_y' in ax.ylabel, 'axes', f'{what}: axes {ax.xlabel}, {ax.ylabel}')
    if ax.dashed:  # the boundary of the antiferromagnetic zone
        k = np.concatenate(ax.dashed)
        look.ctx.close(np.cos(k[:, 0]), -np.cos(k[:, 1]), 'zone-boundary', f'{what}: dashed lines', rtol=0, atol=1e-9)
        in_x, in_y = (ax.images[0][j][[0, -1]] for j in (0, 1))
        mid = k[(np.abs(np.sin(k)) > .1).all(1)]
        side = {(bool(np.sin(x) > 0), bool(np.sin(y) > 0)) for x, y in mid if in_x[0] - 7 / 2 < x < in_x[1] + 7 / 2 and in_y[0] - 7 / 2 < y < in_y[1] + 7 / 2}
        look.ctx.true(len(side) == 4, 'zone-boundary', f'{what}: only {len(side)} of its sides are drawn')
        look.ctx.saw('zone_boundaries')


def sc_maps(ctx, rng, i):
    """momentum maps of a run: susceptibility, self-energy, Green's function, polynomial fit, gap function"""
    nk, nq = mesh(rng), mesh(rng)
    beta, niw = float(rng.uniform(2, 10)), int(rng.integers(1, 6))
    niv, shell = int(rng.integers(20, 30)), int(rng.integers(0, 4)) * 5
    kg, qg = bz.KGrid(nk), bz.KGrid(nq)
    ctx.describe(nk=nk, nq=nq, beta=round(beta, 3), niw=niw, niv=niv, shell=shell)
    chi = {c: cplx(rng, 2 * niw + 1) for c in ('dens', 'magn')}
    lad = {c: cplx(rng, *nq, 2 * niw + 1) for c in ('dens', 'magn')}
    nf = niv + shell
    v = np.pi / beta * (2 * np.arange(-nf, nf) + 1)
    a, e, h = rng.uniform(.5, 1.5, size=nk), rng.normal(size=nk), rng.normal(size=nk) * .3
    sig = (h[..., None] + a[..., None] / (1j * v - e[..., None]))[..., shell:nf + niv]
    so = tp.SelfEnergy(sig, beta)
    loc = sig[rng.integers(nk[0]), rng.integers(nk[1]), 0][None, None, None]
    dmft = tp.SelfEnergy(loc, beta)
    ek = rng.normal(size=nk)
    gf = tp.GreensFunction(so, ek, mu=float(rng.normal() * .2), niv_asympt=nf)
    gloc = MagicMock(beta=beta, e_kin=-1.3)
    cfg = MagicMock(comm=FakeComm(), lattice=SimpleNamespace(q_grid=qg, k_grid=kg, nk=nk), box=SimpleNamespace(niw_core=niw, niv_full=nf, niv_core=niv),
                    sys=SimpleNamespace(beta=beta, mu_dmft=0.), verbosity=1)
    sde = cplx(rng, 2 * niv)
    gap = rng.normal(size=(nk[0], nk[1], 2))
    with scratch() as d, figures() as got:
        cfg.pdir = cfg.output_path = d
        name = str(rng.choice(['ladder', 'lam']))
        dga_io.chiq_checks(cfg, chi['dens'], chi['magn'], lad['dens'], lad['magn'], gloc, name=name)
        dga_io.default_siwk_checks(cfg, so, sde, dmft)
        dga_io.default_giwk_checks(cfg, gf, so)
        n_fit, order = int(rng.integers(4, 8)), int(rng.integers(1, 4))
        dga_io.poly_fit(sig, beta, kg, n_fit, order, name='P', output_path=d)
        fit = np.load(d + 'P.npy', allow_pickle=True).item()
        plotting.plot_gap_function_kx_ky(gap, kg.kx_shift, kg.ky_shift, name='sing_0', pdir=d)
        saved = {c[0][1]: c[0][0] for c in cfg.save_data.call_args_list}
    look = Look(ctx, got)
    kx, ky = 2 * np.pi * np.arange(nq[0]) / nq[0], 2 * np.pi * np.arange(nq[1]) / nq[1]
    for c in ('dens', 'magn'):
        f = look.figure(f'Chi_{name}_{c}_kz0.png')
        labels(look, f)
        for ax, z in zip(f, (lad[c].real, lad[c].imag)):
            kaxes(look, ax, c)
            look.image(ax, kx, ky, z[:, :, 0, niw], f'static {c} susceptibility')
    f = look.figure('chi_dens_magn_lad_q_tilde.png')
    wn = np.arange(-niw, niw + 1)
    for j, c in enumerate(('dens', 'magn')):
        for k in (j, j + 2):
            ctx.true(c in f[k].ylabel, 'axes', f'{f[k].ylabel} for {c}')
            look.line(f[k], wn, chi[c].real, f'{c} local susceptibility')
            look.line(f[k], wn, np.mean(lad[c], axis=(0, 1, 2)).real, f'{c} momentum sum')
    (px, jx), (py, jy) = centred(nk[0]), centred(nk[1])
    full = so.get_siw(nf)
    f = look.figure('Siwk_dga_kz0.png')
    labels(look, f)
    for ax, z in zip(f, (full.real, full.imag)):
        kaxes(look, ax, 'self-energy')
        look.image(ax, px, py, z[:, :, 0, nf][np.ix_(jx, jy)], 'self-energy at the lowest frequency')
    for name in ('dga_loc', 'dga_loc_core'):
        f = look.figure(f'sde_{name}_check.png')
        for m in (sde, np.mean(full, axis=(0, 1, 2)), np.mean(sig, axis=(0, 1, 2)), dmft.get_siw(nf)[0, 0, 0]):
            n = len(m) // 2
            x = np.arange(-n, n)
            for ax, y in zip(f, (m.real, m.imag, m.real, np.abs(m.imag))):
                look.line(ax, x, y, f'{name}: local self-energy')
    g = gf.g_full()
    f = look.figure('Giwk_dga_kz0.png')
    labels(look, f)
    h = gf.niv_full
    for ax, z in zip(f, (g.real, g.imag)):
        kaxes(look, ax, "Green's function")
        look.image(ax, px, py, z[:, :, 0, h][np.ix_(jx, jy)], "Green's function at the lowest frequency")
    g0 = g[:, :, 0, h].real
    for ax in f[:2]:
        for p in (ax.dots[0] if ax.dots else []):
            x, y = int(round(p[0] * nk[0] / 2 / np.pi)), int(round(p[1] * nk[1] / 2 / np.pi))
            near = g0[x:x + 2, y:y + 2]
            ctx.true(x < nk[0] // 2 and y < nk[1] // 2 and near.min() <= 0 <= near.max(), 'fermi-surface', f'the mark at {p} is not next to a zero')
            ctx.saw('fermi_points')
    ctx.equal(saved['giwk_dga'], g, 'figure', 'what is shown is what is saved')
    ctx.equal(saved['siwk_dga'], full, 'figure', 'what is shown is what is saved')
    f = look.figure('P.png')
    for ax, k, t in zip(f, ('re_fs', 'im_fs', 'Z'), (r'\Re', r'\Im', 'Z')):
        ctx.true(t in ax.title, 'title', f'{ax.title} for {k}')
        kaxes(look, ax, k)
        look.image(ax, px, py, fit[k][:, :, 0][np.ix_(jx, jy)], f'extrapolated {k}')
    f = look.figure('GapFunction_sing_0.png')
    for ax, z, n in zip(f, (gap[..., 0], gap[..., 1]), ('n=-1', 'n=0')):
        ctx.true(n in ax.title, 'title', f'frequency {n} is called {ax.title}')
        kaxes(look, ax, 'gap')
        look.image(ax, px, py, z, f'gap function at frequency {n}')


def sc_cont(ctx, rng, i):
    """momentum maps of continued functions, the path and the conductivity"""
    nk = mesh(rng)
    kg = bz.KGrid(nk)
    nw = int(rng.integers(21, 60))
    w = np.sort(rng.uniform(-4, 4, size=nw)) if i % 3 else np.linspace(-3, 3, nw)
    wb = np.concatenate(([0.], np.sort(rng.uniform(.01, 6, size=nw - 1))))
    ctx.describe(nk=nk, nw=nw)
    mat, chi = cplx(rng, *nk, nw), np.abs(rng.normal(size=nk + (nw,))) + 0j
    mat = mat.real - 1j * np.abs(mat.imag)
    gwk = tp.RealFrequencyGF(w, mat, rng.normal(size=nk), mu=float(rng.normal()), deltino=.04)
    sig, ws = rng.normal(size=nw), np.sort(rng.uniform(0, 3, size=nw))
    path = str(rng.choice(['Gamma-X-M2-Gamma', 'Gamma-Y-M-Gamma', 'Gamma-X-M-Y-Gamma', 'M-Gamma', 'Gamma-0.25 0.5 0.-X']))
    kp = bz.KPath(nk, path)
    bounds = (-2., 2.) if i % 2 else (None, None)
    with scratch() as d, figures() as got:
        ac.save_and_plot_cont_fermionic(mat, w, kg, 'swk_dga', d)
        ac.save_and_plot_cont_bosonic(chi, wb, kg, 'chi_magn', d)
        hlp.plot_real_frequency_dispersion(gwk, kp, pdir=d, name='disp', wmin=bounds[0], wmax=bounds[1])
        hlp.plot_chi_along_kpath(chi, wb, kp, pdir=d, name='chip')
        hlp.plot_opt_cond(sig, ws, pdir=d, name='sigma_bub')
        wi = -float(rng.uniform(.5, 3))
        plotting.plot_cont_fs(output_path=d, name='mean', mat=mat, v_real=w, k_grid=kg, w_int=wi, w_plot=wi)
        plotting.plot_cont_fs_no_shift(output_path=d, name='mean_ns', mat=mat, v_real=w, k_grid=kg, w_int=wi, w_plot=wi)
    look = Look(ctx, got)
    (px, jx), (py, jy) = centred(nk[0]), centred(nk[1])
    for x in (0, .1, -.1):
        for name, m, v, cen in (('swk_dga', mat, w, True), ('chi_magn', chi, wb, False)):
            f = look.figure(f'{name}_at_w{x}.png')
            z = m[:, :, 0, np.argmin(np.abs(v - x))]
            q = 1 / m[:, :, 0, np.argmin(np.abs(v))]
            for ax, y, t in zip(f, (-z.imag / np.pi, z.real, q.real), (r'\Im', r'\Re', 'QPD')):
                ctx.true(t in ax.title, 'title', f'{ax.title} for {t}')
                kaxes(look, ax, name)
                if cen:
                    look.image(ax, px, py, y[np.ix_(jx, jy)], f'{name} {t} at {x}')
                else:
                    look.image(ax, 2 * np.pi * np.arange(nk[0]) / nk[0], 2 * np.pi * np.arange(nk[1]) / nk[1], y, f'{name} {t} at {x}')
                lo = (px[0], py[0]) if cen else (0., 0.)
                ctx.close(np.array([ax.xlim, ax.ylim]), np.array([[a, a + 2 * np.pi * (1 - 1 / n)] for a, n in zip(lo, nk)]), 'axes', f'{name}: range of the momenta', rtol=1e-9)
    # the mean over the occupied frequencies of a window
    sel = np.flatnonzero((w < 0) & (w > wi))
    z = np.zeros(nk[:2], dtype=complex)
    for a, b in zip(sel[:-1], sel[1:]):
        z += (mat[:, :, 0, a] + mat[:, :, 0, b]) / 2 * (w[b] - w[a]) / -wi
    fs = look.figure(f'mean_at_w{wi}.png'), look.figure(f'mean_ns_at_w{wi}.png')
    for j, y in enumerate((-z.imag / np.pi, z.real)):
        look.image(fs[0][j], px, py, y[np.ix_(jx, jy)], f'mean over the window, map {j}')
        look.image(fs[1][j], 2 * np.pi * np.arange(nk[0]) / nk[0], 2 * np.pi * np.arange(nk[1]) / nk[1], y, f'mean over the window, map {j} (not centred)')
    ctx.saw('window_points', len(sel))
    on_path(look, 'disp.png', kp, nk, gwk.awk(), w)
    f = look.figure('disp.png')
    ctx.close(np.array(f[0].ylim), np.array(bounds) if bounds[0] else w[[0, -1]], 'axes', 'range of the frequency', rtol=1e-12)
    look.line(f[1], gwk.aw, w, 'local spectral function')
    on_path(look, 'chip.png', kp, nk, chi.real * wb, wb)
    f = look.figure('chip.png')
    pk = np.array([wb[np.argmax(chi[tuple(k)].real * wb)] for k in kp.kpts])
    look.line(f[0], kp.k_axis, pk, 'position of the maximum')
    look.line(look.figure('sigma_bub.png')[0], ws, sig, 'conductivity')


def on_path(look, name, kp, nk, data, w):
    f = look.figure(name)
    ctx = look.ctx
    want = np.array([data[tuple(k)] for k in kp.kpts]).real
    look.image(f[0], kp.k_axis, w, want, f'{name}: data along the path')
    t, lab = f[0].ticks
    names = kp.path.split('-')
    ctx.true(len(t) == len(names) and list(lab) == list(kp.labels), 'ticks', f'{name}: ticks {lab} for {kp.path}')
    for x, c in zip(t, kp.ckp):
        j = int(np.argmin(np.abs(kp.k_axis - x)))
        d = np.abs(kp.kpts[j] / np.array(nk) - c) % 1
        ctx.true(np.all((d < 1.5 / np.array(nk) + 1e-9) | (d > 1 - 1.5 / np.array(nk) - 1e-9)), 'ticks', f'{name}: tick of {c} is at momentum {kp.kpts[j]} of {nk}')


def sc_freq(ctx, rng, i):
    """functions of frequency"""
    niv, niw = int(rng.integers(2, 9)), int(rng.integers(1, 14))
    beta = float(rng.uniform(2, 10))
    niv_cut = -1 if i % 3 == 0 else int(rng.integers(1, niv + 1))
    full = bool(i % 2)
    wn = np.arange(-niw, niw + 1)
    if not full:
        wn = np.sort(rng.choice(wn, size=int(rng.integers(2, len(wn) + 1)), replace=False))
        wn[0] = 0 if 0 not in wn else wn[0]
        wn = np.unique(wn)
    iw = int(rng.choice(wn))
    ctx.describe(niv=niv, niw=niw, cut=niv_cut, wn=wn.tolist(), iw=iw)
    m4 = cplx(rng, len(wn), 2 * niv, 2 * niv)
    m3 = cplx(rng, 2 * niw + 1, 2 * niv)
    obj = {c: lfp.LocalFourPoint(c, m4 * s, beta, 1., wn=None if full else wn, is_full_w=full) for c, s in (('dens', 1), ('magn', 2))}
    a, b = cplx(rng, 2 * niw + 1), cplx(rng, 2 * int(rng.integers(1, 14)) + 1)
    vr = np.sort(rng.normal(size=20))
    gl = cplx(rng, 20)
    bws, c2, ft = np.sort(rng.uniform(.01, 1, size=5)), rng.uniform(1, 5, size=5), rng.uniform(1, 5, size=5)
    sr = rng.normal(size=(2, 20)) + 0j
    nk = mesh(rng)
    ms = cplx(rng, *nk, 2 * niv)
    ind = np.stack([rng.integers(0, nk[0], 6), rng.integers(0, nk[1], 6)], axis=1)
    p1, p2 = sorted(int(x) for x in rng.integers(0, niv, size=2))
    step, kz = int(rng.integers(1, 3)), int(rng.integers(nk[2]))
    nq = mesh(rng)
    qg = bz.KGrid(nq)
    chi = rng.uniform(1, 3, size=nq) + 0j
    oz = [float(rng.uniform(.5, 2)), float(rng.uniform(.5, 2))]
    zero = rng.normal(size=(5, 7))
    a2, b2 = a + cplx(rng, *a.shape) * .1, b - cplx(rng, *b.shape) * .2
    with scratch() as d, figures() as got:
        obj['dens'].plot(iw, pdir=d, name='F', niv=niv_cut)
        plotting.default_g2_plots(obj['dens'], obj['magn'], d)
        plotting.default_gchi_plots(obj['dens'], obj['magn'], d)
        plotting.default_gamma_plots(obj['dens'], obj['magn'], d, SimpleNamespace(niv_core=niv), beta)
        lfp.plot_three_point_w_v(m3, pdir=d, name='T')
        lfp.LocalThreePoint('dens', m3, beta, 1., is_full_w=True).plot(pdir=d, name='L', niv=niv_cut)
        optics.plot_opt_cond_matsubara(a.real, b.real, do_save=True, pdir=d)
        optics.plot_opt_cond_realf(vr, sr[0], sr[1], do_save=True, pdir=d)
        plotting.plot_aw_loc(v_real=vr, gloc=gl, output_path=d, name='aw')
        plotting.plot_bw_fit(bw_opt=.2, bw=bws, chi2=c2, fits=[ft], output_path=d, name='bw')
        plotting.plot_along_ind(ms, ind, pdir=d, niv_plot_min=p1, niv_plot=p2 + 1, name='S', step_size=step, ikz=kz)
        plotting.plot_oz_fit(chi_w0=chi, oz_coeff=oz, qgrid=qg, pdir=d, name='oz')
        plotting.local_diff_checks([[a, a2], [b, b2]], [['1', '2'], ['3', '4']], d, name='chi')
        zx, zy = plotting.get_zero_contour(zero)
    look = Look(ctx, got)

    def four(name, m, w, cut):
        if name != 'F' and w and f'{name}_wn{w}_niv{cut}.png' not in got:
            return  # which frequencies beside zero are shown is free
        f = look.figure(f'{name}_wn{w}_niv{cut}.png')
        z = m[int(np.flatnonzero(wn == w)[0])]
        n = niv if cut < 0 else min(cut, niv)
        z = z[niv - n:niv + n, niv - n:niv + n]
        labels(look, f)
        for ax, y in zip(f, (z.real, z.imag)):
            ctx.true('nu_p' in ax.xlabel and 'nu$' in ax.ylabel, 'axes', f'{ax.xlabel}, {ax.ylabel}')
            look.image(ax, np.arange(-n, n), np.arange(-n, n), y.T, name)

    four('F', m4, iw, niv_cut)
    for w in (0, 10, -10):
        if w in wn:
            four('G2_dens', m4, w, -1)
            four('G2_magn', 2 * m4, w, -1)
            for c, s in (('dens', 1), ('magn', 2)):
                four(f'Gamma_{c}', s * m4, w, min(niv, 2 * int(beta)))
                four(f'Gchi_{c}', s * m4, w, -1) if w == 0 else None
    for name, n in (('T', niv), (f'L_niv{niv_cut}', niv if niv_cut < 0 else niv_cut)):
        for ax, y in zip(look.figure(name + '.png'), (m3.real, m3.imag)):
            ctx.true('omega' in ax.xlabel and 'nu' in ax.ylabel, 'axes', f'{ax.xlabel}, {ax.ylabel}')
            look.image(ax, np.arange(-niw, niw + 1), np.arange(-n, n), y[:, niv - n:niv + n], 'three-point function')
    f = look.figure('optical_conductivity_matsubara.png')[0]
    na, nb = niw, len(b) // 2
    n = max(na, nb)
    s = np.zeros(2 * n + 1)
    s[n - na:n + na + 1] += a.real
    s[n - nb:n + nb + 1] += b.real
    for m, lab in ((a.real, 'bubble'), (b.real, 'vertex'), (s, 'full')):
        x, y, _ = next(li for li in f.lines if li[2] == lab)
        look.ctx.close(x, np.arange(len(m)) - len(m) // 2, 'line', f'{lab} frequencies')
        look.ctx.close(y.real, m, 'line', f'{lab} current correlation', rtol=1e-12)
    f = look.figure('optical_conductivity_realf.png')
    look.line(f[0], vr, sr[0].real, 'bubble')
    look.line(f[0], vr, sr[1].real, 'full')
    look.line(f[1], vr, (sr[1] - sr[0]).real, 'vertex')
    look.line(look.figure('aw.png')[0], vr, -gl.imag / np.pi, 'local spectrum')
    f = look.figure('bw.png')[0]
    look.line(f, bws, c2, 'deviation')
    look.line(f, bws, ft, 'fit')
    ctx.true(any(np.allclose(np.asarray(s)[:, 0], .2) for s in f.vertical), 'line', 'optimal blur is marked')
    f = look.figure('S_along_Fermi_surface.png')
    v = np.arange(-niv, niv)
    sel = (v >= p1) & (v <= p2 + 1)
    for j in ind[::step]:
        look.line(f[0], v[sel], ms[j[0], j[1], kz, sel].real, 'real part along the Fermi surface')
        look.line(f[1], v[sel], ms[j[0], j[1], kz, sel].imag, 'imaginary part along the Fermi surface')
    f = look.figure('oz.png')
    q = [2 * np.pi * np.arange(n) / n for n in nq]
    mod = oz[0] / (1 / oz[1] ** 2 + ((q[0] - np.pi) ** 2)[:, None, None] + ((q[1] - np.pi) ** 2)[:, None] + q[2] ** 2)
    for y, what in ((chi.real, 'susceptibility'), (mod, 'fit')):
        look.line(f[0], q[0], y[:, nq[1] // 2, 0], f'{what} at q_y = pi')
        look.line(f[1], q[1], y[nq[0] // 2, :, 0], f'{what} at q_x = pi')
    f = look.figure('chi_diff_check.png')
    for x, y in ((a, a2), (b, b2)):
        w = np.arange(len(x)) - len(x) // 2
        for z in (x, y):
            look.line(f[0], w, z.real, 'first and second')
        look.line(f[2], w, np.abs(x.real - y.real), 'difference', rtol=1e-6)
    want = set()  # wherever the sign changes between neighbours, the point closer to the zero
    for y in range(zero.shape[0]):
        for x in range(zero.shape[1]):
            for u, v in ((x + 1, y), (x, y + 1)):
                if v < zero.shape[0] and u < zero.shape[1] and zero[y, x] * zero[v, u] < 0:
                    want.add((x, y) if abs(zero[y, x]) < abs(zero[v, u]) else (u, v))
    have = {(int(x), int(y)) for x, y in zip(zx, zy)}
    ctx.true(have == want, 'zero', f'contour points {sorted(have - want)} are not next to a zero, {sorted(want - have)} are missing')
    ctx.saw('zero_points', len(want))


def sc_program(ctx, rng, i):
    """figures of the continuation program, with the continuation itself replaced by known numbers"""
    s = C26.Case(rng, i, False)
    s.sym = ['none', 'inv', 'xyinv'][i % 3]
    nw = int(rng.integers(41, 61))
    conf = {'box_sizes': {'niw_core': s.niw, 'niv_core': s.niv, 'niv_shell': s.shell},
            'lattice': {'symmetries': C26.SYMS[s.sym], 'type': 't_tp_tpp', 'hr_input': s.hop, 'nk': list(s.nk)},
            'dmft_input': {'type': 'default'}, 'max_ent': {'nwr': nw, 'wmax': 8., 'wmin': -8., 'mesh_type': ['tan', 'linear'][i % 2], **{x: {'do_cont': True} for x in C26.SECTIONS}}}
    ctx.describe(sym=s.sym, nk=s.nk, nw=nw)
    even_mesh = all(n % 2 == 0 for n in s.nk[:2])
    given = {}

    def cont(mat, me, dist, name, *a, **k):
        n = np.shape(mat)[0]
        z = rng.uniform(.2, 1, size=(n, len(me.w)))
        z = rng.normal(size=z.shape) * .1 - 1j * z if name in ('siwk_dga', 'giwk_dga') else z + 0j
        given[name] = (np.array(me.w), z)
        return z

    old = ac.mpi_ana_cont
    with scratch() as d, figures() as got:
        for k, v in s.files().items():
            np.save(d + k + '.npy', v, allow_pickle=True)
        with open(d + 'dga_config.yaml', 'w') as fh:
            YAML().dump(conf, fh)
        ac.mpi_ana_cont = cont
        try:
            with contextlib.redirect_stdout(open(os.devnull, 'w')):
                dga_max_ent.main(d, None)
        finally:
            ac.mpi_ana_cont = old
        swk = {os.path.basename(p): np.load(p) for r, _, fs in os.walk(d) for f in fs if f.endswith('_cont_fbz.npy') for p in [os.path.join(r, f)]}
    look = Look(ctx, got)
    lat, _, _ = C26.mapping(s.nk, s.sym, s.hop)
    kg = lat.k_grid
    (px, jx), (py, jy) = centred(s.nk[0]), centred(s.nk[1])
    for c, name in (('chi_dens', 'chi_dens'), ('chi_magn', 'chi_magn')):
        w, z = given[c]
        z = kg.map_irrk2fbz(z)
        ctx.close(swk[name + '_cont_fbz.npy'], z, 'file', name, rtol=1e-12)
        for p in ('Gamma-X-M2-Gamma', 'Gamma-Y-M2-Gamma', 'Gamma-X-M-Gamma', 'Gamma-Y-M-Gamma', 'Gamma-X-M-Y-Gamma'):
            on_path(look, f'{name}_{p}.png', bz.KPath(s.nk, p), s.nk, z.real * w, w)
        f = look.figure(f'{name}_at_w0.png')
        look.image(f[1], 2 * np.pi * np.arange(s.nk[0]) / s.nk[0], 2 * np.pi * np.arange(s.nk[1]) / s.nk[1],
                   z[:, :, 0, np.argmin(np.abs(w))].real, f'{name} at zero frequency')
    ctx.true(any(x.endswith('sigma_bub.png') for x in got), 'missing', 'figure of the conductivity')
    w = given['siwk_dga'][0]
    if even_mesh:
        f = look.figure('swk_dga_at_w0.png')
        look.image(f[0], px, py, -swk['swk_dga_cont_fbz.npy'][:, :, 0, np.argmin(np.abs(w))].imag[np.ix_(jx, jy)] / np.pi, 'self-energy at the Fermi level')


SCENARIOS = [('maps', sc_maps, 10, 80), ('cont', sc_cont, 10, 80), ('freq', sc_freq, 8, 60), ('program', sc_program, 2, 8)]

"""C31: analysis of a continued self-energy (program swk_analysis): Green's function at the filling of the run, maps and cuts."""
import contextlib
import io
import os
import warnings

import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt
import numpy as np
from ruamel.yaml import YAML

from dga import analytic_continuation as ac
from dga import brillouin_zone as bz
from harness.env import scratch

RULE = ('continued runs with pole self-energies that depend on the momentum without any lattice symmetry, on even and odd '
        'meshes and linear / tangent frequency meshes, are analysed by the production program; files and every array in the '
        'figure are compared with the definition at the momentum the picture shows. Non-trivial: every case')

CUT = .04
NAME = 'swk_dga_cont_fbz.npy'


def build(rng, i):
    nk = int(rng.integers(12, 25)) if i % 2 else 2 * int(rng.integers(6, 13))
    k = 2 * np.pi * np.arange(nk) / nk
    kx, ky = np.meshgrid(k, k, indexing='ij')
    t = float(rng.choice([.6, 1., 1.3]))
    hop = [t, float(t * rng.uniform(-.35, .1)), float(t * rng.uniform(0, .15))]
    ek = -2 * t * (np.cos(kx) + np.cos(ky)) - 4 * hop[1] * np.cos(kx) * np.cos(ky) - 2 * hop[2] * (np.cos(2 * kx) + np.cos(2 * ky))
    wmax = float(rng.uniform(12, 15))
    w = ac.get_w_mesh(['linear', 'tan'][i // 2 % 2], -wmax, wmax, int(rng.integers(281, 401)), .04)
    hart = float(rng.uniform(-2, 4))
    s = np.full((nk, nk, len(w)), hart - .2j, dtype=complex)
    if rng.random() < .6:  # differently wide along x and y
        s += (t * rng.uniform(.2, 1.2) * (np.cos(kx) if rng.random() < .5 else -np.cos(ky)))[..., None]
    for _ in range(int(rng.integers(1, 4))):
        a = rng.uniform(.1, .8) * (1 + .3 * (rng.uniform(-1, 1) * np.cos(kx) + rng.uniform(-1, 1) * np.cos(ky) + rng.uniform(-1, 1) * np.sin(kx)))
        s += a[..., None] / (w - rng.uniform(-3, 3) + 1j * rng.uniform(.2, .8))
    quiet = (np.abs(w) > 6) & (rng.random(w.shape) < .2)  # almost no damping at single energies far away: the cut-off counts
    s[..., quiet] = s[..., quiet].real - 1j * rng.uniform(0, .03)
    return nk, k, ek, hop, w, s[:, :, None, :], hart


def clip(s):
    return np.where(np.abs(s.imag) < CUT, s.real - 1j * CUT, s)


def green(w, mu, ek, s):
    return 1 / (w + mu - ek[..., None] - s[:, :, 0, :])


def filling(w, g):
    """both spins, trapezoidal rule up to the last frequency not above zero"""
    a, m = -g.imag.mean(axis=(0, 1)) / np.pi, w <= 0
    a, x = a[m], w[m]
    return 2 * np.sum((a[1:] + a[:-1]) / 2 * np.diff(x))


def filled(ctx, w, ek, s, mu, n, what):
    """the condition the minimiser leaves: the deviation of the filling, or its derivative (times two), is negligible"""
    f = filling(w, green(w, mu, ek, s))
    df = (filling(w, green(w, mu + 1e-4, ek, s)) - filling(w, green(w, mu - 1e-4, ek, s))) / 2e-4
    ctx.true(abs(f - n) < 1e-3 or abs(2 * (f - n) * df) < 1e-4, 'filling', f'{what}: mu = {mu} holds {f} electrons, the run {n}')
    ctx.true(abs(f - n) < .02, 'filling', f'{what}: mu = {mu} holds {f} electrons, the run {n}')


def at(x, nk):
    """mesh index of the coordinate(s) x, and how far off the mesh point it is (in cells)"""
    r = np.asarray(x) / (2 * np.pi / nk)
    return np.rint(r).astype(int) % nk, np.max(np.abs(r - np.rint(r)))


def meshes(ax):
    return [m for m in ax.collections if isinstance(m, matplotlib.collections.QuadMesh)]


def mesh_g(re, ix, iy, sx):
    """values ordered along the zone-centred axis"""
    nk = len(sx)
    j = at(sx, nk)[0]
    return re[np.ix_(j, j)]


def sc_program(ctx, rng, i):
    from postproc import plot_siwk_cont
    for _ in range(50):
        nk, k, ek, hop, w, s, hart = build(rng, i)
        c = clip(s)
        mu_t = hart + float(rng.uniform(-1.2, 1.2))
        g = green(w, mu_t, ek, c)
        n = filling(w, g)
        n0 = int(np.argmin(np.abs(w)))
        xi = (1 / g[..., n0]).real
        if .3 < n < 1.7 and (xi > 0).mean() > .15 and (xi < 0).mean() > .15:
            # on the frequency mesh the filling has to grow with the chemical potential, else there is nothing unique to find
            if np.all(np.diff([filling(w, green(w, mu_t + d, ek, c)) for d in np.linspace(-.9, .9, 61)]) > 0):
                break
    else:
        ctx.describe(nontrivial=False, skipped='no metallic case with a unique filling')
        ctx.true(True, 'skip')
        return
    mu0 = mu_t + float(rng.uniform(-.3, .3))
    sub = ['MaxEntSiwk/', 'Cont_1/'][i % 3 == 2]
    ctx.describe(nk=nk, hop=[round(x, 3) for x in hop], nw=len(w), n=round(n, 4), mu=round(mu_t, 3), mu0=round(mu0, 3), folder=sub)
    plt.close('all')
    with scratch() as path:
        os.mkdir(path + sub)
        with open(path + 'dga_config.yaml', 'w') as fh:
            YAML().dump({'lattice': {'symmetries': 'none', 'type': 't_tp_tpp', 'hr_input': hop, 'nk': [nk, nk, 1]}}, fh)
        np.save(path + 'dmft_input.npy', {'n': n, 'beta': 10.}, allow_pickle=True)
        np.savetxt(path + 'mu.txt', [[mu0, mu0 - .5]], header='mu_dga, mu_dmft', fmt='%1.6f')
        np.save(path + sub + NAME, s)
        np.save(path + sub + 'w.npy', w)
        before = {f: open(os.path.join(r, f), 'rb').read() for r, _, fs in os.walk(path) for f in fs}
        save = matplotlib.figure.Figure.savefig
        saved = {}

        def keep_figure(self, f, *a, **kw):
            saved[os.path.basename(str(f))] = self
            save(self, f, dpi=20)
        matplotlib.figure.Figure.savefig = keep_figure
        try:
            with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
                warnings.simplefilter('ignore')
                plot_siwk_cont.main(path, sub) if i % 3 == 2 else plot_siwk_cont.main(base_path=path)
        finally:
            matplotlib.figure.Figure.savefig = save
        after = {f: open(os.path.join(r, f), 'rb').read() for r, _, fs in os.walk(path) for f in fs}
        changed = [f for f in before if after.get(f) != before[f]]
        ctx.true(not changed, 'inputs', f'the analysis changed {changed}')
        ctx.true({'gwk_cont.npy', 'mu_dga.txt', 'gwk_cont_analysis.png'} <= set(after), 'files', f'{sorted(after)}')
        ctx.true(all(os.path.exists(path + sub + f) for f in ('gwk_cont.npy', 'mu_dga.txt')), 'files', 'not in the folder of the continuation')
        got, mus = np.load(path + sub + 'gwk_cont.npy'), np.loadtxt(path + sub + 'mu_dga.txt').ravel()
    mu, mu_bare = mus
    G = green(w, mu, ek, c)
    ctx.close(got[:, :, 0, :], G, 'green', 'continued Green\'s function at the written chemical potential', rtol=1e-10)
    filled(ctx, w, ek, c, mu, n, 'interacting')
    lo, hi = (2 * np.mean(ek < mu_bare + d) for d in (-1e-6, 1e-6))
    ctx.true(lo - 1e-9 <= n <= hi + 1e-9, 'filling-band', f'band without self-energy: {lo} - {hi} electrons at mu = {mu_bare}, the run holds {n}')
    # the figure: artists are recognised by what they are, not by the order in which they were drawn
    fig = saved['gwk_cont_analysis.png']
    place = {(ax.get_subplotspec().rowspan.start, ax.get_subplotspec().colspan.start): ax for ax in fig.axes if ax.get_subplotspec() is not None}
    ctx.true(set(place) >= {(0, 0), (0, 1), (0, 2), (0, 3), (1, 0), (1, 2), (1, 3)}, 'figure', f'panels {sorted(place)}')
    A = -G.imag / np.pi
    lower, panel = place[1, 0], place[0, 0]
    maps = [np.ma.masked_array(m.get_array()).reshape(nk, nk) for m in meshes(panel)]
    ctx.true(len(maps) == 3, 'figure', f'{len(maps)} maps')
    xy = [np.asarray(m.get_coordinates()) for m in meshes(panel)]
    ctx.true(all(np.array_equal(xy[0], z) for z in xy), 'place', 'maps at different places')
    xy = xy[0]
    x, y = (xy[0, 1:, 0] + xy[0, :-1, 0]) / 2, (xy[1:, 0, 1] + xy[:-1, 0, 1]) / 2
    (ix, dx), (iy, dy) = at(x, nk), at(y, nk)
    ctx.true(max(dx, dy) < .3 and np.all(np.abs(np.r_[x, y]) < np.pi * (1 + 1.1 / nk)), 'place', f'cells of the map at {x}, {y} for {nk} points')
    full = [m for m in maps if not np.any(np.ma.getmaskarray(m))]
    step = [m for m in maps if np.any(np.ma.getmaskarray(m)) and set(np.unique(m.compressed())) <= {0., 1.}]
    half = [m for m in maps if np.any(np.ma.getmaskarray(m)) and not set(np.unique(m.compressed())) <= {0., 1.}]
    ctx.true(len(full) == len(half) == len(step) == 1, 'figure', f'{len(full)} full maps, {len(half)} quadrants of the real part, {len(step)} of the quasiparticle step')
    full, half, step = full[0], half[0], step[0]
    ctx.close(full.data, A[ix[None, :], iy[:, None], n0], 'map', 'spectral function in the map at zero energy', rtol=1e-9)
    keep, keep3 = ~half.mask, ~step.mask
    ctx.close(half.data[keep], G.real[ix[None, :], iy[:, None], n0][keep], 'map', 'real part in the map at zero energy', rtol=1e-9)
    ctx.true(keep3.any() and not np.any(keep & keep3), 'map', 'quadrant of the quasiparticle step is empty or covers the real part')
    ctx.equal(step.data[keep3], (xi[ix[None, :], iy[:, None]] - mu_t + mu > 0).astype(float)[keep3], 'map', 'step of the quasiparticle energy in the map')
    lines = panel.get_lines()
    marks = [ln for ln in lines if ln.get_marker() == 'o']
    paths = []
    for ln in lines:
        if ln in marks or len(ln.get_xdata()) < 2:
            continue
        (px, ex), (py, ey) = at(ln.get_xdata(), nk), at(ln.get_ydata(), nk)
        if max(ex, ey) < .3:
            paths.append((np.stack([ln.get_xdata(), ln.get_ydata()], 1), px, py))
    sx = bz.KGrid((nk, nk, 1)).kx_shift
    zero = bz.find_zeros(np.asarray(mesh_g(G[..., n0].real, ix, iy, sx)))
    zero = np.array([sx[zero[:, 0]], sx[zero[:, 1]]]).T
    used, marked = [], []
    for ax in (place[0, 1], place[0, 2], place[0, 3], lower):
        cut = np.asarray(meshes(ax)[0].get_array()).reshape(len(w), -1)
        mine = [n for n, (p, px, py) in enumerate(paths) if cut.shape[1] == len(px) and np.allclose(cut, A[px, py].T, rtol=1e-9, atol=1e-12)]
        ctx.true(len(mine) > 0, 'cut', 'spectral function of a cut belongs to no path drawn in the map')
        p, px, py = paths[mine[0]]
        used.append(mine[0])
        wy = np.asarray(meshes(ax)[0].get_coordinates())[:, 0, 1]
        ctx.true(np.all((wy[:-1] <= w) & (w <= wy[1:])), 'place', 'energies of the cut')
        band = [ln for ln in ax.get_lines() if len(ln.get_xdata()) == len(px)]
        ctx.true(len(band) == 1, 'figure', f'{len(band)} bands in a cut')
        ctx.close(band[0].get_ydata(), ek[px, py] - mu_bare, 'band', 'band without self-energy along the path', atol=1e-8)
        ctx.saw('path_points', len(px))
        c1, c2 = round(.49 * nk), round(.98 * nk)  # corners of the closed path, up to rounding
        segs = [(c1, c2), (c2, len(p) - 1)] if ax is lower else [(0, len(p) - 1)]
        xa = band[0].get_xdata()
        bars = sorted(seg[0][0] for col in ax.collections if hasattr(col, 'get_segments') for seg in col.get_segments() if seg[0][0] == seg[1][0])
        ctx.true(len(bars) == len(segs), 'crossing', f'{len(bars)} bars for {len(segs)} segments')
        d = np.array([np.hypot(*(zero - q).T).min() for q in p])
        for bar, (lo, hi) in zip(bars, segs):
            j = int(np.argmin(np.abs(xa - bar)))
            ctx.true(abs(xa[j] - bar) < 1e-12 and lo - 2 <= j <= hi + 2, 'crossing', f'bar at {bar} (point {j}) is not on its segment {lo} - {hi}')
            inner = d[lo + 2 * (lo > 0):hi - 1].min()
            ctx.true(d[j] <= inner + 1.5 * 2 * np.pi / nk, 'crossing', f'bar at {p[j]}: {d[j]} from the Fermi surface, another point of the segment {inner}')
            hit = [n for n, mk in enumerate(marks) if np.allclose([np.ravel(mk.get_xdata())[0], np.ravel(mk.get_ydata())[0]], p[j], atol=1e-12)]
            ctx.true(len(hit) > 0, 'crossing', f'the bar at {p[j]} is not marked in the map')
            marked += hit
            ctx.saw('crossings')
    ctx.true(len({tuple(paths[n][0].ravel()) for n in used}) == 4 or nk < 14, 'cut', f'cuts show the paths {used}')
    ctx.true(len(marks) == 5 and set(marked) == set(range(5)), 'crossing', f'{len(marks)} marks in the map, bars for {sorted(set(marked))}')
    ind = np.logical_and(w > -1, w < 1)
    colour = lambda ln: tuple(np.round(matplotlib.colors.to_rgb(ln.get_color()), 6))
    for what, ax, data in (('spectral function', place[1, 2], A), ('scattering rate', place[1, 3], c[:, :, 0, :].imag)):
        curves = {colour(ln): ln for ln in ax.get_lines()}
        ctx.true(len(curves) == 5, 'curve', f'{len(curves)} curves for five crossings')
        for mk in marks:
            ctx.true(colour(mk) in curves, 'curve', f'no curve of the colour of the mark {colour(mk)}')
            ln = curves[colour(mk)]
            (px, ex), (py, ey) = at(np.ravel(mk.get_xdata()), nk), at(np.ravel(mk.get_ydata()), nk)
            ctx.close(ln.get_xdata(), w[ind], 'curve', 'energies of the curve', rtol=1e-12)
            ctx.close(ln.get_ydata(), data[px[0], py[0], ind], 'curve', f'{what} at the crossing marked in the map in the same colour', rtol=1e-9)
            ctx.saw('curves')
    plt.close('all')


def sc_crossing(ctx, rng, i):
    from postproc import util
    nk = (int(rng.integers(4, 30)), int(rng.integers(4, 30)), 1)
    corners = [' '.join(str(round(float(x), 2)) for x in (*rng.uniform(0, 1, 2), 0)) for _ in range(int(rng.integers(2, 5)))]
    path = ['Gamma-X-M-Gamma', 'Gamma-Y-M-Gamma', 'Gamma-X'][i % 3] if i % 2 else '|'.join(corners)
    try:
        kp = bz.KPath(nk=nk, path=path, path_deliminator='-' if i % 2 else '|')
    except Exception:
        kp = None
    if kp is None or np.any(np.asarray(kp.nk_seg) < 1):
        ctx.describe(nontrivial=False, skipped='path without points', nk=nk, path=path)
        ctx.true(True, 'skip')
        return
    fermi = rng.uniform(0, 2 * np.pi, size=(int(rng.integers(1, 40)), 2))
    ctx.describe(nk=nk, path=path, fermi=len(fermi))
    got = np.asarray(util.find_fermi_crossing(fermi, kp))
    ctx.true(len(got) == len(kp.nk_seg), 'crossing', f'{len(got)} crossings for {len(kp.nk_seg)} segments')
    kx, ky = 2 * np.pi * np.arange(nk[0]) / nk[0], 2 * np.pi * np.arange(nk[1]) / nk[1]
    d = np.array([min(np.hypot(kx[a] - p, ky[b] - q) for p, q in fermi) for a, b in zip(kp.ikx, kp.iky)])
    for j, ind in enumerate(got):
        lo, hi = kp.cind[j], kp.cind[j + 1]
        ctx.true(lo <= ind <= hi, 'crossing', f'crossing {ind} outside of segment {lo}-{hi}')
        ctx.true(d[ind] <= d[lo:hi].min() + 1e-12, 'crossing', f'segment {j}: distance {d[ind]}, closest {d[lo:hi].min()}')
    ctx.saw('segments', len(got))


def sc_helpers(ctx, rng, i):
    from postproc import real_frequency_two_point as rtp
    nk, k, ek, hop, w, s, hart = build(rng, i)
    mu = float(rng.uniform(-2, 2)) + hart
    ctx.describe(nk=nk, nw=len(w), mu=mu)
    if i % 2:  # a three-dimensional band
        nz = int(rng.integers(2, 4))
        e3 = np.stack([ek + float(rng.uniform(-.5, .5)) for _ in range(nz)], axis=2)
        s3 = np.repeat(s, nz, axis=2) + rng.uniform(0, .3, size=(nz, 1))
    else:
        e3, s3 = ek[:, :, None], s
    g = rtp.get_giwk(mu, s3, w, e3)
    ctx.close(g, 1 / (w + mu - e3[..., None] - s3), 'green', 'Green\'s function', rtol=1e-12)
    f = rtp.get_filling(w, g)
    ctx.close(2 * f, np.mean([filling(w, g[:, :, z, :]) for z in range(g.shape[2])]), 'filling', 'filling of one spin', rtol=1e-10)
    x = gen_signed(rng)
    ctx.equal(np.asarray(rtp.get_dqp_bw(x)), (x >= 0).astype(float), 'occupied', 'step of the quasiparticle map')


def gen_signed(rng):
    x = rng.normal(size=tuple(int(v) for v in rng.integers(1, 6, size=3)))
    x.ravel()[rng.integers(0, x.size)] = 0.
    return x


SCENARIOS = [('program', sc_program, 12, 60), ('crossing', sc_crossing, 90, 600), ('helpers', sc_helpers, 30, 200)]

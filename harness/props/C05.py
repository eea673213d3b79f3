"""C05: paths through the Brillouin zone."""
import numpy as np
from dga import brillouin_zone as bz

RULE = ('random grids (rectangular, odd/even, up to 24) and random paths made of named and numeric corner points, both '
        'deliminators; a labelled mesh identifies the k-point behind each path value. Non-trivial: path has >= 3 points')
NAMES = list(bz.KNOWN_K_POINTS)
COORD = {'Gamma': (0, 0, 0), 'X': (.5, 0, 0), 'Y': (0, .5, 0), 'M': (.5, .5, 0), 'M2': (.25, .25, 0), 'Z': (0, 0, .5),
         'R': (.5, 0, .5), 'A': (.5, .5, .5)}


def sc_path(ctx, rng, i):
    nk = tuple(int(x) for x in rng.integers(4, 25, size=3))
    if i % 2:
        nk = (nk[0], nk[0], 1)
    nc = int(rng.integers(2, 6))
    delim = '-' if i % 3 else '|'
    names, corners = [], []
    while len(names) < nc:
        if rng.uniform() < 0.3:
            c = np.round(rng.uniform(-.9 if delim == '|' else 0, 1.2, size=3), 3)  # '-' would end the corner
            if i % 2:
                c[2] = 0
            nm = ' '.join(str(x) for x in c)
        else:
            nm = NAMES[int(rng.integers(0, len(NAMES)))]
            c = np.array(COORD[nm], dtype=float)
            if nk[2] == 1 and c[2] != 0:
                continue
        if corners and np.linalg.norm((corners[-1] - c) * nk) < 1:
            continue
        names.append(nm)
        corners.append(np.array(c, dtype=float))
    own = rng.uniform() < 0.2
    axes = {}
    if own:
        axes = dict(kx=np.sort(rng.uniform(-3, 3, nk[0])), ky=np.sort(rng.uniform(-3, 3, nk[1])), kz=np.sort(rng.uniform(-3, 3, nk[2])))
    ctx.describe(nk=nk, path=names, delim=delim, own_axes=own)
    p = bz.KPath(nk, delim.join(names), path_deliminator=delim, **axes)
    kpts = np.asarray(p.kpts)
    n = [int(x) for x in p.nkp]
    ctx.true(len(n) == nc - 1 and sum(n) == len(kpts) == p.nk_tot, 'sizes', f'{n} vs {len(kpts)}')
    ctx.true(np.issubdtype(kpts.dtype, np.integer), 'dtype', 'indices')
    low = -np.array(nk) if any(np.any(c < 0) for c in corners) else 0  # negative indices count from the end of the mesh
    ctx.true(np.all(kpts >= low) and np.all(kpts < np.array(nk)), 'range', f'k-index outside the mesh {kpts.min(0)} {kpts.max(0)}')
    off = 0
    for s in range(nc - 1):
        a, b = corners[s] * nk, corners[s + 1] * nk
        length = np.linalg.norm(a - b)
        ctx.true(abs(n[s] - length) <= 0.5 + 1e-9, 'density', f'segment of length {length} has {n[s]} points')
        for j in range(n[s]):
            pt = a + (b - a) * j / n[s]
            d = (kpts[off + j] - pt + np.array(nk) / 2.) % np.array(nk) - np.array(nk) / 2.
            ctx.true(np.all(np.abs(d) <= 0.5 + 1e-6), 'line', f'point {j} of segment {names[s]}->{names[s + 1]}: '
                     f'{kpts[off + j].tolist()} is not the mesh point next to {pt.tolist()} (mod {nk})')
            ctx.saw('path_points')
        off += n[s]
    # values and coordinates belong to the very same k-point
    lab = np.arange(int(np.prod(nk))).reshape(nk)
    lab2 = np.stack([lab, -lab], axis=-1)
    ref = lab[kpts[:, 0], kpts[:, 1], kpts[:, 2]]
    ctx.equal(p.map_to_kpath(lab), ref, 'map', 'values along the path')
    ctx.equal(p.map_to_kpath(lab2)[:, 1], -ref, 'map', 'trailing axes')
    ctx.equal(p.ikx, kpts[:, 0], 'ik')
    ctx.equal(p.iky, kpts[:, 1], 'ik')
    ctx.equal(p.ikz, kpts[:, 2], 'ik')
    kax = [axes['kx'], axes['ky'], axes['kz']] if own else [np.arange(m) * 2 * np.pi / m for m in nk]
    for a in range(3):
        ctx.close(p.k_val[a], kax[a][kpts[:, a]], 'coords', f'coordinates along axis {a}', rtol=1e-12)
        ctx.close(p.k_points[:, a], kax[a][kpts[:, a]], 'coords', f'coordinates along axis {a}', rtol=1e-12)
    ax = np.asarray(p.k_axis)
    ctx.true(len(ax) == len(kpts) and abs(ax[0]) < 1e-12 and abs(ax[-1] - 1) < 1e-12 or len(ax) == 1, 'axis')
    ctx.true(len(p.x_ticks) == nc == len(p.labels), 'ticks', f'{p.x_ticks}')
    starts = np.concatenate(([0], np.cumsum(n)))  # the tick of a corner sits at its point or at the step next to it
    ctx.true(np.all(np.abs(p.x_ticks - starts / max(1, len(kpts) - 1)) <= 1.001 / max(1, len(kpts) - 1)), 'ticks',
             f'{p.x_ticks} for corners at points {starts} of {len(kpts)}')
    ctx.equal(p.nk_seg.sum(), len(kpts) - 1, 'ticks', 'segments cover the axis')


def sc_bands(ctx, rng, i):
    nk = tuple(int(x) for x in rng.integers(3, 9, size=3))
    no = int(rng.integers(1, 4))
    ctx.describe(nk=nk, orbitals=no)
    h = rng.normal(size=nk + (no, no)) + 1j * rng.normal(size=nk + (no, no))
    h = h + np.conj(np.swapaxes(h, -1, -2))
    p = bz.KPath(nk, 'Gamma-X-M-Gamma')
    b = p.get_bands(h)
    ctx.true(b.shape == (len(p.kpts), no), 'bands', f'shape {b.shape}')
    for j, k in enumerate(p.kpts):
        ctx.close(b[j], np.linalg.eigvalsh(h[tuple(k)]), 'bands', 'band energies', rtol=1e-9)
    ctx.saw('path_points', len(p.kpts))


SCENARIOS = [('path', sc_path, 1200, 3000), ('bands', sc_bands, 150, 300)]

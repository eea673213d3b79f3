"""C04: momentum shifts on the periodic grid are exact."""
import numpy as np
from dga import brillouin_zone as bz

RULE = ('random rectangular k-grids 1..8, random integer/real transfer momenta (negative, wrapping, zone boundary), '
        'trailing axes 0-2; entries are unique, so a shifted entry identifies its source k-point. Non-trivial: q != 0')


def sc_shift(ctx, rng, i):
    nk = tuple(int(x) for x in rng.integers(1, 8, size=3))
    trail = [int(x) for x in rng.integers(1, 3, size=int(rng.integers(0, 3)))]
    q = [int(x) for x in rng.integers(-9, 10, size=3)]
    ctx.describe(nk=nk, q=q, trail=trail, nontrivial=any(a % n for a, n in zip(q, nk)))
    m = rng.normal(size=list(nk) + trail)
    keep = m.copy()
    g = bz.KGrid(nk, [])
    typ = [list, tuple, np.array][i % 3]
    ref = np.empty_like(m)
    for k in np.ndindex(*nk):
        ref[k] = keep[tuple((k[a] - q[a]) % nk[a] for a in range(3))]
    ctx.equal(bz.shift_mat_by_ind(m, ind=typ(q)), ref, 'shift', 'f(k-q)')
    ctx.equal(g.shift_mat_by_ind(m, ind=typ(q)), ref, 'shift', 'f(k-q)')
    # shifting there and back, composition
    back = bz.shift_mat_by_ind(bz.shift_mat_by_ind(m, ind=typ(q)), ind=typ([-a for a in q]))
    ctx.equal(back, keep, 'shift', 'q then -q')
    # shift by a momentum given in units of the zone: only grid momenta inside [0,2pi)
    qi = [int(rng.integers(0, n)) for n in nk]
    qv = [2 * np.pi * a / n for a, n in zip(qi, nk)]
    ctx.equal(g.find_q_ind(q=qv), qi, 'find_q', 'index of a grid momentum')
    near = [v + 0.2 * np.pi / n * (-1) ** i for v, n in zip(qv, nk)]
    ctx.equal(g.find_q_ind(q=[max(0, v) for v in near]), qi, 'find_q', 'nearest grid momentum')
    ref = np.empty_like(m)
    for k in np.ndindex(*nk):
        ref[k] = keep[tuple((k[a] - qi[a]) % nk[a] for a in range(3))]
    ctx.equal(g.shift_mat_by_q(m, q=qv), ref, 'shift_q', 'f(k-q)')
    # the same momentum named through another zone: negative, at or beyond the zone boundary
    per = [int(x) for x in rng.integers(-2, 3, size=3)]
    ctx.equal(g.find_q_ind(q=[v + 2 * np.pi * p for v, p in zip(qv, per)]), qi, 'find_q', f'grid momentum in zone {per}')
    ctx.equal(g.find_q_ind(q=[v + 2 * np.pi * p for v, p in zip(near, per)]), qi, 'find_q', f'nearest momentum, zone {per}')
    ctx.equal(g.shift_mat_by_q(m, q=typ([v + 2 * np.pi * p for v, p in zip(qv, per)])), ref, 'shift_q', f'f(k-q) with q in zone {per}')
    ctx.equal(g.shift_mat_by_q(g.shift_mat_by_q(m, q=qv), q=typ([-v for v in qv])), keep, 'shift_q', 'q then -q')
    q2 = [2 * np.pi * int(rng.integers(-3 * n, 3 * n + 1)) / n for n in nk]
    ctx.equal(g.shift_mat_by_q(g.shift_mat_by_q(m, q=qv), q=q2), g.shift_mat_by_q(m, q=[a + b for a, b in zip(qv, q2)]),
              'shift_q', 'shifts compose')
    # pi shift
    ref = np.empty_like(m)
    for k in np.ndindex(*nk):
        ref[tuple((k[a] + nk[a] // 2) % nk[a] for a in range(3))] = keep[k]
    ctx.equal(g.shift_mat_by_pi(m), ref, 'shift_pi', 'shift by half the zone along all axes')
    ax = int(rng.integers(0, 3))
    ref = np.roll(keep, nk[ax] // 2, axis=ax)
    ctx.equal(g.shift_mat_by_pi(m, axes=(ax,)), ref, 'shift_pi', 'single axis')
    ref = np.empty_like(m)
    for k in np.ndindex(*nk):
        ref[(k[0] + nk[0] // 2) % nk[0], (k[1] + nk[1] // 2) % nk[1], k[2]] = keep[k]
    ctx.equal(bz.shift_mat_by_pi(m), ref, 'shift_pi', 'in-plane shift')
    kq = g.add_q_to_kgrid(q=qv)
    for a in range(3):
        ctx.close(kq[a], 2 * np.pi * (np.arange(nk[a]) - qi[a]) / nk[a], 'kgrid_q', 'k-q axes', rtol=1e-12)
    # the mesh itself: lists of indices and momenta name the same points, in the order of the flattened arrays
    pts = list(np.ndindex(*nk))
    ctx.equal(np.reshape(g.get_q_list(), (-1, 3)), pts, 'mesh', 'list of q indices')
    ctx.equal(g.ind_lin, range(len(pts)), 'mesh', 'linear indices')
    if min(nk) > 0 and len(pts) > 1:
        ctx.equal(np.reshape(g.ind, (-1, 3)), pts, 'mesh', 'index tuples')
    ctx.close(g.kmesh_list.T, [[2 * np.pi * k[a] / nk[a] for a in range(3)] for k in pts], 'mesh', 'momenta of the list', rtol=1e-12)
    ctx.close([g.kmesh[:, k[0], k[1], k[2]] for k in pts], g.kmesh_list.T, 'mesh', 'momenta of the mesh', rtol=1e-12)
    ctx.equal([g.kmesh_ind[:, k[0], k[1], k[2]] for k in pts], pts, 'mesh', 'indices of the mesh')
    # zone-centred axes belong to arrays shifted by half the zone: Gamma keeps its value
    for a, (ks, kk) in enumerate(((g.kx_shift, g.kx), (g.ky_shift, g.ky), (g.kz_shift, g.kz))):
        ctx.close(kk, 2 * np.pi * np.arange(nk[a]) / nk[a], 'axes', f'momenta of axis {a}', rtol=1e-12)
        ctx.close(np.exp(1j * ks), np.exp(1j * np.roll(kk, nk[a] // 2)), 'axes', f'zone-centred momenta of axis {a}', atol=1e-9)
        ctx.true(np.all(np.diff(ks) > 0) and ks[0] >= -np.pi - 1e-9 and ks[-1] < np.pi + 1e-9, 'axes', f'order of zone-centred axis {a}')
    d = int(rng.integers(0, 3))
    ctx.equal(g.get_k_slice(m, d, qv[d]), np.take(keep, qi[d], axis=d), 'slice', f'slice at k_{d}')
    ctx.equal(g.get_k_slice(m, d, qv[d] + 2 * np.pi * per[d]), np.take(keep, qi[d], axis=d), 'slice',
              f'slice at k_{d} in zone {per[d]}')
    ctx.equal(m, keep, 'alias', 'input modified')
    ctx.saw('kpoints', int(np.prod(nk)))


def sc_masks(ctx, rng, i):
    n = int(rng.integers(1, 12)) * 2
    ctx.describe(n=n)
    masks = bz.get_bz_masks(n)
    ctx.true(len(masks) == 4, 'masks')
    m = 1 - np.array(masks)
    ctx.equal(m.sum(0), np.ones((n, n)), 'masks', 'the four quadrants must partition the zone')
    h = n // 2
    for k, (a, b) in enumerate([(1, 0), (1, 1), (0, 0), (0, 1)]):
        ref = np.zeros((n, n))
        ref[a * h:a * h + h, b * h:b * h + h] = 1
        ctx.equal(m[k], ref, 'masks', f'quadrant {k + 1}')
    ctx.saw('masks', 4)


def sc_zeros(ctx, rng, i):
    """zero crossings of a smooth function of k: every returned index is a momentum (ix, iy) in a cell where the function
    changes sign, and every cell edge with a sign change is near one"""
    nx, ny = int(rng.integers(4, 14)), int(rng.integers(4, 14))
    a, b, c = rng.normal(size=3)
    x, y = np.arange(nx)[:, None], np.arange(ny)[None, :]
    kind = i % 3
    if kind == 0:       # straight line, not along a grid line
        f = (x - (nx - 1) * (0.3 + 0.4 * rng.uniform()) - 0.017) * (1 + abs(a)) + b * 0.05 * (y + 0.013)
    elif kind == 1:     # closed pocket, off centre
        f = ((x - 0.45 * nx) / nx) ** 2 + 0.7 * ((y - 0.62 * ny) / ny) ** 2 - 0.11 - 0.003 * c
    else:               # tight-binding band
        f = -2 * np.cos(2 * np.pi * x / nx) - (1.3 + 0.2 * a) * np.cos(2 * np.pi * y / ny + 0.3) + 0.31 + 0.1 * b
    sign = f > 0
    cells = np.zeros((nx, ny), dtype=bool)
    for dx in range(2):
        for dy in range(2):
            cells[:-1, :-1] |= sign[:-1, :-1] != sign[dx:nx - 1 + dx, dy:ny - 1 + dy]
    ctx.describe(nx=nx, ny=ny, kind=kind, par=[round(float(v), 3) for v in (a, b, c)], nontrivial=bool(cells.any()))
    if not cells.any():
        return
    z = f + 1j * rng.normal(size=f.shape) if i % 2 else f     # only the real part decides
    ind = bz.find_zeros(z)
    ctx.true(ind.ndim == 2 and ind.shape[1] == 2, 'zeros', f'indices of shape {ind.shape}')
    ctx.true(np.all(ind >= 0) and np.all(ind[:, 0] < nx) and np.all(ind[:, 1] < ny), 'zeros', 'index outside of the mesh')
    near = np.zeros_like(cells)
    for dx in (-1, 0, 1):
        for dy in (-1, 0, 1):
            near |= np.roll(cells, (dx, dy), axis=(0, 1))
    bad = [tuple(int(v) for v in p) for p in ind if not near[tuple(p)]]
    ctx.true(not bad, 'zeros', f'no sign change near the reported momenta {bad[:5]}')
    hit = np.zeros_like(cells)
    for p in ind:
        hit[max(p[0] - 1, 0):p[0] + 2, max(p[1] - 1, 0):p[1] + 2] = True
    miss = [tuple(int(v) for v in p) for p in np.argwhere(cells & ~hit)]
    ctx.true(not miss, 'zeros', f'sign changes at {miss[:5]} not reported')
    ctx.saw('zero_crossings', len(ind))


SCENARIOS = [('shift', sc_shift, 480, 3000), ('masks', sc_masks, 24, 24), ('zeros', sc_zeros, 240, 1500)]

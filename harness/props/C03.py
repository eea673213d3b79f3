"""C03: reduction to the irreducible Brillouin zone is lossless."""
import itertools

import numpy as np
from dga import brillouin_zone as bz

RULE = ('k-grids nx,ny,nz in 1..9 (even, odd, rectangular) x every subset/ordering class of the supported symmetry '
        'operations incl. the predefined sets; symmetric random tensors of 0-3 trailing axes. Oracle: orbits of the '
        'symmetry group computed by union-find on explicit index maps. Non-trivial: at least two k-points identified')

OPS = ['x-inv', 'y-inv', 'z-inv', 'x-y-sym', 'x-y-inv']
PREDEF = [bz.two_dimensional_square_symmetries, bz.two_dimensional_nematic_symmetries,
          bz.quasi_two_dimensional_square_symmetries, bz.quasi_one_dimensional_square_symmetries,
          bz.simultaneous_x_y_inversion]
# sets for which the in-place minimum construction is a full reduction (one representative per orbit)
COMPLETE = [('x-inv', 'y-inv', 'x-y-sym'), ('x-inv', 'y-inv'), ('x-inv', 'y-inv', 'z-inv', 'x-y-sym'), ('x-inv',),
            ('y-inv',), ('z-inv',), ('x-y-sym',), ('x-inv', 'y-inv', 'z-inv'), ()]


def orbits(nk, syms):
    nk = [int(n) for n in nk]
    n = int(np.prod(nk))
    parent = list(range(n))

    def find(a):
        while parent[a] != a:
            parent[a] = parent[parent[a]]
            a = parent[a]
        return a

    def lin(i, j, k):
        return (i * nk[1] + j) * nk[2] + k

    for i, j, k in itertools.product(range(nk[0]), range(nk[1]), range(nk[2])):
        for s in syms:
            if s == 'x-inv':
                t = ((-i) % nk[0], j, k)
            elif s == 'y-inv':
                t = (i, (-j) % nk[1], k)
            elif s == 'z-inv':
                t = (i, j, (-k) % nk[2])
            elif s == 'x-y-sym':
                if nk[0] != nk[1]:
                    continue
                t = (j, i, k)
            else:
                t = ((-i) % nk[0], (-j) % nk[1], k)
            a, b = find(lin(i, j, k)), find(lin(*t))
            if a != b:
                parent[max(a, b)] = min(a, b)
    return np.array([find(a) for a in range(n)])


def gen(rng, i):
    if i % 3 == 0:
        n = int(rng.integers(1, 9))
        nk = (n, n, int(rng.integers(1, 5)))
    elif i % 3 == 1:
        n = int(rng.integers(2, 9))
        nk = (n, n, 1)
    else:
        nk = tuple(int(x) for x in rng.integers(1, 8, size=3))
    mode = i % 4
    if mode == 0:
        syms = PREDEF[int(rng.integers(0, len(PREDEF)))]()
    elif mode == 1:
        syms = list(COMPLETE[int(rng.integers(0, len(COMPLETE)))])
    else:
        k = int(rng.integers(0, 5))
        syms = [str(s) for s in rng.choice(OPS, size=k, replace=False)]
    if i % 7 == 3:
        syms = tuple(syms)
    return nk, syms


def sc_reduce(ctx, rng, i):
    nk, syms = gen(rng, i)
    orb = orbits(nk, syms)
    ctx.describe(nk=nk, syms=syms, nontrivial=len(np.unique(orb)) < len(orb))
    g = bz.KGrid(nk, syms)
    N = int(np.prod(nk))
    ctx.true(g.nk_tot == N, 'nk_tot')
    lab = np.asarray(g.fbz2irrk)
    ctx.true(lab.shape == tuple(nk), 'shape', 'map of the full zone')
    lab = lab.ravel()
    inv = np.asarray(g.irrk_inv).ravel()
    ind = np.asarray(g.irrk_ind).ravel()
    cnt = np.asarray(g.irrk_count).ravel()
    # soundness: nothing inequivalent is merged, each representative is a member of its class
    ctx.equal(orb[lab], orb, 'unsound', 'a k-point is mapped to an inequivalent one')
    ctx.true(len(inv) == N, 'map', 'every k-point needs a representative')
    ctx.equal(orb[ind[inv]], orb, 'unsound', 'representative inequivalent to its k-point')
    ctx.equal(inv[ind], np.arange(len(ind)), 'map', 'a representative does not represent itself')
    ctx.true(len(set(ind.tolist())) == len(ind) == g.nk_irr, 'map', 'duplicate representatives')
    ctx.equal(np.bincount(inv, minlength=len(ind)), cnt, 'weights', 'multiplicities')
    ctx.true(cnt.sum() == N, 'weights', 'multiplicities do not add up to the number of k-points')
    if tuple(syms) in COMPLETE:
        ctx.true(g.nk_irr == len(np.unique(orb)), 'incomplete', f'{g.nk_irr} representatives for {len(np.unique(orb))} orbits')
    # geometry of grid and representatives
    kk = [np.arange(n) * 2 * np.pi / n for n in nk]
    idx = np.array(np.unravel_index(np.arange(N), nk))
    for ax in range(3):
        ctx.close(g.grid[ax], kk[ax], 'grid', 'k axis', rtol=1e-13)
        ctx.close(g.kmesh[ax].ravel(), kk[ax][idx[ax]], 'grid', 'k mesh', rtol=1e-13)
        ctx.close(g.kmesh_list[ax], kk[ax][idx[ax]], 'grid', 'k mesh list', rtol=1e-13)
        ctx.close(g.irr_kgrid[ax], kk[ax][idx[ax][ind]], 'grid', 'irreducible k mesh', rtol=1e-13)
        # the zone-centred axis names the momenta in the order in which a map rolled by half the mesh shows them
        rolled = np.roll(kk[ax], nk[ax] // 2)
        shifted = np.asarray([g.kx_shift, g.ky_shift, g.kz_shift][ax], dtype=float)
        ctx.close(np.exp(1j * shifted), np.exp(1j * rolled), 'grid', 'shifted axis', rtol=1e-12)
        ctx.true(np.all(np.diff(shifted) > 0) and np.all(np.abs(shifted) <= np.pi + 1e-12), 'grid', 'shifted axis not centred')
        ctx.equal(g.irrk_mesh_ind[ax], idx[ax][ind], 'grid', 'irreducible indices')
    ctx.equal(g.get_q_list(), idx.T, 'qlist', 'list of q-points')
    ctx.equal(g.get_irrq_list(), idx.T[ind], 'qlist', 'list of irreducible q-points')
    if N > 1:
        ctx.equal(np.asarray(g.ind).reshape(N, -1), idx.T, 'qlist', 'index tuples')
    # lossless for symmetric functions, exact momentum sums
    trail = [int(x) for x in rng.integers(1, 4, size=int(rng.integers(0, 4)))]
    vals = rng.normal(size=[N] + trail) + 1j * rng.normal(size=[N] + trail)
    f_list = vals[orb]
    f_mesh = f_list.reshape(list(nk) + trail)
    red = g.map_fbz2irrk(f_mesh)
    ctx.equal(red, f_list[ind], 'reduce', 'mesh -> irreducible')
    ctx.equal(g.map_fbz2irrk(f_mesh, shape='mesh'), red, 'reduce', 'mesh -> irreducible')
    ctx.equal(g.map_fbz2irrk(f_list, shape='list'), red, 'reduce', 'list -> irreducible')
    ctx.equal(g.map_irrk2fbz(red), f_mesh, 'expand', 'irreducible -> mesh')
    ctx.equal(g.map_irrk2fbz(red, shape='list'), f_list, 'expand', 'irreducible -> list')
    mean = f_list.sum(0) / N
    ctx.close(g.k_mean(red, shape='irrk'), mean, 'k_mean', 'irreducible sum', rtol=1e-11)
    ctx.close(g.k_mean(red), mean, 'k_mean', 'default sum', rtol=1e-11)
    for sh in ('mesh', 'fbz-mesh'):
        ctx.close(g.k_mean(f_mesh, shape=sh), mean, 'k_mean', sh, rtol=1e-11)
    for sh in ('list', 'fbz-list'):
        ctx.close(g.k_mean(f_list, shape=sh), mean, 'k_mean', sh, rtol=1e-11)
    ctx.equal(g.map_fbz_mesh2list(f_mesh), f_list, 'mesh2list')
    ctx.equal(g.map_fbz_list2mesh(f_list), f_mesh, 'list2mesh')
    for bad in (lambda: g.map_irrk2fbz(red, shape='foo'), lambda: g.map_fbz2irrk(f_mesh, shape='foo'),
                lambda: g.k_mean(red, shape='foo')):
        ctx.raises(bad, 'shape-unknown', 'unknown layout', ValueError)
    # symmetrisation of an arbitrary function: average over each class
    arb = rng.normal(size=[N] + trail)
    ref = np.zeros_like(arb)
    for c in range(len(ind)):
        ref[inv == c] = arb[inv == c].mean(0)
    ctx.close(g.symmetrize_irrk(arb.reshape(list(nk) + trail)), ref.reshape(list(nk) + trail), 'symmetrize',
              'average over equivalent k-points', rtol=1e-11)
    ctx.saw('kpoints', N)
    ctx.saw('representatives', len(ind))


def sc_inplace(ctx, rng, i):
    """symmetry operations themselves: result is invariant, fixed points untouched"""
    nk = tuple(int(x) for x in rng.integers(1, 8, size=3))
    if i % 2:
        nk = (nk[0], nk[0], nk[2])
    syms = list(COMPLETE[int(rng.integers(0, len(COMPLETE)))])
    trail = [2] if i % 3 == 0 else []
    ctx.describe(nk=nk, syms=syms, trail=trail)
    N = int(np.prod(nk))
    orb = orbits(nk, syms)
    m = np.arange(N).reshape(nk)
    if trail:
        m = np.stack([m, m + 1000], axis=-1)
    bz.apply_symmetries(m, syms)
    ref = orb.reshape(nk)
    if trail:
        ref = np.stack([ref, ref + 1000], axis=-1)
    ctx.equal(m, ref, 'apply', 'symmetry image is the smallest member of the orbit')
    ctx.raises(lambda: bz.apply_symmetries(np.zeros((2, 2, 1)), ['w-inv']), 'sym-unknown', 'unknown symmetry', Exception)
    ctx.raises(lambda: bz.apply_symmetries(np.zeros((2, 2)), ['x-inv']), 'sym-rank', 'two-dimensional input', Exception)
    ctx.saw('kpoints', N)


SCENARIOS = [('reduce', sc_reduce, 1800, 3000), ('inplace', sc_inplace, 720, 1500)]

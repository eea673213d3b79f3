"""C14: momentum-dependent vertices through the per-rank files: exact for every number of ranks, channel order, frequency sign."""
from types import SimpleNamespace

import numpy as np
from dga import brillouin_zone as bz
from dga import bubble as bub
from dga import config
from dga import four_point as fp
from dga import high_level_routines as hlr
from dga import local_four_point as lfp
from dga import mpi_aux
from dga import optics
from harness.env import FakeComm, Log, no_plots, scratch
from harness.props.C11 import make_lfp
from harness.props.C13 import lattice
from harness.vertex import UR, pad, rand_gamma, solve_box
from harness import gen

RULE = ('random auxiliary susceptibilities and three-leg vertices on random grids and symmetry sets, written by 1-7 '
        'simulated ranks in random order to a scratch folder and assembled by the production routines; physical runs '
        'compare the assembled vertex with the explicit inversion per (q,w). Non-trivial: more than one rank')


def cfg_for(rng, grid, beta, u, niw, niv, path, pairing=False, opt=False, fq=True, cond=None, vert=None):
    o = config.OpticsConfig()
    o.output_path = path
    o.do_vertex = opt
    if opt:
        o.niw_vert, o.niw_cond = vert, cond
        o.niv_vert = niv - cond
    e = config.EliashbergConfig()
    e.output_path = path
    e.do_pairing_vertex = pairing
    c = config.OutputConfig()
    c.output_path = path
    c.pdir = path
    c.logger = Log()
    c.comm = FakeComm()
    box = config.BoxSizes({'niw_core': niw, 'niv_core': niv, 'niv_shell': 0})
    c.box, c.optics, c.eliash, c.save_fq, c.verbosity = box, o, e, fq, 0
    c.sys = SimpleNamespace(beta=beta, u=u)
    c.lattice = SimpleNamespace(q_grid=grid, k_grid=grid, nk_tot=grid.nk_tot, nq_tot=grid.nk_tot)
    return c


def rand_grid(rng, i):
    if i % 3 == 0:
        nk = (int(rng.integers(1, 5)),) * 2 + (1,)
        return bz.KGrid(nk, bz.two_dimensional_square_symmetries())
    nk = tuple(int(x) for x in rng.integers(1, 5, size=3))
    while np.prod(nk) > 20:
        nk = tuple(max(1, n - 1) for n in nk)
    return bz.KGrid(nk, [('x-inv', 'y-inv'), ()][i % 2])


def fbz_map(grid):
    """irreducible index of every momentum of the full mesh, from the grid's own (checked in C03) list of coordinates"""
    lab = grid.map_irrk2fbz(np.arange(grid.nk_irr, dtype=float), shape='mesh')
    return lab.astype(int)


def rank_writes(rng, ntasks, size, path, fn):
    ranks = list(range(size))
    rng.shuffle(ranks)
    for r in ranks:
        fn(mpi_aux.MpiDistributor(ntasks=ntasks, comm=FakeComm(r, size), output_path=path, name='Q'))


def sc_random(ctx, rng, i):
    grid = rand_grid(rng, i)
    nq = grid.nk_irr
    niv = int(rng.integers(1, 6))
    niw = int(rng.integers(0, 5))
    if i % 10 >= 8:  # as many bosonic frequencies as need more digits in the labels
        grid = bz.KGrid((2, 2, 1), ())
        nq, niv = grid.nk_irr, int(rng.integers(1, 3))
        niw = int(rng.integers(10, 130))
    size = int(rng.integers(1, min(8, nq + 1)))
    beta, u = float(rng.uniform(1, 20)), float(rng.uniform(.5, 4)) * (-1 if i % 7 == 5 else 1)
    kind = ('fq', 'optics')[i % 2]
    cond = int(rng.integers(0, niv))
    vert = int(rng.integers(0, niw + 1)) if niw < 10 else niw
    ctx.describe(nontrivial=size > 1, kind=kind, nk=grid.nk, nq=nq, niw=niw, niv=niv, ranks=size, cond=cond, vert=vert)
    wn = np.arange(-niw, niw + 1)
    x0 = gen.crandn(rng, nq, len(wn), 2 * niv) + 2
    aux = {c: gen.crandn(rng, nq, len(wn), 2 * niv, 2 * niv) for c in ('dens', 'magn')}
    vrg = {c: gen.crandn(rng, nq, len(wn), 2 * niv) for c in ('dens', 'magn')}
    chi = {c: gen.crandn(rng, *grid.nk, len(wn)) for c in ('dens', 'magn')}
    order = ['dens', 'magn'] if i % 4 < 2 else ['magn', 'dens']
    with scratch() as path, no_plots():
        cfg = cfg_for(rng, grid, beta, u, niw, niv, path, opt=kind == 'optics', cond=cond, vert=vert)
        writer = fp.write_vertex_components if kind == 'fq' else optics.write_optics_vertex_components

        def job(dist):
            s = dist.my_slice
            for c in order:
                writer(cfg, dist, c, aux[c][s], vrg[c][s], x0[s])
        rank_writes(rng, nq, size, path, job)
        comm = FakeComm(0, size)
        if kind == 'fq':
            fp.build_vertex_fq(cfg, comm, chi['magn'], chi['dens'])
            got = {c: np.load(path + f'F_{c}.npy') for c in ('dens', 'magn')}
        else:
            optics.build_vertex_for_optical_conductivity(cfg, comm, chi['magn'], chi['dens'])
            got = {'cond': np.load(path + 'F_cond.npy')}
        if kind == 'fq':
            g1 = cfg.load_data('F_dens')
            if np.size(g1) > 1:
                ctx.equal(g1, got['dens'], 'reload', 'F_dens through load_data')
    lab = fbz_map(grid)
    full = {}
    for c in ('dens', 'magn'):
        ur = UR[c] * u
        ref = np.empty(grid.nk + (len(wn), 2 * niv, 2 * niv), dtype=complex)
        for k in np.ndindex(*grid.nk):
            q = lab[k]
            for j in range(len(wn)):
                f1 = beta ** 2 * (np.diag(1 / x0[q, j]) - aux[c][q, j] / np.outer(x0[q, j], x0[q, j]))
                ref[k][j] = f1 + ur * (1 - ur * chi[c][k][j]) * np.outer(vrg[c][q, j], vrg[c][q, j])
        full[c] = ref
    if kind == 'fq':
        for c in ('dens', 'magn'):
            ctx.close(got[c], full[c], 'fq', f'full vertex {c}', rtol=1e-10)
            ctx.saw('vertex_slices', len(wn) * grid.nk_tot)
    else:
        ref = np.empty(grid.nk + (2 * vert + 1, cond + 1, 2 * (niv - cond)), dtype=complex)
        m = niv - cond
        for jw, w in enumerate(range(-vert, vert + 1)):
            for wc in range(cond + 1):
                for v in range(-m, m):
                    f = {c: full[c][..., niw + w, niv + v, niv + v - wc] for c in full}
                    ref[..., jw, wc, m + v] = -.5 * f['dens'] - 1.5 * f['magn']
        ctx.close(got['cond'], ref, 'f-cond', 'current vertex F(q,w\',v,v-w)', rtol=1e-10)
        ctx.saw('vertex_slices', ref.size)


def sc_physical(ctx, rng, i):
    """the production driver writes what the explicit inversion of the ladder gives, for both channels"""
    wmax = int(rng.integers(0, 3))
    wn = np.arange(-wmax, wmax + 1)
    niv, shell = int(rng.integers(1, 5)), int(rng.integers(0, 8))
    nf = niv + shell
    u = float(rng.uniform(.3, 2))
    nk, beta, ek, g = lattice(rng, wmax, nf, sym=True, kdep=True)
    grid = bz.KGrid(nk, bz.two_dimensional_square_symmetries() if i % 2 == 0 else ())
    size = int(rng.integers(1, min(5, grid.nk_irr + 1)))  # no rank without momenta: config.py refuses such runs
    ctx.describe(nontrivial=size > 1, nk=nk, wmax=wmax, niv=niv, shell=shell, ranks=size, u=round(u, 3), sym=i % 2 == 0)
    b = bub.BubbleGenerator(wn, g, is_full_wn=True)
    irr = [tuple(int(x) for x in q) for q in grid.get_irrq_list()]
    x0 = b.get_gchi0_q_list(nf, irr)
    core = slice(shell, shell + 2 * niv)
    chi0, chi0c = x0.sum(-1) / beta ** 2, x0[..., core].sum(-1) / beta ** 2
    ref, chis, gams, cond = {}, {}, {}, 1
    for ch in ('dens', 'magn'):
        ur = UR[ch] * u
        gam = rand_gamma(rng, wn, niv, beta, u, ch)
        gams[ch] = make_lfp(ch, gam.copy(), beta, u, wn, True)
        gf = pad(gam, ur / beta ** 2, nf)
        x = np.array([solve_box(gf, x0[m]) for m in range(len(irr))])
        f = beta ** 2 / x0[..., :, None] * (np.eye(2 * nf) - x / x0[..., None, :])
        ref[ch] = f[..., core, core]
        chi = x.sum(axis=(-1, -2)) / beta ** 2
        cond = max(cond, np.max(np.abs(x)) * np.max(np.abs(1 / x0)), np.max(1 / np.abs(1 - ur * chi)) ** 2)
    if cond > 1e6:
        ctx.true(True, 'ill')
        ctx.saw('ill_conditioned')
        return
    with scratch() as path, no_plots():
        cfg = cfg_for(rng, grid, beta, u, wmax, niv, path)
        cfg.box.niv_shell = shell
        chi_irr = {c: np.empty((len(irr), len(wn)), dtype=complex) for c in ref}

        def job(dist):
            s = dist.my_slice
            for ch in ('dens', 'magn'):
                _, c = hlr.construct_vrg_and_chi_q_urange(gams[ch], x0[s][..., core], chi0[s], chi0c[s], cfg, dist)
                chi_irr[ch][s] = c
        rank_writes(rng, len(irr), size, path, job)
        mesh = {c: grid.map_irrk2fbz(chi_irr[c]) for c in ref}
        fp.build_vertex_fq(cfg, FakeComm(0, size), mesh['magn'], mesh['dens'])
        got = {c: np.load(path + f'F_{c}.npy') for c in ref}
    lab = fbz_map(grid)
    for c in ref:
        ctx.close(got[c], ref[c][lab], 'physical', f'{c} vertex on disk vs inversion of the ladder', rtol=1e-8 * cond,
                  scale=np.max(np.abs(beta ** 2 / x0)))
        ctx.saw('vertex_slices', len(wn) * grid.nk_tot)


def sc_many(ctx, rng, i):
    """more momenta and ranks than fit the digits of any label"""
    nk = [(11, 10, 10), (34, 33, 1), (101, 10, 1)][i % 3]
    grid = bz.KGrid(nk, ())
    nq, size, niv, niw = grid.nk_irr, int(rng.integers(10, 13)), 2, 0
    beta, u = float(rng.uniform(1, 20)), float(rng.uniform(.5, 4))
    ctx.describe(nk=nk, nq=nq, ranks=size)
    x0 = gen.crandn(rng, nq, 1, 2 * niv) + 2
    aux = {c: gen.crandn(rng, nq, 1, 2 * niv, 2 * niv) for c in ('dens', 'magn')}
    vrg = {c: gen.crandn(rng, nq, 1, 2 * niv) for c in ('dens', 'magn')}
    chi = {c: gen.crandn(rng, *nk, 1) for c in ('dens', 'magn')}
    got = {}
    for kind in ('fq', 'optics'):
        with scratch() as path, no_plots():
            cfg = cfg_for(rng, grid, beta, u, niw, niv, path, opt=kind == 'optics', cond=1, vert=0)
            writer = fp.write_vertex_components if kind == 'fq' else optics.write_optics_vertex_components

            def job(dist):
                s = dist.my_slice
                for c in ('dens', 'magn'):
                    writer(cfg, dist, c, aux[c][s], vrg[c][s], x0[s])
            rank_writes(rng, nq, size, path, job)
            if kind == 'fq':
                fp.build_vertex_fq(cfg, FakeComm(0, size), chi['magn'], chi['dens'])
                got.update({c: np.load(path + f'F_{c}.npy') for c in ('dens', 'magn')})
            else:
                optics.build_vertex_for_optical_conductivity(cfg, FakeComm(0, size), chi['magn'], chi['dens'])
                got['cond'] = np.load(path + 'F_cond.npy')
    lab = fbz_map(grid)
    ref = {}
    for c in ('dens', 'magn'):
        ur = UR[c] * u
        f1 = beta ** 2 * (np.eye(2 * niv) / x0[..., None] - aux[c] / (x0[..., :, None] * x0[..., None, :]))
        f2 = ur * vrg[c][..., :, None] * vrg[c][..., None, :]
        ref[c] = f1[lab] + (1 - ur * chi[c])[..., None, None] * f2[lab]
        ctx.close(got[c], ref[c], 'fq', f'full vertex {c} of many momenta', rtol=1e-10)
    full = -.5 * ref['dens'] - 1.5 * ref['magn']
    want = np.empty(tuple(nk) + (1, 2, 2), dtype=complex)
    for wc in range(2):
        for v in (-1, 0):
            want[..., wc, 1 + v] = full[..., niv + v, niv + v - wc]
    ctx.close(got['cond'], want, 'f-cond', 'current vertex of many momenta', rtol=1e-10)
    ctx.saw('vertex_slices', grid.nk_tot)


SCENARIOS = [('random', sc_random, 40, 300), ('physical', sc_physical, 12, 100), ('many', sc_many, 1, 6)]

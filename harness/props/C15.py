"""C15: particle-particle (pairing) vertex assembled from the per-rank files."""
import numpy as np
from dga import brillouin_zone as bz
from dga import bubble as bub
from dga import high_level_routines as hlr
from dga import local_four_point as lfp
from dga import mpi_aux
from dga import pairing_vertex as pv
from harness.env import FakeComm, no_plots, scratch
from harness import gen
from harness.props.C11 import make_lfp
from harness.props.C13 import lattice
from harness.props.C14 import cfg_for, fbz_map, rand_grid, rank_writes
from harness.vertex import UR, pad, rand_gamma, solve_box

RULE = ('random auxiliary susceptibilities / three-leg vertices (and physical ladder ones) written by 1-7 simulated ranks; '
        'oracle: explicit formula P(q,v,v\')=herm. part of -F(q,v-v\',v,-v\') entry by entry. Non-trivial: pp box >= 2')


def pp_reference(full, niw, niv, npp):
    """full[c][k][w,v,v'] -> pairing vertex of channel c: hermitian part in (v,v') of -F_{v-v'}(v,-v')"""
    out = {}
    for c, f in full.items():
        d = np.empty(f.shape[:3] + (2 * npp, 2 * npp), dtype=complex)
        for v in range(-npp, npp):
            for vp in range(-npp, npp):
                d[..., npp + v, npp + vp] = -f[..., niw + v - vp, niv + v, niv - vp - 1]
        out[c] = d
    return out


def herm(d):
    return 0.5 * (d + np.conj(np.swapaxes(d, -1, -2)))


def check(ctx, got_s, got_t, parts, chi, u, niw, niv, npp, rtol, scale=None):
    # f1 and f2 are made Hermitian, chi(q,w) multiplies with w = v-v'
    f = {}
    for c in ('dens', 'magn'):
        d1 = herm(pp_reference({c: parts[c][0]}, niw, niv, npp)[c])
        d2 = herm(pp_reference({c: parts[c][1]}, niw, niv, npp)[c])
        w = np.arange(-npp, npp)
        x = chi[c][..., niw + w[:, None] - w[None, :]]
        f[c] = d1 + (1 - UR[c] * u * x) * d2
    ctx.close(got_s, 1.5 * f['magn'] - .5 * f['dens'], 'singlet', 'singlet pairing vertex', rtol=rtol, scale=scale)
    ctx.close(got_t, .5 * f['magn'] + .5 * f['dens'], 'triplet', 'triplet pairing vertex', rtol=rtol, scale=scale)
    ctx.close(got_s, np.conj(np.swapaxes(got_s, -1, -2)), 'hermitian', 'singlet vertex Hermitian in frequencies', rtol=rtol * 10, scale=scale)
    ctx.saw('entries', got_s.size)


def sc_many(ctx, rng, i):
    """more momenta and ranks than fit the digits of any label"""
    random_case(ctx, rng, i, bz.KGrid([(34, 33, 1), (11, 10, 10), (101, 10, 1)][i % 3], ()), 2, 2, int(rng.integers(10, 13)))


def sc_random(ctx, rng, i):
    random_case(ctx, rng, i, rand_grid(rng, i), int(rng.integers(2, 8)), int(rng.integers(2, 9)), int(rng.integers(1, 8)))


def random_case(ctx, rng, i, grid, niv, niw, size):
    nq = grid.nk_irr
    npp = min(niw // 2, niv // 2)
    size = min(size, nq)
    beta, u = float(rng.uniform(1, 20)), float(rng.uniform(.5, 4)) * (-1 if i % 7 == 5 else 1)
    ctx.describe(nontrivial=npp > 1, nk=grid.nk, nq=nq, niw=niw, niv=niv, ranks=size)
    wn = np.arange(-niw, niw + 1)
    x0 = gen.crandn(rng, nq, len(wn), 2 * niv) + 2
    aux = {c: gen.crandn(rng, nq, len(wn), 2 * niv, 2 * niv) for c in ('dens', 'magn')}
    vrg = {c: gen.crandn(rng, nq, len(wn), 2 * niv) for c in ('dens', 'magn')}
    chi = {}
    for c in ('dens', 'magn'):
        m = gen.crandn(rng, *grid.nk, len(wn))
        chi[c] = .5 * (m + np.conj(m[..., ::-1]))
    order = ['dens', 'magn'] if i % 4 < 2 else ['magn', 'dens']
    with scratch() as path, no_plots():
        cfg = cfg_for(rng, grid, beta, u, niw, niv, path)
        ctx.true(cfg.box.niv_pp == npp, 'box', 'pp box size')

        def job(dist):
            s = dist.my_slice
            for c in order:
                pv.write_pairing_vertex_components(cfg, dist, c, aux[c][s], vrg[c][s], x0[s])
        rank_writes(rng, nq, size, path, job)
        pv.build_pairing_vertex(cfg, FakeComm(0, size), chi['magn'], chi['dens'])
        gs, gt = np.load(path + 'F_sing_pp.npy'), np.load(path + 'F_trip_pp.npy')
    lab = fbz_map(grid)
    parts = {}
    for c in ('dens', 'magn'):
        f1 = beta ** 2 * (np.eye(2 * niv) / x0[..., :, None] - aux[c] / (x0[..., :, None] * x0[..., None, :]))
        f2 = UR[c] * u * vrg[c][..., :, None] * vrg[c][..., None, :]
        parts[c] = (f1[lab], f2[lab])
    check(ctx, gs, gt, parts, chi, u, niw, niv, npp, 1e-10)


def sc_physical(ctx, rng, i):
    """driver writes pairing pieces and (optionally at the same time) the other vertices; result = explicit ladder vertex"""
    wmax = int(rng.integers(2, 6))
    wn = np.arange(-wmax, wmax + 1)
    niv, shell = int(rng.integers(2, 6)), int(rng.integers(0, 8))
    npp = min(wmax // 2, niv // 2)
    nf = niv + shell
    u = float(rng.uniform(.3, 2))
    nk, beta, ek, g = lattice(rng, wmax, nf, sym=True)
    grid = bz.KGrid(nk, bz.two_dimensional_square_symmetries() if i % 2 == 0 else ())
    size = int(rng.integers(1, min(5, grid.nk_irr + 1)))  # no rank without momenta: config.py refuses such runs
    both = bool(rng.integers(0, 2))
    ctx.describe(nontrivial=npp > 1, nk=nk, wmax=wmax, niv=niv, shell=shell, ranks=size, u=round(u, 3), sym=i % 2 == 0, both=both)
    b = bub.BubbleGenerator(wn, g, is_full_wn=True)
    irr = [tuple(int(x) for x in q) for q in grid.get_irrq_list()]
    x0 = b.get_gchi0_q_list(nf, irr)
    core = slice(shell, shell + 2 * niv)
    chi0, chi0c = x0.sum(-1) / beta ** 2, x0[..., core].sum(-1) / beta ** 2
    full, gams, cond = {}, {}, 1
    lab = fbz_map(grid)
    for ch in ('dens', 'magn'):
        ur = UR[ch] * u
        gam = rand_gamma(rng, wn, niv, beta, u, ch)
        gams[ch] = make_lfp(ch, gam.copy(), beta, u, wn, True)
        gf = pad(gam, ur / beta ** 2, nf)
        x = np.array([solve_box(gf, x0[m]) for m in range(len(irr))])
        f = beta ** 2 / x0[..., :, None] * (np.eye(2 * nf) - x / x0[..., None, :])
        full[ch] = f[..., core, core][lab]
        chi = x.sum(axis=(-1, -2)) / beta ** 2
        cond = max(cond, np.max(np.abs(x)) * np.max(np.abs(1 / x0)), np.max(1 / np.abs(1 - ur * chi)) ** 2)
    if cond > 1e6:
        ctx.true(True, 'ill')
        ctx.saw('ill_conditioned')
        return
    with scratch() as path, no_plots():
        cfg = cfg_for(rng, grid, beta, u, wmax, niv, path, pairing=True, fq=both, opt=both, cond=1, vert=wmax)
        cfg.box.niv_shell = shell
        chi_irr = {c: np.empty((len(irr), len(wn)), dtype=complex) for c in full}

        def job(dist):
            s = dist.my_slice
            for ch in ('dens', 'magn'):
                _, c = hlr.construct_vrg_and_chi_q_urange(gams[ch], x0[s][..., core], chi0[s], chi0c[s], cfg, dist)
                chi_irr[ch][s] = c
        rank_writes(rng, len(irr), size, path, job)
        mesh = {c: grid.map_irrk2fbz(chi_irr[c]) for c in full}
        pv.build_pairing_vertex(cfg, FakeComm(0, size), mesh['magn'], mesh['dens'])
        gs, gt = np.load(path + 'F_sing_pp.npy'), np.load(path + 'F_trip_pp.npy')
    d = pp_reference(full, wmax, niv, npp)
    d = {c: herm(x) for c, x in d.items()}
    sc = np.max(np.abs(beta ** 2 / x0))
    rt = 1e-8 * cond
    ctx.close(gs, 1.5 * d['magn'] - .5 * d['dens'], 'physical', 'singlet vertex of the ladder', rtol=rt, scale=sc)
    ctx.close(gt, .5 * d['magn'] + .5 * d['dens'], 'physical', 'triplet vertex of the ladder', rtol=rt, scale=sc)
    ctx.saw('entries', gs.size)


SCENARIOS = [('random', sc_random, 36, 300), ('physical', sc_physical, 10, 100), ('many', sc_many, 1, 6)]

"""C13: ladder susceptibilities, three-leg vertices, full vertex and lattice Schwinger-Dyson equation."""
import numpy as np
from dga import brillouin_zone as bz
from dga import bubble as bub
from dga import four_point as fp
from dga import high_level_routines as hlr
from dga import local_four_point as lfp
from dga import two_point as tp
from types import SimpleNamespace
from harness import gen
from harness.props.C11 import make_lfp
from harness.props.C12 import fake_cfg
from harness.vertex import UR, pad, rand_gamma, solve_box

RULE = ('random local vertices on random lattices (1 to 3 dimensions, k-dependent self-energies), momentum lists (full, '
        'irreducible, arbitrary subsets, any partition); oracle: explicit inversion per (q,w) in the full fermionic box '
        'and explicit momentum/frequency sums of the equation of motion; flat-band limit against the local solution. '
        'Non-trivial: more than one q')


def lattice(rng, wmax, nfull, flat=False, sym=None, kdep=True):
    beta = float(rng.uniform(1.5, 8))
    s = gen.PoleSigma(rng)
    if sym is not None:
        n = int(rng.integers(1, 4)) * 2
        nk = (n, n, 1)
        ek = gen.square_ek(nk, 1.0, float(rng.uniform(-.4, .4)), 0.1)
    else:
        nk = gen.rand_nk(rng, 1, 4)
        ek = gen.square_ek(nk, 1.0, float(rng.uniform(-.4, .4)), 0.1, tx=float(rng.uniform(.3, 1.3)))
    ek = ek - ek.mean()
    if flat:
        ek = 0 * ek
    n = nfull + wmax + int(rng.integers(2, 12))
    sig = s(gen.iv(beta, n))[None, None, None, :]
    if kdep and not flat:
        mod = 1 + 0.2 * (rng.normal(size=nk) if sym is None else np.cos(ek))
        sig = s.h + mod[..., None] * (sig - s.h)
    so = tp.SelfEnergy(sig, beta, smom0=s.h, smom1=s.mom1, niv_core=n)
    g = tp.GreensFunction(so, ek, mu=float(rng.normal() * .6 + s.h), niv_asympt=0)
    return nk, beta, ek, g


def roll_q(G, q):
    return np.roll(G, [-x for x in q], axis=(0, 1, 2))


def bubble_q(G, beta, wn, nf, q):
    N = G.shape[-1] // 2
    Gq = roll_q(G, q)
    return np.array([-beta * np.mean(G[..., N - nf:N + nf] * Gq[..., N - nf - w:N + nf - w], axis=(0, 1, 2)) for w in wn])


def sde_q(kern, G, beta, qs, wn, nq):
    n = kern.shape[-1] // 2
    N = G.shape[-1] // 2
    out = np.zeros(G.shape[:3] + (2 * n,), dtype=complex)
    for i, q in enumerate(qs):
        Gq = roll_q(G, q)
        for j, w in enumerate(wn):
            out += kern[i, j] * Gq[..., N - n - w:N + n - w]
    return out / beta / nq


def well(ctx, cond):
    rt = 1e-11 * cond + 1e-9
    if rt > 1e-4:
        ctx.true(True, 'ill-conditioned')
        ctx.saw('ill_conditioned')
    return rt


def sc_ladder(ctx, rng, i):
    wmax = int(rng.integers(0, 4))
    wn = np.arange(-wmax, wmax + 1)
    niv, shell = int(rng.integers(1, 7)), 0 if i % 4 == 0 else int(rng.integers(1, 15))
    nf = niv + shell
    u = float(rng.uniform(.3, 2.5))
    nk, beta, ek, g = lattice(rng, wmax, nf)
    G = np.array(g.g_full())
    nq = int(np.prod(nk))
    allq = [tuple(int(x) for x in q) for q in np.ndindex(*nk)]
    sel = sorted(rng.choice(nq, size=min(nq, 5), replace=False))
    qs = [allq[j] for j in sel]
    sym = bool(rng.integers(0, 2))
    core = slice(shell, shell + 2 * niv)
    ctx.describe(nontrivial=len(qs) > 1, nk=nk, wmax=wmax, niv=niv, shell=shell, u=round(u, 3), beta=round(beta, 3), q=qs, sym=sym)
    b = bub.BubbleGenerator(wn, g, is_full_wn=True)
    x0 = b.get_gchi0_q_list(nf, qs)
    ctx.close(x0, np.array([bubble_q(G, beta, wn, nf, q) for q in qs]), 'bubble', 'lattice bubble', rtol=1e-9)
    x0c = x0[..., core]
    chi0, chi0c = x0.sum(-1) / beta ** 2, x0c.sum(-1) / beta ** 2
    for ch in ('dens', 'magn'):
        ur = UR[ch] * u
        gam = rand_gamma(rng, wn, niv, beta, u, ch, sym=sym)
        og = make_lfp(ch, gam.copy(), beta, u, wn, True)
        gf = pad(gam, ur / beta ** 2, nf)
        x = np.array([solve_box(gf, x0[m]) for m in range(len(qs))])
        chi = x.sum(axis=(-1, -2)) / beta ** 2
        rt = well(ctx, max(np.max(np.abs(x)) * np.max(np.abs(1 / x0)), np.max(1 / np.abs(1 - ur * chi)) ** 2))
        if rt > 1e-4:
            return
        vrg = x.sum(-1) / x0 / (1 - ur * chi)[..., None]
        aux = fp.get_gchir_aux_from_gammar_q(og, x0c)
        chia = aux.sum(axis=(-1, -2)) / beta ** 2
        ca = fp.chi_phys_from_chi_aux_q(chia, chi0, chi0c, u, ch)
        sc = np.max(np.abs(chi)) + np.max(np.abs(chi0))
        ctx.close(ca, chi, 'chi', f'{ch} ladder susceptibility', rtol=10 * rt, scale=sc)
        va = fp.vrg_from_gchi_aux(aux, x0c)
        ctx.close(va, vrg[..., core], 'vrg', f'{ch} three-leg vertex', rtol=100 * rt)
        casy = fp.chi_phys_asympt_q(ca, chi0, chi0 + 0.1)
        ctx.close(casy, chi + 0.1, 'completed', 'susceptibility completed by the missing bubble', rtol=10 * rt, scale=sc + .1)
        if np.min(np.abs(1 - ur * casy)) > 1e-3:
            vas = fp.vrg_from_gchi_aux_asympt(aux, x0c, ca, casy, u, ch)
            ctx.close(vas * (1 - ur * casy)[..., None], (vrg * (1 - ur * chi)[..., None])[..., core], 'completed', 'three-leg vertex', rtol=1000 * rt)
        f1, f2 = fp.ladder_vertex_from_chi_aux_components(aux, va, x0c, beta, ur)
        f = (1 / x0[..., :, None]) * (np.eye(2 * nf) - x / x0[..., None, :])
        tot = (f1 + (1 - ur * ca[..., None, None]) * f2) / beta ** 2
        ctx.true(f1.shape == aux.shape and f2.shape == aux.shape, 'shape')
        if sym:
            ctx.close(tot, f[..., core, core], 'full-vertex', f'{ch} ladder vertex', rtol=1000 * rt, scale=np.max(np.abs(1 / x0)))
        # core-only BSE and the lambda route from the core of X
        xo = fp.get_gchir_from_gamma_loc_q(og, x0c)
        ctx.close(xo, np.array([solve_box(gam, x0c[m]) for m in range(len(qs))]), 'bse', f'{ch} BSE in the core', rtol=rt * 10)
        xc = x[..., core, core]
        lam = fp.lam_from_chir_q(xc, x0c, ch)
        sh = chi0 - chi0c
        small = min(np.min(np.abs(1 + ur * sh)), np.min(np.abs(1 - (u * sh) ** 2)))
        if small > 1e-3:
            lt = fp.get_lam_tilde(lam, sh, u, ch)
            ct = fp.chir_tilde(xc.sum(axis=(-1, -2)) / beta ** 2, lt, sh, x0c, beta, u, ch)
            ctx.close(ct, chi, 'lambda-route', f'{ch} susceptibility', rtol=100 * rt / small, scale=sc)
            ctx.close(fp.vrg_q_tilde(lt, ct, u, ch), vrg[..., core], 'lambda-route', f'{ch} vertex', rtol=1000 * rt / small)
        cfg = fake_cfg(beta, wn, niv, shell, 1.0, None)
        cfg.sys.u = u
        cfg.eliash = cfg.optics = SimpleNamespace(do_pairing_vertex=False, do_vertex=False)
        cfg.save_fq = False
        v2, c2 = hlr.construct_vrg_and_chi_q_urange(og, x0c, chi0, chi0c, cfg, None)
        ctx.close(c2, chi, 'driver', f'{ch} susceptibility of the driver routine', rtol=10 * rt, scale=sc)
        ctx.close(v2, vrg[..., core], 'driver', f'{ch} vertex of the driver routine', rtol=100 * rt)
        ctx.equal(og.mat, gam, 'alias', 'Gamma modified')
        ctx.saw('inversions', len(qs) * len(wn))


def sc_sde(ctx, rng, i):
    """kernel and momentum sums of the equation of motion; any distribution of q-points; flat-band limit"""
    wmax = int(rng.integers(0, 3))
    wn = np.arange(-wmax, wmax + 1)
    niv, shell = int(rng.integers(1, 6)), int(rng.integers(0, 12))
    nf = niv + shell
    u = float(rng.uniform(.3, 2.5))
    flat = i % 3 == 0
    nk, beta, ek, g = lattice(rng, 2 * wmax, nf, flat=flat)
    G = np.array(g.g_full())
    if flat:
        G = np.broadcast_to(G, tuple(nk) + G.shape[3:]).copy()
    nq = int(np.prod(nk))
    qs = [tuple(int(x) for x in q) for q in np.ndindex(*nk)]
    core = slice(shell, shell + 2 * niv)
    ctx.describe(nontrivial=nq > 1, nk=nk, wmax=wmax, niv=niv, shell=shell, u=round(u, 3), beta=round(beta, 3), flat=flat)
    b = bub.BubbleGenerator(wn, g, is_full_wn=True)
    x0 = np.array([bubble_q(G, beta, wn, nf, q) for q in qs])
    x0l = b.get_gchi0(nf)
    chi, V, kref, L = {}, {}, {}, {}
    cond = 1
    for ch in ('dens', 'magn'):
        ur = UR[ch] * u
        gam = rand_gamma(rng, wn, niv, beta, u, ch)
        og = make_lfp(ch, gam, beta, u, wn, True)
        gf = pad(gam, ur / beta ** 2, nf)
        x = np.array([solve_box(gf, x0[m]) for m in range(nq)])
        chi[ch] = x.sum(axis=(-1, -2)) / beta ** 2
        V[ch] = (x.sum(-1) / x0 / (1 - ur * chi[ch])[..., None])[..., core]
        cond = max(cond, np.max(np.abs(x)) * np.max(np.abs(1 / x0)), np.max(1 / np.abs(1 - ur * chi[ch])) ** 2)
        kref[ch] = ur / 2 * (1 - x.sum(-1) / x0)[..., core]  # = u_r/2 sum_v' F X0
        vl, cl = lfp.get_vrg_and_chir_tilde_from_gammar_urange(og, b, niv_shell=shell)
        fl = lfp.fob2_from_gamob2_urange(og, x0l)
        cond = max(cond, np.max(1 / np.abs(1 - ur * cl)) ** 2)
        L[ch] = (vl, cl, fl)
    rt = well(ctx, cond)
    if rt > 1e-4:
        return
    sc = max(np.max(np.abs(kref[c])) for c in kref) + u
    for ch in ('dens', 'magn'):
        ctx.close(fp.get_kernel(V[ch], chi[ch], u, ch), kref[ch], 'kernel', f'{ch} kernel', rtol=100 * rt, scale=sc)
    fm = L['magn'][2]
    dc = np.zeros((nq, len(wn), 2 * nf), dtype=complex)
    for m in range(nq):
        for j in range(len(wn)):
            dc[m, j] = -u * (fm.mat[j] @ x0[m, j])
    kd = fp.get_kernel_dc(fm, x0)
    ctx.close(kd, dc, 'dc-kernel', 'double-counting kernel', rtol=1e-9)
    # a local vertex with statistical noise is not symmetric in v and v': the inner frequency is the one contracted
    noisy = fm.mat * (1 + .1 * (rng.normal(size=fm.mat.shape) + 1j * rng.normal(size=fm.mat.shape)))
    fno = lfp.LocalFourPoint('magn', noisy, beta, u, wn, True) if i % 2 else lfp.LocalFourPoint('dens', noisy, beta, u, wn)
    ref = np.array([[UR[fno.channel] * u * (noisy[j] @ x0[m, j]) for j in range(len(wn))] for m in range(nq)])
    ctx.close(fp.get_kernel_dc(fno, x0), ref, 'dc-kernel', 'contraction over the inner frequency, asymmetric vertex', rtol=1e-9)
    cfg = fake_cfg(beta, wn, niv, shell, 1.0, None)
    cfg.comm.rank = 1
    og = make_lfp('magn', lfp.gamob2_from_gchir_urange(lfp.construct_lfp_from_lnp(fm, np.array(
        [np.diag(x0l[j, core]) - x0l[j, core][:, None] * fm.mat[j][core, core] * x0l[j, core][None, :] for j in range(len(wn))])),
        x0l).mat, beta, u, wn, True)
    ctx.close(hlr.construct_dc_kernel(og, b, x0, cfg), dc[..., core], 'dc-kernel', 'driver routine', rtol=1000 * rt, scale=np.max(np.abs(dc)) + u)
    dcc = np.ascontiguousarray(dc[..., core])
    kern = kref['dens'] + 3 * kref['magn'] - dcc
    ref = sde_q(kern, G, beta, qs, wn, nq)
    scs = np.max(np.abs(ref)) + np.max(np.abs(G)) * u
    keep = dcc.copy()
    s = fp.schwinger_dyson_full_q(V['dens'], V['magn'], chi['dens'], chi['magn'], dcc, G, beta, u, qs, wn, nq)
    ctx.close(s, ref, 'sde', 'ladder self-energy', rtol=1000 * rt, scale=scs)
    ctx.equal(dcc, keep, 'alias', 'kernel modified')
    ctx.close(fp.schwinger_dyson_kernel_q(kern, G, beta, qs, wn, nq), ref, 'sde', 'kernel form', rtol=1e-8)
    if wmax:  # any set of bosonic frequencies in any order
        sub = rng.permutation(len(wn))[:int(rng.integers(1, len(wn) + 1))]
        ctx.close(fp.schwinger_dyson_kernel_q(kern[:, sub], G, beta, qs, wn[sub], nq), sde_q(kern[:, sub], G, beta, qs, wn[sub], nq), 'sde',
                  f'kernel form on the frequencies {wn[sub]}', rtol=1e-8, scale=scs)
    # distribution over ranks: any split and any order of the momenta
    perm = rng.permutation(nq)
    cuts = np.sort(rng.integers(0, nq + 1, size=int(rng.integers(1, 4))))
    tot = 0
    for part in np.split(perm, cuts):
        if len(part) == 0:
            continue
        tot = tot + fp.schwinger_dyson_full_q(V['dens'][part], V['magn'][part], chi['dens'][part], chi['magn'][part], dcc[part], G, beta, u,
                                              [qs[p] for p in part], wn, nq)
    ctx.close(tot, s, 'split', 'sum over any distribution of the momenta', rtol=1e-9, scale=scs)
    if inversion_symmetric(G):
        ctx.close(s[..., ::-1], np.conj(s), 'conj', 'Sigma(-v)=conj Sigma(v)', rtol=1000 * rt, scale=scs)
    # channel-resolved forms
    dup = rng.integers(1, 5, size=nq).astype(float)
    for ch in ('dens', 'magn'):
        one = sde_q(kref[ch] * dup[:, None, None], G, beta, qs, wn, nq)
        o = fp.schwinger_dyson_vrg_q(V[ch], chi[ch], G, beta, u, ch, qs, dup, wn, nq)
        ctx.close(o, one, 'channel', f'{ch} self-energy with multiplicities', rtol=1000 * rt, scale=scs * 4)
        if shell:
            o = fp.schwinger_dyson_channel_q(V[ch], chi[ch], ch, G, beta, u, qs, dup, wn, nq, niv_shell=shell)
            full = sde_q(np.concatenate((np.repeat(u ** 2 / 2 * chi[ch][..., None], shell, -1), kref[ch],
                                         np.repeat(u ** 2 / 2 * chi[ch][..., None], shell, -1)), -1) * dup[:, None, None], G, beta, qs, wn, nq)
            ctx.close(o, full, 'channel', f'{ch} self-energy with shell', rtol=1000 * rt, scale=scs * 4)
    xf = rng.normal(size=(nq, len(wn), 2 * niv)) + 0j
    ctx.close(fp.schwinger_dyson_dc(xf, G, u, qs, dup, wn, nq), u * beta * sde_q(xf * dup[:, None, None], G, beta, qs, wn, nq), 'dc',
              'double-counting self-energy', rtol=1e-9)
    if flat:
        loc = lfp.schwinger_dyson_full(L['dens'][0], L['magn'][0], L['dens'][1], L['magn'][1], g.g_loc, 0.0, niv_shell=shell)
        for k in np.ndindex(*nk):
            ctx.close(s[k], loc[core], 'flat-limit', 'flat band: ladder self-energy is the local one', rtol=1e4 * rt, scale=scs)
        sh = fp.schwinger_dyson_full_q(V['dens'], V['magn'], chi['dens'], chi['magn'], dcc, G, beta, u, qs, wn, nq, niv_shell=shell)
        ctx.close(sh[0, 0, 0], loc, 'flat-limit', 'flat band with shell', rtol=1e4 * rt, scale=scs)
        for ch in ('dens', 'magn'):
            ctx.close(chi[ch], np.broadcast_to(L[ch][1], chi[ch].shape), 'flat-limit', f'{ch} susceptibility', rtol=1e3 * rt, scale=1)
    ctx.saw('sde_terms', nq * len(wn))


def inversion_symmetric(G):
    inv = G[np.ix_(*[(-np.arange(n)) % n for n in G.shape[:3]])]
    return np.allclose(inv, G)


SYMS = [bz.two_dimensional_square_symmetries, bz.two_dimensional_nematic_symmetries, bz.quasi_two_dimensional_square_symmetries,
        bz.simultaneous_x_y_inversion]


def sc_symmetry(ctx, rng, i):
    """working on the irreducible momenta gives what working on all momenta gives"""
    wmax = int(rng.integers(0, 3))
    wn = np.arange(-wmax, wmax + 1)
    niv = int(rng.integers(1, 6))
    u = float(rng.uniform(.3, 2))
    nk, beta, ek, g = lattice(rng, wmax, niv, sym=True)
    grid = bz.KGrid(nk, SYMS[i % len(SYMS)]())
    ctx.describe(nk=nk, wmax=wmax, niv=niv, sym=i % len(SYMS), irr=grid.nk_irr)
    b = bub.BubbleGenerator(wn, g, is_full_wn=True)
    res = []
    for ql in (grid.get_irrq_list(), grid.get_q_list()):
        x0 = b.get_gchi0_q_list(niv, ql)
        chi0 = x0.sum(-1) / beta ** 2
        out = [x0]
        for ch in ('dens', 'magn'):
            gam = rand_gamma(np.random.default_rng(i), wn, niv, beta, u, ch)
            og = make_lfp(ch, gam, beta, u, wn, True)
            aux = fp.get_gchir_aux_from_gammar_q(og, x0)
            out += [fp.chi_phys_from_chi_aux_q(aux.sum(axis=(-1, -2)) / beta ** 2, chi0, chi0, u, ch), fp.vrg_from_gchi_aux(aux, x0)]
        res.append(out)
    ctx.true(len(grid.get_q_list()) == int(np.prod(nk)), 'count', 'all momenta listed')
    for a, c in zip(*res):
        ctx.close(grid.map_irrk2fbz(a, shape='list'), c, 'irreducible', 'irreducible momenta vs all momenta', rtol=1e-6)
        ctx.close(grid.map_irrk2fbz(a), grid.map_fbz_list2mesh(c), 'irreducible', 'on the mesh', rtol=1e-6)
    ctx.saw('irreducible_points', grid.nk_irr)


def sc_completed(ctx, rng, i):
    """tail-completed ladder: the double-counting kernel converges to the infinite fermionic box"""
    wmax = 1
    wn = np.arange(-wmax, wmax + 1)
    niv, shell, big = 3, int(rng.integers(30, 45)), 260
    u = float(rng.uniform(.3, 1.2))
    beta = float(rng.uniform(1.5, 4))
    s = gen.PoleSigma(rng)
    nk = gen.rand_nk(rng, 1, 3)
    ek = gen.square_ek(nk, 0.5, .1, 0.05, tx=float(rng.uniform(.3, .6)))
    ek = ek - ek.mean()
    n = niv + big + wmax + 5
    so = tp.SelfEnergy(s(gen.iv(beta, n))[None, None, None, :], beta, smom0=s.h, smom1=s.mom1, niv_core=n)
    g = tp.GreensFunction(so, ek, mu=float(rng.normal() * .4 + s.h), niv_asympt=0)
    qs = [tuple(int(x) for x in q) for q in np.ndindex(*nk)][:3]
    ctx.describe(nk=nk, niv=niv, shell=shell, u=round(u, 3), beta=round(beta, 3))
    b = bub.BubbleGenerator(wn, g, is_full_wn=True)
    gam = {ch: make_lfp(ch, rand_gamma(rng, wn, niv, beta, u, ch, strength=.1), beta, u, wn, True) for ch in ('dens', 'magn')}
    res = []
    for sh in (0, shell, big):
        nf = niv + sh
        vl, cl = lfp.get_vrg_and_chir_tilde_from_gammar_uasympt(gam['magn'], b, niv_shell=sh)
        f = lfp.fob2_from_gamob2_urange(gam['magn'], b.get_gchi0(nf))
        res.append(fp.get_vrg_and_chir_lad_from_gammar_uasympt_q(gam['dens'], gam['magn'], f, vl, cl, b, u, qs, niv_shell=sh))
        x0 = b.get_gchi0_q_list(nf, qs)
        core = slice(sh, sh + 2 * niv)
        corr = b.get_asymptotic_correction_q(nf, qs)
        chi0 = x0.sum(-1) / beta ** 2
        for n, ch in enumerate(('dens', 'magn')):
            ur = UR[ch] * u
            x = np.array([solve_box(pad(gam[ch].mat, ur / beta ** 2, nf), x0[m]) for m in range(len(qs))])
            chi = x.sum(axis=(-1, -2)) / beta ** 2
            ctx.close(res[-1][2 + n], chi + corr, 'completed', f'{ch} susceptibility with shell {sh}', rtol=1e-6,
                      scale=np.max(np.abs(chi)) + np.max(np.abs(chi0)))
            ctx.close(res[-1][n] * (1 - ur * res[-1][2 + n])[..., None], (x.sum(-1) / x0)[..., core], 'completed',
                      f'{ch} three-leg vertex with shell {sh}', rtol=1e-6)
        # the tail of the double counting: F at the edge of the box times the bubble outside of it
        edge = 0.5 * beta ** 2 * (f.mat[:, core, 0] + f.mat[:, core, -1])
        if sh:
            ctx.close(edge, -u * ((1 + u * cl)[:, None] * vl.mat), 'edge', 'F for large second frequency', rtol=.05, scale=u + np.max(np.abs(edge)))
        want = np.array([[-u * (f.mat[j] @ x0[m, j])[core] for j in range(len(wn))] for m in range(len(qs))])
        want = want - u * (-u * (1 + u * cl)[:, None] * vl.mat)[None] * b.get_asymptotic_correction_q(nf, qs)[..., None]
        ctx.close(res[-1][4], want, 'dc-tail', 'double-counting kernel completed by its tail', rtol=1e-8)
    names = ['density vertex', 'magnetic vertex', 'density susceptibility', 'magnetic susceptibility', 'double-counting kernel']
    for a, c, nm in zip(res[1], res[2], names):
        ctx.close(a, c, 'completed', f'{nm}: shell {shell} vs {big}', rtol=0.03, atol=0.01)
    ctx.saw('completed_ladders')


SCENARIOS = [('ladder', sc_ladder, 50, 1000), ('sde', sc_sde, 45, 900), ('symmetry', sc_symmetry, 16, 200), ('completed', sc_completed, 4, 30)]

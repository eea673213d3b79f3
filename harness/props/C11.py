"""C11: local Bethe-Salpeter algebra: irreducible vertex <-> generalized susceptibility <-> full vertex, in every box."""
import numpy as np
from dga import bubble as bub
from dga import local_four_point as lfp
from dga import two_point as tp
from harness import gen
from harness.atom import Cluster
from harness.vertex import UR, pad, rand_gamma, solve_box

RULE = ('random irreducible vertices (density/magnetic, with and without v-v\' and conjugation symmetry, real and complex '
        'G), bosonic windows and subsets, core/shell splits; oracle: explicit inversion of the Bethe-Salpeter equation in '
        'the full fermionic box, and exact spectra of Hubbard clusters (atom, impurity+bath). Non-trivial: shell > 0 or w != 0')


def build(rng, wmax, nfull):
    beta = float(rng.uniform(1.5, 8))
    s = gen.PoleSigma(rng)
    nk = gen.rand_nk(rng, 1, 4)
    ek = gen.square_ek(nk, 1.0, float(rng.uniform(-.4, .4)), 0.1)
    ek = ek - ek.mean()
    n = nfull + wmax + int(rng.integers(2, 20))
    so = tp.SelfEnergy(s(gen.iv(beta, n))[None, None, None, :], beta, smom0=s.h, smom1=s.mom1, niv_core=n)
    g = tp.GreensFunction(so, ek, mu=float(rng.normal() * .6 + s.h), niv_asympt=0)
    return beta, g


def pick(rng, i):
    wmax = int(rng.integers(0, 5))
    full = np.arange(-wmax, wmax + 1)
    if i % 3 == 2 and wmax > 1:
        k = int(rng.integers(1, 2 * wmax + 1))
        wn = rng.choice(full, size=k, replace=False)
        return (wn if rng.integers(0, 2) else np.sort(wn)), False  # a set of frequencies comes in any order
    return full, True


def make_lfp(ch, mat, beta, u, wn, full):
    return lfp.LocalFourPoint(ch, mat, beta, u, is_full_w=True) if full else \
        lfp.LocalFourPoint(ch, mat, beta, u, wn=wn)


def sc_core(ctx, rng, i):
    """round trips in one box, without any asymptotics"""
    wn, full = pick(rng, i)
    niv = int(rng.integers(1, 12))
    u = float(rng.uniform(0.3, 3))
    beta, g = build(rng, int(np.max(np.abs(wn))), niv + 4)
    ch = ['dens', 'magn'][i % 2]
    sym = bool(rng.integers(0, 2))
    b = bub.BubbleGenerator(wn, g, is_full_wn=full)
    x0 = b.get_gchi0(niv)
    gam = rand_gamma(rng, wn, niv, beta, u, ch, sym=sym, conj=bool(rng.integers(0, 2)))
    x = solve_box(gam, x0)
    ctx.describe(nontrivial=bool(np.any(wn != 0)), wn=wn, niv=niv, u=round(u, 3), beta=round(beta, 3), ch=ch, sym=sym)
    og = make_lfp(ch, gam.copy(), beta, u, wn, full)
    ox = make_lfp(ch, x.copy(), beta, u, wn, full)
    ctx.close(lfp.gchir_from_gamob2(og, x0).mat, x, 'bse', 'X from Gamma', rtol=1e-9)
    ctx.close(lfp.gamob2_from_gchir(ox, x0).mat, gam, 'bse', 'Gamma from X', rtol=1e-7)
    f = np.array([np.diag(1 / x0[j]) - np.diag(1 / x0[j]) @ x[j] @ np.diag(1 / x0[j]) for j in range(len(wn))])
    of = lfp.fob2_from_gchir(ox, x0)
    scale = np.max(np.abs(1 / x0))
    ctx.close(of.mat, f, 'full-vertex', 'F from X', rtol=1e-9, scale=scale)
    ctx.close(lfp.gchir_from_fob2(of, x0).mat, x, 'full-vertex', 'X from F', rtol=1e-7)
    ctx.close(lfp.fob2_from_gamob2_urange(og, x0).mat, f, 'full-vertex', 'F from Gamma', rtol=1e-7, scale=scale)
    # G2 <-> X
    niv_g = niv + int(rng.integers(0, 4))
    gl = np.array(g.g_loc)
    gl = gl[len(gl) // 2 - niv_g:len(gl) // 2 + niv_g]
    og2 = make_lfp(ch, x.copy(), beta, u, wn, full)
    og2.mat.setflags(write=False)
    xx = lfp.gchir_from_g2(og2, gl)
    ref = beta * x
    c = gl[niv_g - niv:niv_g + niv]
    if ch == 'dens':
        ref = ref - 2 * beta * (wn == 0)[:, None, None] * (c[:, None] * c[None, :])
    ctx.close(xx.mat, ref, 'g2', 'X from G2', rtol=1e-11)
    ctx.close(lfp.g2_from_chir(xx, gl).mat, x, 'g2', 'G2 from X', rtol=1e-9, scale=np.max(np.abs(ref)))
    ctx.equal(ox.mat, x, 'alias', 'X modified')
    ctx.equal(og.mat, gam, 'alias', 'Gamma modified')
    for o in (of, xx):
        ctx.true(o.channel == ch and o.beta == beta and o.u == u, 'tags', 'channel, temperature and U carried along')
        ctx.equal(o.wn, wn, 'tags', 'bosonic frequencies carried along')
    # three-leg vertex, physical susceptibility in the core
    aux = lfp.gchi_aux_core_from_gammar(og, x0)
    ctx.close(lfp.local_gchi_aux_from_gammar(og, x0).mat, aux.mat, 'aux', 'both routes to the auxiliary susceptibility', rtol=1e-10)
    ctx.close(lfp.gchi_aux_core(ox).mat, aux.mat, 'aux', 'auxiliary susceptibility from X', rtol=1e-6)
    ur = UR[ch] * u
    chi = x.sum(axis=(1, 2)) / beta ** 2
    chi0 = x0.sum(-1) / beta ** 2
    ctx.close(ox.contract_legs(), chi, 'contract', 'contraction of the legs', rtol=1e-10)
    ctx.close(lfp.chi_phys_urange(aux.contract_legs(), chi0, chi0, u, ch), chi, 'chi', 'physical susceptibility from the '
              'auxiliary one', rtol=1e-7)
    lam = lfp.lam_from_chir(ox, x0)
    vrg = lfp.vrg_from_lam(lam, chi)
    ref3 = x.sum(-1) / x0 / (1 - ur * chi)[:, None]
    ctx.close(vrg.mat, ref3, 'vrg', 'three-leg vertex from lambda', rtol=1e-8)
    ctx.equal(vrg.wn, wn, 'tags', 'bosonic frequencies of the three-leg vertex')
    ctx.true(vrg.channel == ch and vrg.beta == beta and vrg.u == u, 'tags', 'channel, temperature and U of the three-leg vertex')
    ctx.close(lfp.vrg_from_gchi_aux(aux, x0).mat, ref3, 'vrg', 'three-leg vertex from the auxiliary susceptibility', rtol=1e-6)
    ctx.close(lfp.vrg_from_gchi_aux(aux, x0, sum_axis=-2).mat, x.sum(-2) / x0 / (1 - ur * chi)[:, None], 'vrg',
              'left three-leg vertex', rtol=1e-6)
    ctx.close(lfp.construct_ltp_from_lnp(ox, ref3).contract_legs(), ref3.sum(-1) / beta, 'contract', 'three-leg contraction', rtol=1e-10)
    ctx.saw('inversions', len(wn))


def sc_box(ctx, rng, i):
    """vertex = u outside a core: core-only data plus bubbles reproduce the full-box solution exactly"""
    wn, full = pick(rng, i)
    niv = int(rng.integers(1, 9))
    shell = int(rng.integers(0, 25))
    nf = niv + shell
    u = float(rng.uniform(0.3, 3))
    beta, g = build(rng, int(np.max(np.abs(wn))), nf)
    ch = ['dens', 'magn'][i % 2]
    sym = bool(rng.integers(0, 2))
    ur = UR[ch] * u
    b = bub.BubbleGenerator(wn, g, is_full_wn=full)
    x0 = b.get_gchi0(nf)
    core = slice(shell, shell + 2 * niv)
    x0c = x0[:, core]
    gam = rand_gamma(rng, wn, niv, beta, u, ch, sym=sym)
    gf = pad(gam, ur / beta ** 2, nf)
    x = solve_box(gf, x0)
    ctx.describe(nontrivial=shell > 0 or bool(np.any(wn != 0)), wn=wn, niv=niv, shell=shell, u=round(u, 3), beta=round(beta, 3), ch=ch, sym=sym)
    cond = max(1.0, np.max(np.abs(x)) * np.max(np.abs(1 / x0)))
    rt = 1e-11 * cond + 1e-9
    if rt > 1e-4:
        ctx.true(True, 'ill-conditioned')
        ctx.saw('ill_conditioned')
        return
    xc = x[:, core, core]
    oxc = make_lfp(ch, xc.copy(), beta, u, wn, full)
    og = make_lfp(ch, gam.copy(), beta, u, wn, full)
    ctx.close(lfp.gamob2_from_gchir_urange(oxc, x0).mat, gam, 'gamma-shell', 'Gamma from core X with shell asymptotics', rtol=rt,
              scale=np.max(np.abs(1 / x0)))
    f = np.array([np.diag(1 / x0[j]) - np.diag(1 / x0[j]) @ x[j] @ np.diag(1 / x0[j]) for j in range(len(wn))])
    sc = np.max(np.abs(1 / x0))
    ctx.close(lfp.fob2_from_gamob2_urange(og, x0).mat, f, 'f-shell', 'F in the full box from core Gamma', rtol=rt, scale=sc)
    auxf = lfp.gchi_aux_core_from_gammar_urange(og, x0)
    ref_aux = solve_box(gf - ur / beta ** 2, x0)
    ctx.close(auxf.mat, ref_aux, 'aux-shell', 'auxiliary susceptibility in the full box', rtol=rt)
    aux = lfp.gchi_aux_core_from_gammar(og, x0c)
    ctx.close(aux.mat, ref_aux[:, core, core], 'aux-shell', 'core of the auxiliary susceptibility', rtol=rt)
    chi = x.sum(axis=(1, 2)) / beta ** 2
    chi0c, chi0 = x0c.sum(-1) / beta ** 2, x0.sum(-1) / beta ** 2
    vrg, chi2 = lfp.get_vrg_and_chir_tilde_from_gammar_urange(og, b, niv_shell=shell)
    den = np.abs(1 - ur * chi)
    amp = max(1.0, np.max(1 / den))
    ctx.close(chi2, chi, 'chi-shell', 'physical susceptibility with shell', rtol=rt * 10, scale=np.max(np.abs(chi)) + np.max(np.abs(chi0)))
    ctx.close(lfp.chi_phys_urange(aux.contract_legs(), chi0c, chi0, u, ch), chi, 'chi-shell', 'physical susceptibility', rtol=rt * 10,
              scale=np.max(np.abs(chi)) + np.max(np.abs(chi0)))
    ref3 = x.sum(-1) / x0 / (1 - ur * chi)[:, None]
    ref3p = x.sum(-2) / x0 / (1 - ur * chi)[:, None]
    ctx.close(vrg.mat, ref3[:, core], 'vrg-shell', 'three-leg vertex with shell', rtol=rt * 100 * amp)
    vrgp, _ = lfp.get_vrg_and_chir_tilde_from_gammar_urange(og, b, niv_shell=shell, sum_axis=-2)
    ctx.close(vrgp.mat, ref3p[:, core], 'vrg-shell', 'left three-leg vertex with shell', rtol=rt * 100 * amp)
    fc = f[:, core, core]
    o = lfp.fob2_from_vrg_and_chir(aux, vrg, vrgp, chi, x0c)
    ctx.close(o.mat, fc, 'f-vrg', 'F from three-leg vertices', rtol=rt * 100 * amp, scale=sc)
    if sym:
        o = lfp.get_f_dc_asympt(vrg, aux, chi, x0c, u)
        ctx.close(o.mat / beta ** 2, fc, 'f-vrg', 'F from one three-leg vertex', rtol=rt * 100 * amp, scale=sc)
    # the lambda route: exact from the core of X and the shell bubble
    lam = lfp.lam_from_chir(oxc, x0c)
    lt = lfp.get_lam_tilde(lam, chi0 - chi0c)
    small = min(np.min(np.abs(1 + ur * (chi0 - chi0c))), np.min(np.abs(1 - (u * (chi0 - chi0c)) ** 2)))
    if small > 1e-3:
        ct = lfp.get_chir_tilde(lt, oxc.contract_legs(), chi0 - chi0c, x0c, u)
        ctx.close(ct, chi, 'lambda-route', 'susceptibility from the core of X', rtol=rt * 100 / small, scale=np.max(np.abs(chi)) + np.max(np.abs(chi0)))
        ctx.close(lfp.vrg_from_lam(lt, ct).mat, ref3[:, core], 'lambda-route', 'three-leg vertex from the core of X', rtol=rt * 1000 * amp / small)
    # tail-completed versions keep (1-u chi) vrg and shift chi by the missing bubble
    corr = b.get_asymptotic_correction(nf)
    va, ca = lfp.get_vrg_and_chir_tilde_from_gammar_uasympt(og, b, niv_shell=shell)
    ctx.close(ca, chi + corr, 'completed', 'completed susceptibility', rtol=rt * 10, scale=np.max(np.abs(chi)) + np.max(np.abs(chi0)))
    ctx.close((1 - ur * ca)[:, None] * va.mat, ((1 - ur * chi)[:, None] * ref3)[:, core], 'completed', 'completed three-leg vertex',
              rtol=rt * 100 * amp)
    vl, cl = lfp.get_vrg_and_chir_tilde_from_gammar_uasympt(og, b, niv_shell=shell, sum_axis=-2)
    ctx.close((1 - ur * cl)[:, None] * vl.mat, ((1 - ur * chi)[:, None] * ref3p)[:, core], 'completed', 'completed left vertex',
              rtol=rt * 100 * amp)
    xcore = solve_box(gam, x0c)
    ox2 = make_lfp(ch, xcore, beta, u, wn, full)
    vx, cx = lfp.get_vrg_and_chir_tilde_from_chir_uasympt(ox2, b, u, niv_shell=shell)
    ctx.close(cx, ca, 'completed', 'susceptibility from X instead of Gamma', rtol=1e-5, scale=np.max(np.abs(chi)) + np.max(np.abs(chi0)))
    ctx.close((1 - ur * cx)[:, None] * vx.mat, ((1 - ur * ca)[:, None] * va.mat), 'completed', 'vertex from X instead of Gamma', rtol=1e-4 * amp)
    ctx.saw('full_boxes', len(wn))


def sc_object(ctx, rng, i):
    """windows, shells, symmetrization and rejection of malformed objects"""
    niw, niv = int(rng.integers(0, 6)), int(rng.integers(1, 9))
    m = gen.crandn(rng, 2 * niw + 1, 2 * niv, 2 * niv)
    beta, u = float(rng.uniform(1, 9)), float(rng.uniform(.5, 3))
    ch = ['dens', 'magn', 'updo', 'upup'][i % 4]
    ctx.describe(niw=niw, niv=niv, ch=ch)
    o = lfp.LocalFourPoint(ch, m.copy(), beta, u, is_full_w=True)
    ctx.true(o.u_r == UR[ch] * u, 'sign', 'sign of U per channel')
    ctx.equal(o.wn, np.arange(-niw, niw + 1), 'wn', 'bosonic labels')
    ctx.equal(o.vn, np.arange(-niv, niv), 'vn', 'fermionic labels')
    ctx.true(o.niv == niv, 'niv')
    nwc, nvc = int(rng.integers(0, niw + 1)), int(rng.integers(1, niv + 1))
    o.cut_iw(nwc)
    o.cut_iv(nvc)
    ref = m[niw - nwc:niw + nwc + 1, niv - nvc:niv + nvc, niv - nvc:niv + nvc]
    ctx.equal(o.mat, ref, 'cut', 'window of the four-point object')
    ctx.equal(o.wn, np.arange(-nwc, nwc + 1), 'wn', 'bosonic labels after the cut')
    sh, val = int(rng.integers(0, 4)), complex(rng.normal(), 1.3)
    o.append_shell(val, sh)
    full = np.full((2 * nwc + 1, 2 * (nvc + sh), 2 * (nvc + sh)), val, dtype=complex)
    full[:, sh:sh + 2 * nvc, sh:sh + 2 * nvc] = ref
    ctx.equal(o.mat, full, 'shell', 'shell appended')
    s = lfp.LocalFourPoint(ch, m.copy(), beta, u, is_full_w=True)
    s.symmetrize_v_vp()
    ctx.close(s.mat, 0.5 * (m + np.swapaxes(m, 1, 2)), 'sym', 'v-v\' symmetrization', rtol=1e-12)
    ctx.raises(lambda: lfp.LocalFourPoint('foo', m, beta, u, is_full_w=True), 'channel', 'unknown channel')
    ctx.raises(lambda: lfp.LocalFourPoint(ch, m[0], beta, u, is_full_w=True), 'dim', 'wrong number of axes')
    ctx.raises(lambda: lfp.LocalFourPoint(ch, np.concatenate((m, m[:1])), beta, u, is_full_w=True), 'even', 'even number of bosonic frequencies')
    ctx.raises(lambda: lfp.LocalFourPoint(ch, m, beta, u), 'nolabel', 'subset without labels')
    ctx.raises(lambda: lfp.LocalFourPoint(ch, m, beta, u, wn=np.arange(-niw, niw + 1)).cut_iw(0), 'subset-cut', 'bosonic cut of a subset')
    d = {'beta': beta, 'u': u, 'g4iw_dens': m.copy(), 'g4iw_magn': 2 * m}
    for c, f in (('dens', 1), ('magn', 2)):
        g2 = lfp.get_g2_from_dmft_input(d, c)
        ctx.equal(g2.mat, f * m, 'input', 'channel picked from the input')
        ctx.true(g2.channel == c and g2.beta == beta and g2.u == u, 'input')


def rand_cluster(rng, i, thorough):
    beta, u = float(rng.uniform(2.5, 6)), float(rng.uniform(0.8, 2.4))
    if i % 3 == 2:
        h = np.array([[-u / 2 + rng.normal() * .3, rng.uniform(.4, .9)], [0, rng.normal() * .3]])
        h[1, 0] = h[0, 1]
    else:
        h = np.array([[-u / 2 + (0 if i % 3 == 0 else rng.normal() * .3)]])
    return Cluster(beta, u, h)


def sc_exact(ctx, rng, i):
    """physics: the exact two-particle function of a Hubbard cluster gives its exact susceptibility"""
    c = rand_cluster(rng, i, ctx.thorough)
    niw, niv, shell = 3, int(rng.integers(12, 17)), 60
    b, u = c.beta, c.u
    wn = np.arange(-niw, niw + 1)
    uu, ud = c.g2(wn, niv, 0), c.g2(wn, niv, 1)
    ctx.describe(h=np.round(c.h1, 3), u=round(u, 3), beta=round(b, 3), niv=niv, n=round(c.n, 4))
    nf = niv + shell
    N = nf + niw
    G = c.g(gen.iv(b, N))
    x0 = np.array([-b * G[N - nf:N + nf] * G[N - nf - w:N + nf - w] for w in wn])
    x0c = x0[:, shell:-shell]
    for ch, m in (('dens', uu + ud), ('magn', uu - ud)):
        g2 = lfp.LocalFourPoint(ch, m, b, u, is_full_w=True)
        x = lfp.gchir_from_g2(g2, G)
        gam = lfp.gamob2_from_gchir_urange(x, x0)
        aux = lfp.gchi_aux_core_from_gammar(gam, x0c)
        chi = lfp.chi_phys_urange(aux.contract_legs(), x0c.sum(-1) / b ** 2, x0.sum(-1) / b ** 2, u, ch)
        ex = c.chi(wn, ch)
        ctx.close(chi, ex, 'exact', f'{ch} susceptibility of the exactly solved cluster', rtol=0.05, atol=0.02)
        ctx.saw('exact_clusters')


SCENARIOS = [('core', sc_core, 60, 1500), ('box', sc_box, 80, 2000), ('object', sc_object, 40, 800), ('exact', sc_exact, 6, 40)]

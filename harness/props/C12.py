"""C12: local Schwinger-Dyson equation: Hedin form = full-vertex form = exact self-energy of solvable clusters."""
from types import SimpleNamespace

import numpy as np
from dga import bubble as bub
from dga import four_point as fp
from dga import high_level_routines as hlr
from dga import local_four_point as lfp
from dga import two_point as tp
from harness import gen
from harness.atom import Cluster
from harness.props.C11 import build, make_lfp, pick, rand_cluster
from harness.vertex import UR, pad, rand_gamma, solve_box

RULE = ('random local vertices, Green\'s functions, core/shell splits and bosonic windows; oracle: explicit double sum of '
        'the equation of motion with the full vertex obtained by inverting the BSE in the full box; exact self-energy of '
        'Hubbard atom and impurity+bath clusters through the production entry point. Non-trivial: several w and a shell')


def sde_ref(fud, x0, G, wn, u, beta, nv):
    """u/beta sum_{w,v'} F_updo(w,v,v') X0(w,v') G(v-w), v in the box"""
    N = len(G) // 2
    n = fud.shape[-1] // 2
    out = np.zeros(2 * n, dtype=complex)
    for j, w in enumerate(wn):
        out += (fud[j] @ x0[j]) * G[N - n - w:N + n - w]
    return (u / beta * out)[n - nv:n + nv]


def sc_forms(ctx, rng, i):
    wn, full = pick(rng, i)
    niv = int(rng.integers(1, 9))
    shell = 0 if i % 5 == 0 else int(rng.integers(1, 20))
    nf = niv + shell
    u = float(rng.uniform(0.3, 3))
    beta, g = build(rng, 2 * int(np.max(np.abs(wn))), nf)
    n = float(rng.uniform(0.5, 1.5))
    b = bub.BubbleGenerator(wn, g, is_full_wn=full)
    x0 = b.get_gchi0(nf)
    core = slice(shell, shell + 2 * niv)
    x0c = x0[:, core]
    ctx.describe(nontrivial=len(wn) > 1, wn=wn, niv=niv, shell=shell, u=round(u, 3), beta=round(beta, 3), n=round(n, 3))
    sym = bool(rng.integers(0, 2))
    F, V, CHI, OF, XC = {}, {}, {}, {}, {}
    cond = 1
    for ch in ('dens', 'magn'):
        ur = UR[ch] * u
        gam = rand_gamma(rng, wn, niv, beta, u, ch, sym=sym)
        x = solve_box(pad(gam, ur / beta ** 2, nf), x0)
        cond = max(cond, np.max(np.abs(x)) * np.max(np.abs(1 / x0)))
        F[ch] = np.array([np.diag(1 / x0[j]) - np.diag(1 / x0[j]) @ x[j] @ np.diag(1 / x0[j]) for j in range(len(wn))])
        CHI[ch] = x.sum(axis=(1, 2)) / beta ** 2
        og = make_lfp(ch, gam, beta, u, wn, full)
        V[ch], c = lfp.get_vrg_and_chir_tilde_from_gammar_urange(og, b, niv_shell=shell)
        cond = max(cond, np.max(1 / np.abs(1 - ur * CHI[ch])))
        OF[ch] = lfp.fob2_from_gamob2_urange(og, x0)
    rt = 1e-10 * cond + 1e-8
    if rt > 1e-4:
        ctx.true(True, 'ill-conditioned')
        ctx.saw('ill_conditioned')
        return
    G = np.array(g.g_loc)
    tot = 0
    for ch in ('dens', 'magn'):
        ur = UR[ch] * u
        # contribution of one channel: u_r/2 instead of u
        ref = sde_ref(F[ch], x0, G, wn, ur / 2, beta, nf)
        tot = tot + ref
        sc = np.max(np.abs(ref)) + np.max(np.abs(G)) * u
        ctx.close(lfp.schwinger_dyson_vrg(V[ch], CHI[ch], G), ref[core], 'core', f'{ch} core', rtol=rt, scale=sc)
        o = lfp.schwinger_dyson_core_urange(V[ch], CHI[ch], G, shell)
        ctx.close(o, ref, 'shell', f'{ch} with shell {shell}', rtol=rt, scale=sc)
        if shell:
            sh = np.concatenate((ref[:shell], ref[shell + 2 * niv:]))
            ctx.close(lfp.schwinger_dyson_shell(CHI[ch], G, beta, u, shell, niv, wn), sh, 'shell', f'{ch} shell', rtol=rt, scale=sc)
            ctx.close(fp.schwinger_dyson_shell(CHI[ch], G, beta, u, shell, niv, wn), sh, 'shell', f'{ch} shell', rtol=rt, scale=sc)
        OF[ch].mat.setflags(write=False)
        ctx.close(lfp.schwinger_dyson_f(OF[ch], x0, G), ref * 2 / UR[ch], 'f-form', f'{ch} full-vertex form', rtol=rt, scale=sc)
    s = lfp.schwinger_dyson_full(V['dens'], V['magn'], CHI['dens'], CHI['magn'], G, n, niv_shell=shell)
    sc = np.max(np.abs(tot)) + np.max(np.abs(G)) * u
    ctx.true(s.shape == (2 * nf,), 'window', f'{s.shape}')
    ctx.close(s, tot + u * n / 2, 'full', 'Hartree + both channels', rtol=rt, scale=sc)
    if not shell:
        ctx.close(lfp.schwinger_dyson_full(V['dens'], V['magn'], CHI['dens'], CHI['magn'], G, n), s, 'full', 'no shell by default')
    if full:
        ctx.close(s, np.conj(s[::-1]), 'conj', 'Sigma(-v)=conj Sigma(v)', rtol=rt, scale=sc)
    # a shell of any other size only changes the window
    extra = int(rng.integers(1, nf - niv + 2)) if shell else 1
    extra = min(extra, shell) if shell else 0
    if extra:
        s2 = lfp.schwinger_dyson_full(V['dens'], V['magn'], CHI['dens'], CHI['magn'], G, n, niv_shell=extra)
        ctx.close(s2, s[shell - extra:2 * nf - shell + extra], 'window', 'smaller shell', rtol=1e-12)
    ctx.saw('sde_frequencies', 2 * nf)


def fake_cfg(beta, wn, niv, shell, n, siw):
    log = SimpleNamespace(log_memory_usage=lambda *a, **k: None, log_cpu_time=lambda *a, **k: None, log_event=lambda *a, **k: None,
                          log_message=lambda *a, **k: None)
    return SimpleNamespace(logger=log, comm=SimpleNamespace(rank=0, size=1), verbosity=0, pdir='/nonexistent',
                           box=SimpleNamespace(wn=wn, niv_core=niv, niv_shell=shell, niv_full=niv + shell, niw_core=len(wn) // 2),
                           sys=SimpleNamespace(n=n, beta=beta, siw=siw, u=None))


def sc_exact(ctx, rng, i):
    c = rand_cluster(rng, i, ctx.thorough)
    b, u = c.beta, c.u
    big = c.h1.shape[0] > 1
    niv, niw, shell = 12, 10, 50
    if big:
        niv, niw = 9, 8
    wn = np.arange(-niw, niw + 1)
    uu, ud = c.g2(wn, niv, 0), c.g2(wn, niv, 1)
    ctx.describe(h=np.round(c.h1, 3), u=round(u, 3), beta=round(b, 3), niv=niv, n=round(c.n, 4))
    N = niv + shell + 2 * niw + 20
    iv = gen.iv(b, N)
    G = c.g(iv)
    hyb = c.h1[0, 1] ** 2 if big else 0
    # a flat band with the bath absorbed into the self-energy has exactly this local Green's function
    mu = -c.h1[0, 0]
    so = tp.SelfEnergy((iv + mu - 1 / G)[None, None, None, :], b, smom0=u * c.n / 2, smom1=u ** 2 * c.n / 2 * (1 - c.n / 2) + hyb, niv_core=N)
    g = tp.GreensFunction(so, np.zeros((2, 2, 1)), mu=mu, niv_asympt=0)
    ctx.close(g.g_loc, G, 'gloc', 'cluster Green\'s function', rtol=1e-9)
    cfg = fake_cfg(b, wn, niv, shell, c.n, None)
    g2d = lfp.LocalFourPoint('dens', uu + ud, b, u, is_full_w=True)
    g2m = lfp.LocalFourPoint('magn', uu - ud, b, u, is_full_w=True)
    gd, gm, cd, cm, vd, vm, s = hlr.local_sde_from_g2(g2d, g2m, g, cfg)
    ex = c.sigma(gen.iv(b, niv + shell))
    tol = 0.03 * (np.max(np.abs(ex.imag)) + u / 2)
    ctx.close(s, ex, 'exact', 'self-energy from the two-particle Green\'s function', rtol=0, atol=tol)
    ctx.close(cd, c.chi(wn, 'dens'), 'exact-chi', 'density susceptibility', rtol=.05, atol=.02)
    ctx.close(cm, c.chi(wn, 'magn'), 'exact-chi', 'magnetic susceptibility', rtol=.05, atol=.02)
    dev = np.max(np.abs(s - ex)) / tol
    ctx.observed['worst_exact_ratio_pct'] = max(ctx.observed.get('worst_exact_ratio_pct', 0), int(100 * dev))
    ctx.saw('exact_clusters')


SCENARIOS = [('forms', sc_forms, 80, 2000), ('exact', sc_exact, 6, 40)]

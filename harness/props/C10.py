"""C10: bare bubbles: definition, symmetry shortcut, momentum sum rule, exact high-frequency completion."""
import numpy as np
from dga import bubble as bub
from dga import two_point as tp
from harness import gen

RULE = ('random lattices, causal self-energies, frequency conventions, bosonic windows (full, subsets, single, unordered) '
        'and transfer momenta incl. zone boundary; explicit double sums over (k,v) as oracle and, for the completed '
        'sums, the exact infinite sum from the spectral representation. Non-trivial: some w != 0 or q != 0')


def build(rng, na=40, kdep=True, core=None):
    nk = gen.rand_nk(rng, 1, 5)
    ek = gen.square_ek(nk, 1.0, float(rng.uniform(-.4, .4)), float(rng.uniform(-.2, .2)), tx=float(rng.uniform(.2, 1.4)))
    ek = ek - ek.mean()
    shift = float(rng.normal())  # on-site energy, split between the dispersion and the chemical potential
    ek = ek + shift
    beta = float(rng.uniform(1.5, 10))
    s = gen.PoleSigma(rng)
    niv = int(rng.integers(20, 40)) if core is None else core
    sig = s(gen.iv(beta, niv))[None, None, None, :]
    if kdep:
        mod = 1 + 0.2 * rng.normal(size=nk)
        sig = s.h + mod[..., None] * (sig - s.h)
    so = tp.SelfEnergy(sig, beta, smom0=s.h, smom1=s.mom1, niv_core=niv)
    mu = float(rng.normal() * 0.7 + s.h) + shift
    return nk, ek, beta, s, so, mu, tp.GreensFunction(so, ek, mu=mu, niv_asympt=na)


def legs(w, note):
    if note == 'plus':
        return 0, w
    if note == 'minus':
        return 0, -w
    return w // 2, -(w // 2 + w % 2)


def pick_wn(rng, i):
    niw = int(rng.integers(0, 7))
    full = np.arange(-niw, niw + 1)
    if i % 3 == 0:
        return full, True
    if i % 3 == 1:
        return full, False
    n = int(rng.integers(1, 4))
    return np.array([int(x) for x in rng.integers(-9, 10, size=n)]), False


def sc_def(ctx, rng, i):
    nk, ek, beta, s, so, mu, g = build(rng)
    G = np.array(g.g_full())
    N = G.shape[-1] // 2
    wn, is_full = pick_wn(rng, i)
    note = ['minus', 'plus', 'center'][int(rng.integers(0, 3))] if i % 2 else 'minus'
    niv = int(rng.integers(1, 12))
    qs = [tuple(int(rng.integers(-n, n)) for n in nk) for _ in range(3)] + [(0, 0, 0)]
    ctx.describe(nk=nk, beta=round(beta, 2), wn=wn, full=is_full, note=note, niv=niv, q=qs)
    b = bub.BubbleGenerator(wn, g, freq_notation=note, is_full_wn=is_full)
    gl = G.mean(axis=(0, 1, 2))
    vs = np.arange(-niv, niv)

    def ref_loc(w):
        a, c = legs(int(w), note)
        return -beta * gl[N + vs + a] * gl[N + vs + c]

    def ref_q(w, q):
        a, c = legs(int(w), note)
        out = np.zeros(2 * niv, dtype=complex)
        for k in np.ndindex(*nk):
            kq = tuple((k[d] + q[d]) % nk[d] for d in range(3))  # argument k+q of the shifted function f(k - (-q))
            out += G[k][N + vs + a] * G[kq][N + vs + c]
        return -beta * out / np.prod(nk)

    gchi0 = b.get_gchi0(niv)
    chi0 = b.get_chi0(niv)
    ctx.true(gchi0.shape == (len(wn), 2 * niv) and chi0.shape == (len(wn),), 'shape')
    gq = b.get_gchi0_q_list(niv, qs)
    cq = b.get_chi0_q_list(niv, qs)
    ctx.true(gq.shape == (len(qs), len(wn), 2 * niv) and cq.shape == (len(qs), len(wn)), 'shape')
    for j, w in enumerate(wn):
        r = ref_loc(w)
        ctx.close(gchi0[j], r, 'local', f'-beta G G at w={w} ({note})', rtol=1e-10)
        ctx.close(chi0[j], r.sum() / beta ** 2, 'local', f'summed at w={w} ({note})', rtol=1e-10)
        for m, q in enumerate(qs):
            # +q and -q enter symmetrically only after the k-sum; the code must use one of them for every w
            r1 = ref_q(w, q)
            ctx.close(gq[m, j], r1, 'lattice', f'-beta sum_k G G at w={w} q={q} ({note})', rtol=1e-10)
            ctx.close(cq[m, j], r1.sum() / beta ** 2, 'lattice', f'summed at w={w} q={q} ({note})', rtol=1e-10)
            ctx.saw('bubbles')
    ctx.close(b.contract_legs(gchi0), chi0, 'contract', 'sum over the fermionic legs', rtol=1e-10)
    full = b.get_gchi0_vvp_full(gchi0)
    for j in range(len(wn)):
        ctx.equal(full[j], np.diag(gchi0[j]), 'diag', 'expansion to a (v,v\') matrix')
    # another convention on request
    for other in ('minus', 'plus', 'center'):
        o = b.get_chi0(niv, freq_notation=other)
        og = b.get_gchi0(niv, freq_notation=other)
        oq = b.get_gchi0_q_list(niv, qs[:1], freq_notation=other)
        for j, w in enumerate(wn):
            a, c = legs(int(w), other)
            r = -beta * gl[N + vs + a] * gl[N + vs + c]
            ctx.close(og[j], r, 'convention', f'{other} w={w} full={is_full}', rtol=1e-10)
            ctx.close(o[j], r.sum() / beta ** 2, 'convention', f'{other} w={w} full={is_full}', rtol=1e-10)
            r = np.zeros(2 * niv, dtype=complex)
            for k in np.ndindex(*nk):
                kq = tuple((k[d] + qs[0][d]) % nk[d] for d in range(3))
                r += G[k][N + vs + a] * G[kq][N + vs + c]
            ctx.close(oq[0, j], -beta * r / np.prod(nk), 'convention', f'lattice {other} w={w} full={is_full}', rtol=1e-10)
    # momentum sum rule
    allq = [tuple(q) for q in np.ndindex(*nk)]
    ctx.close(b.get_chi0_q_list(niv, allq).mean(0), chi0, 'sum-rule', 'sum over q of the lattice bubble is local', rtol=1e-10)
    ctx.close(b.get_gchi0_q_list(niv, allq).mean(0), gchi0, 'sum-rule', 'sum over q of the lattice bubble is local', rtol=1e-10)
    ctx.equal(np.array(g.g_full()), G, 'alias', 'Green\'s function modified')


def spectral(s, e, mu):
    m = np.diag(np.concatenate(([e + s.h - mu], s.e)))
    v = np.sqrt(s.a)
    m[0, 1:] = v
    m[1:, 0] = v
    w, u = np.linalg.eigh(m)
    return w, np.abs(u[0]) ** 2


def fermi(x, beta):
    return 0.5 * (1 - np.tanh(beta * x / 2))


def lindhard(p1, p2, w, beta):
    """-1/beta sum_v G1(v) G2(v-w), exact"""
    e1, r1 = p1
    e2, r2 = p2
    z = 2j * np.pi * w / beta
    tot = 0
    f1, f2 = fermi(e1, beta), fermi(e2, beta)
    for a in range(len(e1)):
        d = e1[a] - e2 - z
        x = 0.5 * (e1[a] + e2)
        deg = np.abs(d) < 1e-7
        t = np.where(deg, 0.25 * beta / np.cosh(beta * x / 2) ** 2, -(f1[a] - f2) / np.where(deg, 1, d))
        tot = tot + r1[a] * np.sum(r2 * t)
    return tot


def sc_asympt(ctx, rng, i):
    """completed bubbles equal the infinite Matsubara sums, whatever the window"""
    nk, ek, beta, s, so, mu, g = build(rng, na=300, kdep=False, core=200)
    wn, is_full = pick_wn(rng, i)
    note = ['minus', 'plus'][i % 2]
    niv = int(rng.integers(30, 60) * max(1, beta / 3))
    niv = min(niv, 200)
    shell = int(rng.integers(0, 150))
    qs = [(0, 0, 0)] + [tuple(int(rng.integers(0, n)) for n in nk) for _ in range(2)]
    ctx.describe(nk=nk, beta=round(beta, 2), wn=wn, full=is_full, note=note, niv=niv, shell=shell, q=qs)
    b = bub.BubbleGenerator(wn, g, freq_notation=note, is_full_wn=is_full)
    spec = {k: spectral(s, ek[k], mu) for k in np.ndindex(*nk)}
    eloc = np.concatenate([spec[k][0] for k in spec])
    rloc = np.concatenate([spec[k][1] for k in spec]) / len(spec)

    scale = (np.abs(ek - ek.mean()).max() + abs(mu - s.h - ek.mean()) + np.abs(s.e).max() + np.sqrt(s.a.sum()) + 1)
    vmin = 2 * np.pi / beta * (niv - np.max(np.abs(wn)))
    tol = 1e-9 + 0.1 * scale ** 3 / vmin ** 4 + 0.2 * scale ** 4 / vmin ** 5
    c = b.get_chi0(niv, do_asympt=True)
    raw = b.get_chi0(niv)
    corr = b.get_asymptotic_correction(niv)
    ctx.close(c, raw + corr, 'completion', 'completed = finite sum + correction', rtol=1e-11)
    for j, w in enumerate(wn):
        sgn = -w if note == 'plus' else w
        ref = lindhard((eloc, rloc), (eloc, rloc), sgn, beta)
        ctx.close(c[j], ref, 'exact-local', f'completed local bubble at w={w} (window {niv})', rtol=0, atol=tol)
        ctx.saw('exact_bubbles')
    cq = b.get_chi0_q_list(niv, qs)
    sh = b.get_chi0q_shell(cq, niv, shell, qs)
    ctx.close(cq + b.get_asymptotic_correction_q(niv, qs), cq + b.get_chi0q_shell(cq, niv, 0, qs), 'completion',
              'lattice completion without a shell', rtol=1e-11)
    for m, q in enumerate(qs):
        for j, w in enumerate(wn):
            sgn = -w if note == 'plus' else w
            ref = 0
            for k in spec:
                ref = ref + lindhard(spec[k], spec[tuple((k[d] + q[d]) % nk[d] for d in range(3))], sgn, beta)
            ref = ref / len(spec)
            ctx.close(cq[m, j] + sh[m, j], ref, 'exact-lattice', f'completed lattice bubble at w={w} q={q}', rtol=0, atol=tol)
            ctx.saw('exact_bubbles')
    for other in ('minus', 'plus', 'center'):  # another convention on request: same infinite sum
        co = b.get_chi0(niv, freq_notation=other, do_asympt=True)
        cqo = b.get_chi0_q_list(niv, qs, freq_notation=other)
        sho = b.get_chi0q_shell(cqo, niv, shell, qs, freq_notation=other)
        for j, w in enumerate(wn):
            s0 = (w if other != 'plus' else -w)
            ctx.close(co[j], lindhard((eloc, rloc), (eloc, rloc), s0, beta), 'exact-local',
                      f'completed local bubble, {other} requested from {note}, w={w}', rtol=0, atol=tol)
            ref = 0
            for k in spec:
                ref = ref + lindhard(spec[k], spec[tuple((k[d] + qs[-1][d]) % nk[d] for d in range(3))], s0, beta)
            ctx.close(cqo[-1, j] + sho[-1, j], ref / len(spec), 'exact-lattice',
                      f'completed lattice bubble, {other} requested from {note}, w={w} q={qs[-1]}', rtol=0, atol=tol)
            ctx.saw('exact_bubbles', 2)
    allq = [tuple(q) for q in np.ndindex(*nk)]
    ctx.close(b.get_asymptotic_correction_q(niv, allq).mean(0), corr, 'sum-rule', 'sum over q of the completion is local', rtol=1e-9, atol=1e-13)
    if is_full:
        ctx.close(c, np.conj(c[::-1]), 'conj', 'chi0(-w)=conj chi0(w)', rtol=1e-10)


def sc_reject(ctx, rng, i):
    nk, ek, beta, s, so, mu, g = build(rng)
    ctx.describe(nk=nk)
    ctx.raises(lambda: bub.BubbleGenerator(np.arange(0, 4), g, is_full_wn=True), 'asym-window', 'asymmetric window as full range')
    ctx.raises(lambda: bub.BubbleGenerator(np.arange(-1, 2), g, chi0_method='foo'), 'method', 'unknown method', ValueError)
    ctx.raises(lambda: bub.BubbleGenerator(np.arange(-1, 2), g, freq_notation='foo'), 'notation', 'unknown convention', ValueError)


SCENARIOS = [('def', sc_def, 80, 800), ('asympt', sc_asympt, 80, 600), ('reject', sc_reject, 4, 5)]

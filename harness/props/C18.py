"""C18: current-current response (bubble, vertex part, real-frequency bubble)."""
import numpy as np
from dga import analytic_continuation as ac
from dga import brillouin_zone as bz
from dga import optics
from dga import two_point as tp
from dga import wannier as wa
from harness import gen

RULE = ('random lattices with t-t\'-t\'\'-type hoppings (anisotropic, all derivative directions), causal self-energies, '
        'conventions, bosonic/fermionic windows, random current vertices on any partition of the momenta; explicit loop '
        'sums as oracle; Kramers-Kronig link between real and Matsubara axis. Non-trivial: w != 0')


def model(rng, i):
    nk = (int(rng.integers(1, 5)), int(rng.integers(1, 5)), int(rng.integers(1, 3)))
    if i % 4 == 2:  # hoppings of any range and direction (also out of plane), with phases and weights
        rs, hs, ws = [(0, 0, 0)], [rng.normal()], [1]
        for _ in range(int(rng.integers(2, 6))):
            r = tuple(int(x) for x in rng.integers(-2, 3, size=3))
            if r == (0, 0, 0) or r in rs:
                continue
            h, w = gen.crandn(rng), int(rng.integers(1, 4))
            rs += [r, tuple(-x for x in r)]
            hs += [h, np.conj(h)]
            ws += [w, w]
        m = len(rs)
        hr = wa.WannierHr(np.array(hs).reshape(m, 1, 1) * .5, np.array(rs).reshape(m, 1, 1, 3), np.array(ws, float).reshape(m, 1), np.ones((m, 1, 1, 2)))
        nk = nk[:2] + (int(rng.integers(1, 4)),)
    elif i % 2:
        hr = wa.WannierHr(*wa.wannier_one_band_2d_t_tp_tpp(1., float(rng.uniform(-.4, .4)), float(rng.uniform(-.2, .2))))
    else:
        hr = wa.WannierHr(*wa.wannier_one_band_2d_nematic(float(rng.uniform(.3, 1)), float(rng.uniform(.3, 1)), float(rng.uniform(-.3, .3)),
                                                          float(rng.uniform(-.3, .3)), float(rng.uniform(-.3, .3))))
    return nk, hr, bz.KGrid(nk, ())


def velocity(hr, nk, der):
    """i R_der exp(i k R) H(R) / weight summed over R; derivative of the Fourier sum"""
    out = np.zeros(nk, dtype=complex)
    for k in np.ndindex(*nk):
        kv = 2 * np.pi * np.array(k) / np.array(nk)
        for r, h, w in zip(hr.r_grid, hr.hr, hr.r_weights):
            R = np.asarray(r)[0, 0]
            out[k] += 1j * R[der] * np.exp(1j * kv @ R) * h[0, 0] / np.ravel(w)[0]
    return out


def giwk(rng, hr, grid, nk, n):
    beta = float(rng.uniform(1, 12))
    s = gen.PoleSigma(rng)
    mod = 1 + .2 * rng.normal(size=nk)
    sig = s.h + mod[..., None] * (s(gen.iv(beta, n)) - s.h)
    so = tp.SelfEnergy(sig, beta, smom0=s.h, smom1=s.mom1, niv_core=n)
    return beta, tp.GreensFunction(so, hr.get_ek(grid).real, mu=float(rng.normal() * .6 + s.h), niv_asympt=0)


def sc_bubble(ctx, rng, i):
    nk, hr, grid = model(rng, i)
    niw = int(rng.integers(0, 6))
    niv = int(rng.integers(1, 12))
    n = niv + niw + int(rng.integers(2, 20)) + 20
    beta, g = giwk(rng, hr, grid, nk, n)
    G = np.array(g.g_full())
    N = G.shape[-1] // 2
    note = ('minus', 'plus', 'center')[i % 3]
    da, db = int(rng.integers(0, 3)), int(rng.integers(0, 2))
    wn = np.arange(-niw, niw + 1) if i % 2 else rng.permutation(np.arange(-niw, niw + 1))[:3]
    ctx.describe(nontrivial=niw > 0, nk=nk, wn=wn, niv=niv, note=note, der=(da, db), beta=round(beta, 3))
    got = optics.vec_get_chijj_bubble(g, hr, grid, wn, niv, der_a=da, der_b=db, freq_notation=note)
    lv = velocity(hr, nk, da) * velocity(hr, nk, db)
    ref = []
    for w in wn:
        s1, s2 = {'minus': (0, -w), 'plus': (0, w), 'center': (w // 2, -(w // 2 + w % 2))}[note]
        x = 0
        for v in range(-niv, niv):
            x = x - 2 / beta * np.mean(lv * G[..., N + v + s1] * G[..., N + v + s2])
        ref.append(x)
    ctx.close(got, np.array(ref), 'bubble', f'current bubble {note}', rtol=1e-9, atol=1e-12)
    ctx.saw('bubbles', len(wn))


def vert_ref(G, lva, lvb, f, beta, qs, wp, wc, nq):
    """explicit loop: -2/(beta^2 N) sum_{q,w',v} mean_k la(k) lb(k+q) G(k,v-w)G(k,v) G(k+q,v-w')G(k+q,v-w'-w) F(q,w',w,v)"""
    n = f.shape[-1] // 2
    N = G.shape[-1] // 2
    out = np.zeros(len(wc), dtype=complex)
    for c, w in enumerate(wc):
        for i, q in enumerate(qs):
            Gq = np.roll(G, [-x for x in q], axis=(0, 1, 2))
            lq = np.roll(lvb, [-x for x in q], axis=(0, 1, 2))
            for j, ww in enumerate(wp):
                for v in range(-n, n):
                    out[c] += f[i, j, c, n + v] * np.mean(lva * lq * G[..., N + v] * G[..., N + v - w] *
                                                          Gq[..., N + v - ww] * Gq[..., N + v - ww - w])
    return -2 / beta ** 2 / nq * out


def sc_vertex(ctx, rng, i):
    nk, hr, grid = model(rng, i)
    nq = int(np.prod(nk))
    nvert, ncond, niv = int(rng.integers(0, 3)), int(rng.integers(0, 3)), int(rng.integers(1, 4)) if i % 6 else int(rng.integers(4, 11))
    n = niv + nvert + ncond + int(rng.integers(1, 10)) + 20
    beta, g = giwk(rng, hr, grid, nk, n)
    G = np.array(g.g_full())
    da, db = int(rng.integers(0, 3)), int(rng.integers(0, 3))
    wp, wc = np.arange(-nvert, nvert + 1), np.arange(0, ncond + 1)
    if i % 3 == 1:  # the frequencies belong to the entries of the vertex, whatever their order
        wp, wc = rng.permutation(wp), rng.permutation(wc)
    qs = [tuple(int(x) for x in q) for q in np.ndindex(*nk)]
    f = gen.crandn(rng, nq, len(wp), len(wc), 2 * niv)
    cut = sorted(int(x) for x in rng.integers(0, nq + 1, size=int(rng.integers(0, 4))))
    parts = np.split(np.arange(nq), cut)
    ctx.describe(nontrivial=nq > 1, nk=nk, nvert=nvert, ncond=ncond, niv=niv, der=(da, db), parts=[len(p) for p in parts])
    tot = 0
    for p in parts:
        tot = tot + optics.vec_get_chijj_vert(f[p], g, hr, grid, wp, wc, [qs[j] for j in p] if i % 2 else np.array(qs)[p].reshape(-1, 3), der_a=da, der_b=db)
    ref = vert_ref(G, velocity(hr, nk, da), velocity(hr, nk, db), f, beta, qs, wp, wc, nq)
    ctx.close(tot, ref, 'vertex', 'vertex part summed over any split of the momenta', rtol=1e-9, atol=1e-13)
    ctx.raises(lambda: optics.vec_get_chijj_vert(f, g, hr, grid, np.arange(-nvert - 1, nvert + 2), wc, qs), 'shape', 'vertex with a different number of internal frequencies')
    ctx.raises(lambda: optics.vec_get_chijj_vert(f, g, hr, grid, wp, np.arange(0, ncond + 2), qs), 'shape', 'vertex with a different number of external frequencies')
    # F(v,v') -> F(v,v-w)
    m = niv + ncond
    mat = gen.crandn(rng, 2 * m, 2 * m)
    if i % 2:
        mat = mat.real
    ws = rng.permutation(np.arange(-ncond, ncond + 1))[:int(rng.integers(1, 2 * ncond + 2))]
    sl = optics.get_vmw_v_slice(mat, ws, niv)
    ctx.equal(sl.shape, (len(ws), 2 * niv), 'slice', 'shape of F(v,v-w)')
    for c, w in enumerate(ws):
        for v in range(-niv, niv):
            ctx.equal(sl[c, niv + v], mat[m + v, m + v - w], 'slice', 'F(v,v-w)')
    ctx.saw('vertex_terms', nq * len(wp) * len(wc) * 2 * niv)


def sc_real(ctx, rng, i):
    nk, hr, grid = model(rng, i)
    nk = (max(nk[0], 2) + 1, max(nk[1], 2) + 1, 1)
    grid = bz.KGrid(nk, ())
    beta = float(rng.uniform(1, 15)) if i % 4 != 3 else float(rng.uniform(20, 30))
    gam = float(rng.uniform(.25, .5))
    wmax, nw = 18., (2400 if i % 5 == 3 else 1200) + int(rng.integers(0, 2)) * 200 + i % 2  # coarse far from zero on the hyperbolic mesh
    mt = ['linear', 'tan', 'lorentzian', 'hyperbolic', 'linear'][i % 5]
    if i % 5 == 4:  # zero is not in the middle of the mesh
        d = 2 * wmax / (nw - 1)
        w = (np.arange(nw) - nw // 2 + int(rng.integers(20, 120)) * (1 if i % 2 else -1)) * d
    else:
        w = ac.get_w_mesh(mt, -wmax, wmax, nw, .04)
    fine = np.linspace(-wmax, wmax, 1801)
    ek = hr.get_ek(grid).real
    mu = float(rng.normal() * .5)
    ref_g = 1 / (w + mu - ek[..., None] + 1j * gam)
    g = tp.RealFrequencyGF(w, np.zeros((1, 1, 1, nw)) + 0j, ek, mu=mu, deltino=gam)
    wb = float(rng.uniform(1.5, 5))
    da = int(rng.integers(0, 2))
    db = da if i % 3 else 1 - da
    ctx.describe(nk=nk, beta=round(beta, 3), gamma=round(gam, 3), nw=nw, wb=round(wb, 3), der=(da, db), mu=round(mu, 3))
    chi, wbub = optics.vec_get_chijj_bubble_realf(g, hr, grid, beta, wb, der_a=da, der_b=db)
    lv = (velocity(hr, nk, da) * velocity(hr, nk, db)).real
    nf = lambda x: .5 * (1 - np.tanh(beta * x / 2))
    aw = lambda x: gam / np.pi / ((x + mu - ek[..., None]) ** 2 + gam ** 2)
    pos = w[w > 1e-9]
    if np.min(np.abs(w)) > 1e-9 and abs(wbub[0] - pos[0]) > 1e-9:
        pos = pos[1:]  # no point at zero: either neighbour of zero may be taken for it
    ctx.close(wbub, pos[:len(wbub)], 'grid', 'output frequencies start right above zero', atol=1e-9)
    ctx.true(abs(wbub[-1] - wb) < 3 * np.max(np.diff(pos[:len(wbub) + 3])), 'grid', f'output reaches {wb}')
    dw = fine[1] - fine[0]
    im = np.array([2 * np.pi * np.mean(lv * np.sum(aw(fine) * aw(fine + x) * (nf(fine) - nf(fine + x)), axis=-1)) * dw for x in wbub])
    big = np.max([2 * np.pi * np.mean(np.abs(lv) * np.sum(aw(fine) * aw(fine + x) * (nf(fine) - nf(fine + x)), axis=-1)) * dw for x in wbub])  # without cancellations
    sc = np.max(np.abs(im))
    ctx.close(chi.imag, im, 'absorption', f'{mt}: Im chi = 2 pi sum v^2 int A(v)A(v+w)[f(v)-f(v+w)]', rtol=2e-3 if mt == 'linear' else 1e-2,
              atol=1e-4 * np.mean(np.abs(lv)) + (0 if mt == 'linear' else 5e-3 * big))
    if da == db:
        ctx.true(np.all(chi.imag > -1e-3 * sc - 1e-7), 'positive', 'absorption must be non-negative')
    # conductivity: Im chi / w, interpolated to w = 0
    sig, ws = optics.vec_get_sigma_bub_realf(g, hr, grid, beta, wb, der_a=da, der_b=db)
    ctx.close(ws, np.concatenate(([0.], wbub)), 'sigma', 'frequency axis', atol=1e-12)
    ctx.close(sig[1:], chi.imag / wbub, 'sigma', 'sigma = Im chi / w', rtol=1e-6)
    dnf = beta / 4 / np.cosh(np.clip(beta * fine / 2, -300, 300)) ** 2
    dc = 2 * np.pi * np.mean(lv * np.sum(aw(fine) ** 2 * dnf, axis=-1)) * dw
    ctx.close(sig[0], dc, 'dc', 'static limit', rtol=.02, atol=.02 * max(np.max(np.abs(sig)), 2 * np.pi * np.mean(np.abs(lv) * np.sum(aw(fine) ** 2 * dnf, axis=-1)) * dw) + 1e-9)
    ctx.raises(lambda: optics.vec_get_chijj_bubble_realf(g, hr, grid, beta, w[-1] * 1.2), 'range', 'frequencies beyond the Green\'s function')
    # same response on the Matsubara axis: chi(i w_n) - chi(0) through the spectral representation
    n = 4000
    v = gen.iv(beta, n)
    giw = 1 / (v + mu - ek[..., None] + 1j * gam * np.sign(v.imag))
    wn = int(rng.integers(1, 4))
    jj = np.arange(1, len(fine) - 12)
    full = np.array([2 * np.pi * np.mean(lv * np.sum(aw(fine) * aw(fine + x) * (nf(fine) - nf(fine + x)), axis=-1)) * dw for x in jj * dw]) \
        if i % 4 == 0 else None
    if full is not None:
        om = jj[:len(full)] * dw
        bw = 2 * np.pi * wn / beta

        def kk(x):
            return 2 / np.pi * np.sum(full * om / (om ** 2 + x ** 2)) * dw
        m = [np.asarray(optics.get_chijj_bubble(giw, velocity(hr, nk, da), velocity(hr, nk, db), beta, x, n - 10)) for x in (0, wn)]
        dm = (m[0] - m[1]).real
        ctx.close(dm, kk(0) - kk(bw), 'axes', 'Matsubara bubble = spectral integral of the real-frequency one', rtol=.03, atol=.02 * abs(kk(0)) + 1e-8)
        ctx.saw('axis_links')
    ctx.saw('absorption_points', len(wbub))


def sc_sigma(ctx, rng, i):
    """conductivity of a given absorption on few points: sigma = Im chi / w, extended to zero as the even function it is"""
    n = int(rng.integers(3, 12))
    w = np.cumsum(rng.uniform(.1, .4, size=n))
    if i % 3 == 0:
        w = w[0] * (1 + 2 * np.arange(n))
    a, b = rng.uniform(.3, 2), rng.normal()
    chi = rng.normal(size=n) + 1j * w * (a + b * w ** 2)
    ctx.describe(w=[round(float(x), 3) for x in w], a=round(float(a), 3), b=round(float(b), 3))
    sig, ws = optics.get_sigma_from_chijj_realf(chi, w)
    ctx.close(ws, np.concatenate(([0.], w)), 'sigma', 'frequency axis', atol=1e-12)
    ctx.close(sig, a + b * ws ** 2, 'sigma', 'quadratic conductivity, extended to zero frequency', rtol=1e-8)
    ctx.saw('conductivities')


SCENARIOS = [('sigma', sc_sigma, 30, 300), ('bubble', sc_bubble, 60, 1000), ('vertex', sc_vertex, 30, 400), ('real', sc_real, 16, 150)]

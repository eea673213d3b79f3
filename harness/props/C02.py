"""C02: particle-hole -> particle-particle change of frequency notation."""
import numpy as np
from dga import matsubara_frequencies as mf

RULE = ('random complex vertices on random (w,v,v\') boxes with 0-2 leading axes; every entry is unique, so each '
        'transformed entry identifies the particle-hole entry it was read from. Non-trivial: transformed box non-empty')


def sc_map(ctx, rng, i):
    niw, niv = int(rng.integers(3, 16)), int(rng.integers(3, 16))
    if i % 4 == 0:
        niw = niv
    lead = [int(x) for x in rng.integers(1, 3, size=int(rng.integers(0, 3)))]
    ctx.describe(niw=niw, niv=niv, lead=lead)
    m = rng.normal(size=lead + [2 * niw + 1, 2 * niv, 2 * niv]) + 1j * rng.normal(size=lead + [2 * niw + 1, 2 * niv, 2 * niv])
    ctx.true(len(np.unique(m)) == m.size, 'unique', 'harness')
    keep = m.copy()
    nw3 = int(min(niw, niv) // 6)
    for wpp in range(-nw3, nw3 + 1):
        p = mf.ph2pp_iwn(m, wpp)
        n = p.shape[-1] // 2
        ctx.true(n == min(niw // 3, niv // 3), 'box', f'pp box {n}')
        for v in range(-n, n):
            for vp in range(-n, n):
                ctx.equal(p[..., n + v, n + vp], keep[..., niw + v + vp + 1 - wpp, niv + v, niv + vp], 'ph2pp',
                          f'F(v+v\'-w,v,v\') v={v} vp={vp} wpp={wpp}')
                ctx.saw('entries')
    nw4 = int(min(niw, niv) // 4)
    for wpp in range(-nw4, nw4 + 1):
        p = mf.ph2pp_iwn_wc(m, wpp)
        n = p.shape[-1] // 2
        ctx.true(n == min(niw // 2, niv // 2), 'box', f'pp box {n}')
        for v in range(-n, n):
            for vp in range(-n, n):
                ctx.equal(p[..., n + v, n + vp], -keep[..., niw + v - vp, niv + v, niv + wpp - vp - 1], 'ph2pp_wc',
                          f'-F(v-v\',v,w-v\') v={v} vp={vp} wpp={wpp}')
                ctx.saw('entries')
    ctx.equal(m, keep, 'alias', 'input modified')


def sc_all(ctx, rng, i):
    niv = int(rng.integers(4, 13))
    niw = max(1, int(niv + rng.integers(-3, 3)))
    ctx.describe(niw=niw, niv=niv)
    sh = [2 * niw + 1, 2 * niv, 2 * niv]
    d = rng.normal(size=sh) + 1j * rng.normal(size=sh)
    m = rng.normal(size=sh) + 1j * rng.normal(size=sh)
    nwa, nwb = sh[0] // 6, sh[0] // 4
    a = mf.ph2pp(d)
    na = min(niw, niv) // 3
    ctx.true(a.shape == (2 * nwa + 1, 2 * na, 2 * na), 'box', f'{a.shape}')
    for j, w in enumerate(range(-nwa, nwa + 1)):
        for v in range(-na, na):
            for vp in range(-na, na):
                ctx.equal(a[j, na + v, na + vp], d[niw + v + vp + 1 - w, niv + v, niv + vp], 'ph2pp', f'w={w} v={v} vp={vp}')
    if nwb <= niv // 2:
        b = mf.ph2pp_wc(d)
        ctx.true(b.shape[0] == 2 * nwb + 1, 'box', f'{b.shape}')
        bm = mf.ph2pp_wc(m)
        tr, si = mf.ph2pp_wc_md(d, m)
        n = b.shape[-1] // 2
        for j, w in enumerate(range(-nwb, nwb + 1)):
            for v in range(-n, n):
                for vp in range(-n, n):
                    e = d[niw + v - vp, niv + v, niv + w - vp - 1], m[niw + v - vp, niv + v, niv + w - vp - 1]
                    k = (j, n + v, n + vp)
                    ctx.close(b[k], -e[0], 'ph2pp_wc', f'v={v} vp={vp} w={w}')
                    ctx.close(tr[k], -0.5 * e[0] - 1.5 * e[1], 'ph2pp_wc_md', f'first comb v={v} vp={vp} w={w}')
                    ctx.close(si[k], -0.5 * e[0] + 0.5 * e[1], 'ph2pp_wc_md', f'second comb v={v} vp={vp} w={w}')
                    ctx.saw('entries', 3)
    ctx.true(True, 'x')
    ctx.raises(lambda: mf.ph2pp_iwn(np.zeros((4, 4))), 'rank', 'two-dimensional input', AssertionError)


def sc_large(ctx, rng, i):
    """boxes as large as those of a production run; compared as a whole"""
    niw, niv = int(rng.integers(30, 48)), int(rng.integers(30, 48))
    if i % 2:
        niw = niv
    ctx.describe(niw=niw, niv=niv)
    sh = (2 * niw + 1, 2 * niv, 2 * niv)
    m = np.arange(np.prod(sh), dtype=float).reshape(sh) * (1 + .5j)
    wa, wb = np.arange(-(sh[0] // 6), sh[0] // 6 + 1), np.arange(-(sh[0] // 4), sh[0] // 4 + 1)
    for name, f, w, n in (('ph2pp', mf.ph2pp, wa, min(niw, niv) // 3), ('ph2pp_wc', mf.ph2pp_wc, wb, min(niw, niv) // 2)):
        v = np.arange(-n, n)
        w, a, b = w[:, None, None], v[None, :, None], v[None, None, :]
        last = b if name == 'ph2pp' else w - b - 1
        if np.min(niv + last) < 0 or np.max(niv + last) >= 2 * niv:
            continue
        first = a + b + 1 - w if name == 'ph2pp' else a - b
        if np.min(niw + first) < 0 or np.max(niw + first) > 2 * niw:
            continue
        e = m[niw + first, niv + a, niv + last] * (1 if name == 'ph2pp' else -1)
        got = f(m)
        ctx.true(got.shape == e.shape, 'box', f'{name}: {got.shape} instead of {e.shape}')
        ctx.equal(got, e, name, 'large box')
        ctx.saw('entries', e.size)
    ctx.true(True, 'x')


SCENARIOS = [('map', sc_map, 120, 300), ('all', sc_all, 160, 200), ('large', sc_large, 6, 40)]

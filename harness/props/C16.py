"""C16: Moriyaesque lambda correction."""
import numpy as np
from dga import lambda_correction as lc
from harness import gen

RULE = ('random momentum/frequency-dependent susceptibilities of ladder form 1/(m+a(q)+b|w|^p), with and without a diverged '
        '(negative) static part, small imaginary noise, odd/even meshes; random local targets below and above the ladder '
        'sum. Oracle: bisection on the sum rule. Non-trivial: target differs from the uncorrected sum')


def ladder(rng, nk, niw, beta, neg):
    k = np.meshgrid(*[2 * np.pi * np.arange(n) / n for n in nk], indexing='ij')
    q0 = rng.uniform(0, 2 * np.pi, size=3)
    a = sum(float(rng.uniform(.1, 2)) * (1 - np.cos(x - q)) for x, q in zip(k, q0))
    a = a - a.min()
    m = float(rng.uniform(.02, 1.5))
    if neg:
        vals = np.unique(np.round(a.ravel(), 12))
        j = int(rng.integers(1, max(2, min(4, len(vals)))))
        if len(vals) > j:
            m = -0.5 * (vals[j - 1] + vals[j])  # between two levels: never exactly divergent
        else:
            m = -abs(m)
    w = np.abs(np.arange(-niw, niw + 1))
    p = float(rng.choice([1, 1.5, 2]))
    x = m + a[..., None] + (float(rng.uniform(.5, 4)) * w / beta) ** p + (w > 0) * 1e-3
    return 1 / x


def rule(chi, lam, beta):
    return np.sum(1 / (1 / chi + lam), axis=-1).mean().real / beta


def solve(chi, target, beta):
    lo = -np.min((1 / chi[..., chi.shape[-1] // 2]).real)
    d = 1.
    while rule(chi, lo + d, beta) > target:
        d *= 2
        if d > 1e12:
            return None
    a, b = 0., d
    for _ in range(200):
        c = .5 * (a + b)
        if rule(chi, lo + c, beta) > target:
            a = c
        else:
            b = c
    return lo + .5 * (a + b), lo


def local_chi(rng, target, niw, beta):
    w = np.abs(np.arange(-niw, niw + 1))
    c = 1 / (1 + w)
    return c / c.sum() * target * beta * np.ones(1, dtype=complex)


def sc_corr(ctx, rng, i):
    nk = gen.rand_nk(rng, 1, 6)
    niw = int(rng.integers(0, 12))
    beta = float(rng.uniform(1, 40))
    neg = i % 3 == 1 and int(np.prod(nk)) > 1
    mode = ('spch', 'sp', 'none')[i % 5 // 2] if i % 5 < 4 else 'spch'
    # spin-only correction leaves the density channel alone, whatever it looks like
    chid = ladder(rng, nk, niw, beta, mode == 'sp' and i % 4 == 3 and int(np.prod(nk)) > 1)
    chim = ladder(rng, nk, niw, beta, neg)
    if i % 2:
        chid, chim = chid.astype(complex), chim.astype(complex)
    td = rule(chid, 0, beta) * float(rng.uniform(.3, 2.5))
    big = chim[chim > 0] if not np.iscomplexobj(chim) else chim.real[chim.real > 0]
    tm = float(np.sum(big) / chim[..., 0].size / beta) * float(rng.uniform(.2, 3)) + 1e-3
    ld, lm = local_chi(rng, td, niw, beta), local_chi(rng, tm, niw, beta)
    ctx.describe(nk=nk, niw=niw, beta=round(beta, 3), diverged=bool(neg), mode=mode, td=round(td, 5), tm=round(tm, 5))
    kd, km = chid.copy(), chim.copy()
    od, om, lamd, lamm = lc.lambda_correction(chid, chim, beta, ld, lm, lambda_corr=mode)
    ctx.equal(chid, kd, 'alias', 'input modified')
    ctx.equal(chim, km, 'alias', 'input modified')
    if mode == 'none':
        ctx.equal(od, kd, 'none')
        ctx.equal(om, km, 'none')
        ctx.true(lamd == 0 and lamm == 0, 'none', 'lambda must be zero')
        return
    # correct form: 1/chi -> 1/chi + lambda, same lambda for all momenta and frequencies
    for c0, c1, lam, t, name in ((kd, od, lamd, td, 'dens'), (km, om, lamm, tm, 'magn')):
        if name == 'dens' and mode == 'sp':
            ctx.equal(c1, c0, 'sp-dens', 'density channel must be untouched')
            ctx.true(lam == 0, 'sp-dens', 'lambda_dens')
            continue
        if name == 'magn' and mode == 'sp':
            t = tm + td - rule(kd, 0, beta)
            if t <= 1e-3 * tm:
                ctx.saw('sp_target_unreachable')
                continue
        ref, start = solve(c0, t, beta)
        ctx.close(c1, 1 / (1 / c0 + lam), 'form', f'{name} 1/chi+lambda', rtol=1e-9)
        s = np.sum(c1, axis=-1).mean() / beta
        ctx.close(s.real, t, 'sum-rule', f'{name} sum over q and w (lambda {lam} ref {ref} start {start})', atol=2e-6, rtol=1e-6)
        ctx.true(lam > start, 'branch', f'{name} lambda {lam} must exceed {start}')
        ctx.true(np.all(c1[..., niw].real > 0), 'positive', f'{name} corrected static susceptibility positive')
        slope = np.sum(np.abs(1 / (1 / c0 + ref)) ** 2, axis=-1).mean() / beta
        ctx.true(abs(lam - ref) <= 1e-6 * (1 + abs(ref)) + 4e-6 / slope, 'lambda', f'{name} {lam} vs bisection {ref}')
        ctx.saw('corrected_diverged' if neg and name == 'magn' else 'corrected')


def sc_pieces(ctx, rng, i):
    nk = gen.rand_nk(rng, 1, 6)
    niw = int(rng.integers(0, 8))
    beta = float(rng.uniform(1, 40))
    chi = ladder(rng, nk, niw, beta, i % 2 == 0 and int(np.prod(nk)) > 1) * (1 + 0j)
    ctx.describe(nk=nk, niw=niw, beta=round(beta, 4))
    s = lc.get_lambda_start(chi)
    ctx.close(s, -np.min(1 / chi[..., niw].real), 'start', 'smallest admissible lambda', rtol=1e-12)
    lam = float(s + rng.uniform(.01, 3))
    ctx.close(lc.use_lambda(chi, lam), 1 / (1 / chi + lam), 'apply', 'correction', rtol=1e-12)
    z = chi * np.exp(.3j * rng.normal(size=chi.shape))
    ctx.close(lc.use_lambda(z, lam), 1 / (1 / z + lam), 'apply', 'correction of complex data', rtol=1e-12)
    t = rule(chi, lam, beta)
    got = lc.lambda_correction_single(beta, lambda_start=s, chir=chi, chi_loc_sum=t)
    slope = np.sum(np.abs(1 / (1 / chi + lam)) ** 2, axis=-1).mean() / beta
    ctx.true(abs(got - lam) <= 1e-6 * (1 + abs(lam)) + 4e-6 / slope, 'inverse', f'lambda {lam} recovered as {got}')
    # already fulfilled sum rule -> lambda = 0
    if s < 0:
        z = lc.lambda_correction_single(beta, lambda_start=s, chir=chi, chi_loc_sum=rule(chi, 0, beta))
        slope = np.sum(np.abs(chi) ** 2, axis=-1).mean() / beta
        ctx.true(abs(z) <= 1e-6 + 4e-6 / slope, 'fixed-point', f'lambda {z} for a fulfilled sum rule')
    bad = str(rng.choice(['spchh', 'SP', 'ch', '', 'None']))
    ctx.raises(lambda: lc.lambda_correction(chi, chi, beta, chi[0, 0, 0], chi[0, 0, 0], lambda_corr=bad), 'unknown',
               f'unknown correction type {bad!r}', NotImplementedError)


SCENARIOS = [('corr', sc_corr, 800, 2000), ('pieces', sc_pieces, 480, 1200)]

"""C29: Pade approximants."""
import numpy as np
from dga import pade_aux as pa

RULE = ('random rational functions with poles on and below the real axis sampled on Matsubara points (shuffled, mirrored, thinned, rescaled), arbitrary data for the interpolation '
        'property, noisy data for the averaged continuation. Oracle: the function itself, the interpolated data, own average over the accepted continuations. Non-trivial: more than one pole')


def rational(rng, r, width):
    """residues and poles of a causal function"""
    e = np.sort(rng.uniform(-3, 3, size=r))
    e = e + np.arange(r) * .4 - (r - 1) * .2
    g = rng.uniform(0, .5, size=r) if width else np.zeros(r)
    w = rng.dirichlet(np.ones(r) * 4)
    return w, e - 1j * g


def value(p, z):
    return np.sum(p[0] / (np.asarray(z)[..., None] - p[1]), axis=-1)


def tolerance(fn, f, rng):
    """how much the result moves when the data move by 1e-12"""
    a = fn(f)
    d = 0.
    for _ in range(3):
        d = max(d, float(np.max(np.abs(fn(f * (1 + 1e-12 * (rng.normal(size=f.shape) + 1j * rng.normal(size=f.shape)))) - a))))
    return a, 30 * d + 1e-10


def sc_exact(ctx, rng, i):
    """a rational function is recovered"""
    r = int(rng.integers(1, 5))
    p = rational(rng, r, i % 2)
    beta = float(rng.uniform(2, 20))
    n = 2 * r
    more = int(rng.integers(0, 8))
    start = int(rng.integers(-r, 4))
    v = np.pi / beta * (2 * np.arange(start, start + n + more) + 1)
    z = 1j * v[rng.permutation(len(v))]
    f = value(p, z)
    zo = np.concatenate((rng.uniform(-4, 4, size=9) + 1j * rng.uniform(.05, 2, size=9), 1j * rng.uniform(.1, 5, size=3)))
    want = value(p, zo)
    ctx.describe(nontrivial=r > 1, r=r, beta=round(beta, 4), more=more, start=start, width=bool(i % 2), e=[round(float(x), 3) for x in p[1].real])
    runs = {'thiele': (z[:n], lambda g: pa.padeThiele(z[:n], g, zo)),
            'matrix': (z, lambda g: pa.epade(zo, pa.padeMatrix(z, g, n))),
            'recursion': (z[:n], lambda g: pa.C(zo, z[:n], g, pa.compute_coefficients(z[:n], g)))}
    for name, (x, fn) in runs.items():
        got, tol = tolerance(fn, value(p, x), rng)
        if not np.isfinite(tol) or tol > 1e-3 * np.max(np.abs(want)):
            ctx.saw('ill_conditioned')
            continue
        ctx.close(np.asarray(got, dtype=complex), want, name, f'{r} poles from {len(x)} points', rtol=0, atol=tol)
        ctx.saw('recovered_' + name)
    # the coefficients are numerator and monic denominator
    c = pa.padeMatrix(z, f, n)
    ctx.true(c.shape == (n,), 'coefficients', f'{c.shape}')
    num = np.polyval(c[:r][::-1], zo)
    den = np.polyval(np.concatenate(([1.], c[r:][::-1])), zo)
    ctx.close(np.asarray(pa.epade(zo, c), dtype=complex), num / den, 'coefficients', 'numerator over denominator', rtol=1e-9)
    # the class used like the one of ana_cont
    w = np.linspace(-4, 4, 23)
    if i % 2:
        im = v[:n][rng.permutation(n)]
        s = pa.PadeSolver(im_axis=im, re_axis=w, im_data=value(p, 1j * im))
        o = s.solve()
        _, tol = tolerance(lambda g: pa.C(w, 1j * im, g, pa.compute_coefficients(1j * im, g)), value(p, 1j * im), rng)
        pole = np.min(-p[1].imag)
        if np.isfinite(tol) and tol < 1e-3 and pole > .05:
            ctx.close(o.g_ret, value(p, w), 'solver', 'retarded function', rtol=0, atol=tol)
            ctx.equal(o.A_opt, -o.g_ret.imag / np.pi, 'solver', 'spectrum')
            ctx.close(o.numerator_function(w) / o.denominator_function(w), o.g_ret, 'solver', 'numerator and denominator functions', rtol=1e-9)
            ctx.close(o.numerator / o.denominator, o.g_ret, 'solver', 'numerator and denominator', rtol=1e-9)
            fine = np.abs(rng.uniform(.1, 2, size=7)) * np.max(np.abs(im))
            ctx.close(s.check(fine), value(p, 1j * fine), 'check', 'interpolation between the frequencies', rtol=0, atol=tol + 1e-9)
            d = s.check()
            ctx.true(s.ivcheck.shape == d.shape == (500,) and s.ivcheck[0] == 0 and s.ivcheck[-1] == 2 * np.max(im), 'check', 'default test frequencies')
            ctx.saw('solver_runs')


def sc_interpolate(ctx, rng, i):
    """any data are interpolated"""
    n = int(rng.integers(2, 11))
    z = rng.normal(size=n) + 1j * (np.arange(n) + 1) * float(rng.uniform(.5, 2))
    f = rng.normal(size=n) + 1j * rng.normal(size=n)
    ctx.describe(n=n, i=i)
    keep = z.copy(), f.copy()
    got, tol = tolerance(lambda g: pa.padeThiele(z, g, z), f, rng)
    if np.isfinite(tol) and tol < 1e-4:
        ctx.close(np.asarray(got, dtype=complex), f, 'interpolation', 'Thiele', rtol=0, atol=tol)
        ctx.saw('interpolated')
    got, tol = tolerance(lambda g: pa.C(z, z, g, pa.compute_coefficients(z, g)), f, rng)
    if np.isfinite(tol) and tol < 1e-4:
        ctx.close(got, f, 'interpolation', 'recursion', rtol=0, atol=tol)
    zo = rng.normal(size=5) + 1j * rng.uniform(.2, 3, size=5)
    if n % 2 == 0:
        got, tol = tolerance(lambda g: pa.epade(z, pa.padeMatrix(z, g, n)), f, rng)
        if np.isfinite(tol) and tol < 1e-4:
            ctx.close(np.asarray(got, dtype=complex), f, 'interpolation', 'matrix', rtol=0, atol=tol)
        # functions that vanish at infinity: the continued fraction and the matrix agree
        a = pa.padeThiele(z, f, zo)
        b, tol = tolerance(lambda g: pa.epade(zo, pa.padeMatrix(z, g, n)), f, rng)
        if np.isfinite(tol) and tol < 1e-4 * np.max(np.abs(a)):
            ctx.close(np.asarray(b, dtype=complex), np.asarray(a, dtype=complex), 'agreement', 'continued fraction and matrix', rtol=0, atol=tol + 1e-9)
            ctx.saw('agreements')
    ctx.true(np.array_equal(z, keep[0]) and np.array_equal(f, keep[1]), 'alias', 'input modified')


def sc_columns(ctx, rng, i):
    """several functions, chosen points, refused requests"""
    r = int(rng.integers(1, 4))
    n = 2 * r
    ncol = int(rng.integers(1, 4))
    beta = float(rng.uniform(3, 12))
    m = n + int(rng.integers(0, 5))
    z = 1j * np.pi / beta * (2 * np.arange(m + 6) + 1)
    ps = [rational(rng, r, True) for _ in range(ncol)]
    f = np.array([value(p, z) for p in ps]).T
    zo = rng.uniform(-3, 3, size=6) + .3j
    ctx.describe(nontrivial=ncol > 1, r=r, ncol=ncol, m=m, beta=round(beta, 4))
    for solver, cnt in ((0, m), (1, n), (2, m)):
        fn = lambda g: pa.acPade(z[:cnt], g, n, zo, solver)
        got, tol = tolerance(fn, f[:cnt], rng)
        if np.isfinite(tol) and tol < 1e-3:
            ctx.close(np.asarray(got, dtype=complex), np.array([value(p, zo) for p in ps]).T, 'columns', f'solver {solver}: every function on its own', rtol=1e-6 if solver == 2 else 0, atol=tol)
            ctx.saw(f'columns_solver{solver}', ncol)
    # noisy data: the non-linear fit minimises the deviation itself
    g = f[:m, 0] * (1 + 1e-3 * rng.normal(size=m)) if r < 3 else f[:m, 0]
    a, b = (float(np.sum(np.abs(pa.epade(z[:m], x) - g) ** 2)) for x in (pa.padeNonlinear(z[:m], g, n), pa.padeMatrix(z[:m], g, n)))
    ctx.true(a <= b * (1 + 1e-6) + 1e-12 * np.sum(np.abs(g) ** 2), 'non-linear', f'residual {a:.3e}, the linear fit has {b:.3e}')
    if m > n and r < 3:  # the linear fit weighs the deviations with the denominator
        ctx.true(a < b * (1 - 1e-7), 'non-linear', f'residual {a:.6e} of noisy data not below that of the linear fit')
        x = pa.padeNonlinear(z[:m], g, n)
        ctx.close(np.asarray(pa.acPade(z[:m], g[:, None], n, zo, 2)[:, 0], dtype=complex), np.asarray(pa.epade(zo, x), dtype=complex), 'non-linear', 'continued like it is fitted', rtol=1e-9)
        ctx.saw('noisy_fits')
    ctx.raises(lambda: pa.acPade(z, f, n + 1, zo, 0), 'refused', 'odd number of coefficients', SystemExit)
    ctx.raises(lambda: pa.acPade(z[:n + 2], f[:n + 2], n, zo, 1), 'refused', 'Thiele with more points than coefficients', SystemExit)
    ctx.raises(lambda: pa.acPade(z, f, n, zo, 3 + i % 3), 'refused', 'unknown solver', SystemExit)
    cols = sorted(rng.choice(ncol, size=int(rng.integers(1, ncol + 1)), replace=False).tolist())
    if i % 2:
        z = z + rng.normal(size=len(z))  # any points of the upper half plane
    full = np.concatenate((np.conj(z[::-1]), z))
    ff = np.array([value((p[0], p[1].real), full) for p in ps]).T  # f(z*) = f(z)* needs real poles
    fz = ff[len(z):]
    for nmin in range(-5, 4):
        cnt = int(rng.integers(max(1, -nmin + 1), 7))
        zp, fp = pa.pick_points(z, fz, nmin, cnt, cols)
        s = slice(len(z) + nmin, len(z) + nmin + cnt)
        ctx.equal(zp, full[s], 'points', f'{cnt} points from {nmin}')
        ctx.close(fp, ff[s][:, cols], 'points', f'values of {cnt} points from {nmin}', rtol=1e-12)
        ctx.saw('picked', cnt)


def sc_average(ctx, rng, i):
    """the averaged continuation"""
    p = rational(rng, int(rng.integers(1, 4)), True)
    p = p[0], p[1].real - .4j - .3j * rng.random(len(p[0]))
    beta = float(rng.uniform(80, 200))
    z = 1j * np.pi / beta * (2 * np.arange(110) + 1)
    noise = float(10 ** rng.uniform(-9, -6))
    f = value(p, z)
    f = (f * (1 + noise * (rng.normal(size=len(z)) + 1j * rng.normal(size=len(z)))))[:, None]
    other = rng.normal(size=(len(z), 1)) * 1j  # only the first column is continued
    zo = np.linspace(-3, 3, 15) + .1j
    ctx.describe(beta=round(beta, 4), noise=noise, poles=len(p[0]))
    try:
        mean, fs, masks = pa.pade(z, np.hstack((f, other)), zo)
    except SystemExit:
        ctx.saw('no_physical_continuation')
        return
    ctx.true(mean.shape == (15, 1) and fs.shape[1:] == (15, 1) and masks.shape == (len(fs), 1), 'average', f'{mean.shape} {fs.shape} {masks.shape}')
    ctx.true(np.all(fs.imag <= 0), 'physical', 'a continuation with negative spectral weight was accepted')
    pick = masks[:, 0].astype(bool)
    ctx.true(pick.any(), 'average', f'none of {len(fs)} physical continuations is averaged')
    ctx.close(np.asarray(mean[:, 0], dtype=complex), np.asarray(fs[pick, :, 0].mean(axis=0), dtype=complex), 'average', 'mean of the picked continuations', rtol=1e-12)
    if len(fs) > 1:
        d = np.array([sum(float(np.sum(np.abs(a.imag - b.imag))) for b in fs[:, :, 0]) for a in fs[:, :, 0]])
        best = np.zeros(len(d), dtype=bool)
        best[np.argsort(d)[:int(.51 * len(d))]] = True
        want = best & (d <= .99 * d.mean())
        if not want.any():  # no one is closer to the others
            want[:] = True
        k, tiny = int(.51 * len(d)), 1e-9 * d.mean() + 1e-12
        cut = np.sort(d)[max(0, k - 1):k + 1]
        edge = (np.abs(d - cut[0]) < tiny) & (len(cut) > 1 and cut[-1] - cut[0] < tiny)  # the order is not decided
        near = np.abs(d - .99 * d.mean()) < tiny
        ctx.true(np.all((pick == want) | edge | near), 'picked', 'the continuations closest to the others are averaged')
        ctx.saw('ranked', len(d))
    ctx.saw('continuations_averaged', int(pick.sum()))


SCENARIOS = [('exact', sc_exact, 180, 3000), ('interpolate', sc_interpolate, 180, 3000), ('columns', sc_columns, 90, 1000), ('average', sc_average, 12, 40)]

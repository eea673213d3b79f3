"""C17: linearised Eliashberg equation: returned pairs are eigenpairs, the first is the leading one."""
import numpy as np
from dga import brillouin_zone as bz
from dga import eliashberg_equation as eq
from harness.env import no_plots, scratch
from harness.props.C14 import cfg_for
from types import SimpleNamespace

RULE = ('random Hermitian pairing vertices (momentum-even, real and complex) and Green\'s functions on random grids; oracle: '
        'dense diagonalisation of the full (k,v) matrix. Cases whose power iteration converges slowly (eigenvalue ratio '
        '> 0.96) are generated but only checked for what they guarantee. Non-trivial: more than one k-point')


def dense(gam, gk, norm):
    nk = gk.shape[:3]
    n = gk.shape[-1]
    idx = list(np.ndindex(*nk))
    N = len(idx) * n
    a = np.zeros((N, N), dtype=complex)
    for i, k in enumerate(idx):
        for j, kp in enumerate(idx):
            q = tuple((x - y) % m for x, y, m in zip(k, kp, nk))
            a[i * n:(i + 1) * n, j * n:(j + 1) * n] = gam[q]
    w = (np.abs(gk) ** 2).reshape(-1)
    h = np.sqrt(w)[:, None] * a * np.sqrt(w)[None, :] / norm
    return a * w[None, :] / norm, h, w


def even_q(x):
    idx = tuple(np.ix_(*[(-np.arange(n)) % n for n in x.shape[:3]]))
    return .5 * (x + x[idx])


def rand_vertex(rng, nk, n, sign, cplx):
    g = rng.normal(size=nk + (n, n)) + (1j * rng.normal(size=nk + (n, n)) if cplx else 0)
    g = even_q(g)
    g = .5 * (g + np.conj(np.swapaxes(g, -1, -2)))
    # one dominant mode so that the power iteration converges
    x = rng.normal(size=n)
    return g + sign * rng.uniform(1, 3) * n * np.outer(x, x) / np.sum(x ** 2) * np.exp(-rng.uniform(.1, 1) * np.abs(rng.integers(0, 2)))


def spectrum(h):
    return np.sort(np.linalg.eigvalsh(h))[::-1]


def slow(e, n_eig, shift):
    """convergence ratios of the successive power iterations"""
    s = e[np.argmax(np.abs(e))]
    m = np.sort(np.abs(e))[::-1]
    rs = [m[1] / m[0] if len(m) > 1 else 0]
    vals = np.abs(e - s) if shift and s < 0 else np.abs(e)
    vals = np.sort(vals)[::-1]
    for j in range(n_eig):
        rs.append(vals[j + 1] / max(vals[j], 1e-300) if j + 1 < len(vals) else 0)
    return rs


def pairs_ok(ctx, p, a, h, w, n_eig, shift, eps, gap_shape):
    e = spectrum(h)
    rs = slow(e, n_eig, shift)
    ctx.true(len(p.lam) == n_eig and np.shape(p.gap) == (n_eig,) + gap_shape, 'count', 'number of eigenpairs')
    scale = np.max(np.abs(e))
    done = 0
    gaps = []
    for j in range(n_eig):
        if max(rs[:j + 2]) > 0.95:
            ctx.saw('slow_skipped', n_eig - j)
            break
        r = max(rs[:j + 2])
        tol = 300 * eps / (1 - r) ** 2 + 1e-9 * scale
        x = np.asarray(p.gap[j]).reshape(-1)
        lam = p.lam[j]
        ctx.true(np.all(np.isfinite(x)) and np.linalg.norm(x) > 0, 'gap', 'finite non-zero gap')
        ctx.true(abs(np.imag(lam)) < tol, 'real', f'eigenvalue {lam} of a Hermitian problem')
        res = np.linalg.norm(a @ x - lam * x) / np.linalg.norm(x)
        # the residual carries the condition of the similarity transformation with |G|
        # by symmetry the Rayleigh quotient may converge with the square of the residual
        ctx.true(res < (tol + 10 * np.sqrt(eps * scale) / (1 - r)) * np.sqrt(w.max() / w.min()), 'eigenpair', f'pair {j}: |A gap - lam gap| = {res:.2e} (lam {lam}, tol {tol:.1e}, ratios {rs})')
        ctx.true(np.min(np.abs(e - lam.real)) < tol * np.sqrt(w.max() / w.min()), 'eigenvalue', f'pair {j}: {lam} not in the spectrum {e[:4]}')
        if j == 0 and (shift or e[0] >= -e[-1]):
            ctx.true(abs(lam.real - e[0]) < tol * np.sqrt(w.max() / w.min()), 'leading', f'{lam} is not the largest eigenvalue {e[:3]}')
        for g in gaps:
            o = abs(np.sum(np.conj(g) * w * x)) / np.sqrt(np.sum(np.abs(g) ** 2 * w) * np.sum(np.abs(x) ** 2 * w))
            ctx.true(o < 1e-4, 'distinct', f'pair {j} overlaps with an earlier one: {o:.2e}')
        gaps.append(x)
        done += 1
    ctx.saw('eigenpairs', done)
    return done


def sc_solver(ctx, rng, i):
    nk = tuple(int(x) for x in rng.integers(1, 4, size=3))
    n = 2 * int(rng.integers(1, 4))
    cplx = i % 3 == 0
    sign = 1 if i % 4 < 2 else -1
    gam = rand_vertex(rng, nk, n, sign, cplx)
    gk = (.4 + rng.uniform(size=nk + (n,))) * np.exp(2j * np.pi * rng.uniform(size=nk + (n,)))
    norm = float(rng.uniform(.5, 20))
    N = int(np.prod(nk)) * n
    n_eig = min(int(rng.integers(1, 4)), N)
    shift = bool(rng.integers(0, 3))
    a, h, w = dense(gam, gk, norm)
    e = spectrum(h)
    eps = 1e-12 * float(np.max(np.abs(e)))
    ctx.describe(nontrivial=N > n, nk=nk, nv=n, complex=cplx, n_eig=n_eig, shift=shift, lead=np.round(e[:2], 4), neg=round(float(e[-1]), 4))
    np.random.seed(int(rng.integers(0, 2 ** 31)))
    gap0 = rng.normal(size=nk + (n,)) + (1j * rng.normal(size=nk + (n,)) if cplx else 0)
    keep = gap0.copy()
    p = eq.EliashberPowerIteration(gamma=gam, gk=gk, gap0=gap0, norm=norm, eps=eps, max_count=4000, shift_mat=shift, n_eig=n_eig)
    ctx.equal(gap0, keep, 'alias', 'initial guess modified')
    ctx.true(True, 'reach')
    pairs_ok(ctx, p, a, h, w, n_eig, shift, eps, nk + (n,))
    if shift and max(slow(e, 0, True)) < .95:
        s = e[np.argmax(np.abs(e))]
        ctx.close(np.real(p.lam_s), min(s, 0), 'shift', f'shift of a spectrum dominated by {s}', atol=1e-4 * abs(s))


def sym_vertex(rng, n, npp, m=None):
    """real vertex with square-lattice symmetry (or rectangular mesh), Gamma(v,v')=Gamma(v',v)=Gamma(-v,-v')"""
    m = m or n
    k, l = 2 * np.pi * np.arange(n) / n, 2 * np.pi * np.arange(m) / m
    cx, cy = np.cos(k)[:, None, None], np.cos(l)[None, :, None]
    out = np.zeros((n, m, 1, 2 * npp, 2 * npp))
    v = 2 * np.arange(-npp, npp) + 1
    for f in (np.ones((n, m, 1)), cx + cy, cx * cy, np.cos(2 * k)[:, None, None] + np.cos(2 * l)[None, :, None]):
        x = rng.normal(size=(2 * npp, 2 * npp))
        x = .25 * (x + x.T + x[::-1, ::-1] + x.T[::-1, ::-1])
        out += f[..., None, None] * x
    strength = rng.normal() * 4
    out += strength * (cx + cy)[..., None, None] / np.sqrt(np.outer(np.abs(v), np.abs(v)))
    return out


def sc_driver(ctx, rng, i):
    n = int(rng.integers(2, 5))
    npp = int(rng.integers(1, 4))
    beta = float(rng.uniform(1, 10))
    m = int(rng.integers(2, 6)) if i % 5 in (0, 3, 4) and i % 2 else n
    if i % 5 == 4 and m == 2:
        m = 3
    grid = bz.KGrid((n, m, 1), bz.two_dimensional_square_symmetries() if n == m else ())
    ksym = ('random', 'd-wave', 'random', 'p-wave-x', 'p-wave-y')[i % 5]
    if ksym == 'd-wave' and n == 3:
        ksym = 'random'
    if ksym.startswith('p') and n == 2:
        ksym = 'random'
    ch = ('sing', 'trip')[i // 5 % 2]
    sym = bool(rng.integers(0, 2)) and not ksym.startswith('p')
    f = -sym_vertex(rng, n, npp, m)
    core = npp + int(rng.integers(0, 3))
    k, l = 2 * np.pi * np.arange(n) / n, 2 * np.pi * np.arange(m) / m
    ek = -2 * (np.cos(k)[:, None, None] + np.cos(l)[None, :, None]) + .3
    v = (2 * np.arange(-core, core) + 1) * np.pi / beta
    g = 1 / (1j * v - ek[..., None] - .5 / (1j * v))
    n_eig = (1, 3, 2)[i % 3] if ksym == 'random' else 1
    ctx.describe(n=n, m=m, n_eig=n_eig, npp=npp, core=core, beta=round(beta, 3), k_sym=ksym, channel=ch, sym=sym)
    with scratch() as path, no_plots():
        cfg = cfg_for(rng, grid, beta, 1., 2 * npp, 2 * npp, path)
        cfg.eliash.k_sym = ksym
        cfg.eliash.set_gap0()
        cfg.eliash.sym_sing = sym if ch == 'sing' else (i // 2) % 2 == 0  # the flag of the other channel is irrelevant
        cfg.eliash.sym_trip = sym if ch == 'trip' else (i // 2) % 2 == 0
        cfg.eliash.n_eig = n_eig
        cfg.verbosity = int(rng.integers(0, 2))
        np.save(path + f'F_{ch}_pp.npy', f)
        gam = -f
        if sym:
            gam = .5 * (gam + (1 if ch == 'sing' else -1) * gam[..., ::-1])
        gk = g[..., core - npp:core + npp]
        a, h, w = dense(gam, gk, n * m * beta)
        e = spectrum(h)
        eps = cfg.eliash.eps = 1e-12 * float(np.max(np.abs(e)))
        cfg.eliash.max_count = 4000
        np.random.seed(int(rng.integers(0, 2 ** 31)))
        p = eq.linear_eliashberg(cfg, SimpleNamespace(core=g), ch)
        for bad in ('dens', 'singlet'):
            ctx.raises(lambda: eq.linear_eliashberg(cfg, SimpleNamespace(core=g), bad), 'channel', f'channel {bad}', ValueError)
            ctx.raises(lambda: eq.symmetrize_gamma(gam, bad), 'channel', f'channel {bad}', ValueError)
    gap = np.asarray(p.gap[0])
    if ksym == 'random':
        if pairs_ok(ctx, p, a, h, w, n_eig, True, eps, gk.shape) and sym:
            s = 1 if ch == 'sing' else -1
            if abs(p.lam[0]) > 1e-6:
                ctx.close(gap[..., ::-1], s * gap, 'parity', f'{ch} gap in frequency', atol=2e-3 * np.max(np.abs(gap)))
        return
    # start from a symmetry sector: the result is an eigenpair of that sector and keeps its symmetry
    x = gap.reshape(-1)
    if not np.all(np.isfinite(x)):
        ctx.saw('sector_empty')
        return
    par = {'d-wave': {'sing': 1, 'trip': -1}}.get(ksym, {'sing': -1, 'trip': 1})[ch]
    g2 = gap.reshape((n, m, 1, 2 * npp))
    neg = (-np.arange(n)) % n
    nax = [neg, (-np.arange(m)) % m]
    ops = [(lambda y: y[..., ::-1], par)]
    if ksym == 'd-wave':
        ops += [(lambda y: np.swapaxes(y, 0, 1), -1), (lambda y: y[neg], 1), (lambda y: y[:, neg], 1)]
    else:
        ax = 0 if ksym == 'p-wave-x' else 1
        ops += [(lambda y: np.take(y, nax[ax], axis=ax), -1), (lambda y: np.take(y, nax[1 - ax], axis=1 - ax), 1)]
    # sector spectrum by projecting the dense problem
    N = len(x)
    proj = np.eye(N)
    for op, s in ops:
        mat = np.array([op(np.eye(N)[j].reshape(g2.shape)).reshape(-1) for j in range(N)]).T
        proj = .5 * (proj + s * mat @ proj)
    u, sv, _ = np.linalg.svd(proj)
    base = u[:, sv > .5]
    if base.shape[1] == 0:
        ctx.true(True, 'empty')
        return
    es = np.linalg.eigvalsh(base.conj().T @ h @ base)
    es = es[::-1]
    s = e[np.argmax(np.abs(e))]
    vals = np.sort(np.abs(es - min(s, 0)))[::-1]
    ratio = vals[1] / vals[0] if len(vals) > 1 else 0
    lead = max(slow(e, 0, True))
    outer = np.max(np.abs(e - min(s, 0))) / max(vals[0], 1e-300)
    if ratio > .7 or lead > .95 or vals[0] < 1e-6 * np.max(np.abs(e)) or outer > 1.35:
        ctx.true(True, 'slow')
        ctx.saw('slow_skipped')
        return
    for op, sg in ops:
        ctx.close(op(g2), sg * g2, 'sector', f'{ksym}/{ch} gap symmetry', atol=1e-4 * np.max(np.abs(g2)))
    res = np.linalg.norm(a @ x - p.lam[0] * x) / np.linalg.norm(x)
    ctx.true(res < 1e-5 * np.max(np.abs(e)), 'sector-pair', f'residual {res}')
    ctx.saw('sector_pairs')


def sc_volume(ctx, rng, i):
    """the driver on three-dimensional meshes with a dispersion along every direction"""
    nk = tuple(int(x) for x in rng.integers(1, 4, size=2)) + (int(rng.integers(2, 4)),)
    npp = int(rng.integers(1, 4))
    beta = float(rng.uniform(1, 10))
    ch = ('sing', 'trip')[i % 2]
    grid = bz.KGrid(nk, ())
    f = -rand_vertex(rng, nk, 2 * npp, 1 if i % 4 < 2 else -1, False)
    core = npp + int(rng.integers(0, 3))
    ks = [2 * np.pi * np.arange(m) / m for m in nk]
    ek = (-2 * np.cos(ks[0])[:, None, None] - 2 * np.cos(ks[1])[None, :, None]
          - rng.uniform(.5, 2) * np.cos(ks[2])[None, None, :] + rng.uniform(-1, 1))
    v = (2 * np.arange(-core, core) + 1) * np.pi / beta
    g = 1 / (1j * v - ek[..., None] - .5 / (1j * v))
    n_eig = 1 + i % 3
    ctx.describe(nk=nk, npp=npp, core=core, beta=round(beta, 3), channel=ch, n_eig=n_eig)
    with scratch() as path, no_plots():
        cfg = cfg_for(rng, grid, beta, 1., 2 * npp, 2 * npp, path)
        cfg.eliash.k_sym = 'random'
        cfg.eliash.set_gap0()
        cfg.eliash.sym_sing = cfg.eliash.sym_trip = False
        cfg.eliash.n_eig = n_eig
        cfg.verbosity = 0
        np.save(path + f'F_{ch}_pp.npy', f)
        gk = g[..., core - npp:core + npp]
        a, h, _ = dense(-f, gk, int(np.prod(nk)) * beta)
        e = spectrum(h)
        eps = cfg.eliash.eps = 1e-12 * float(np.max(np.abs(e)))
        cfg.eliash.max_count = 4000
        np.random.seed(int(rng.integers(0, 2 ** 31)))
        p = eq.linear_eliashberg(cfg, SimpleNamespace(core=g), ch)
    ctx.true(True, 'reach')
    pairs_ok(ctx, p, a, h, (np.abs(gk) ** 2).reshape(-1), n_eig, True, eps, gk.shape)


def sc_slow(ctx, rng, i):
    """a gap between the two leading eigenvalues of less than a percent: more iterations, the same answer"""
    n = 2 * int(rng.integers(2, 5))
    r = float(rng.uniform(.99, .996))
    lead = float(rng.uniform(.1, 5))
    e = np.concatenate(([lead, r * lead], lead * rng.uniform(-.8, .8, size=n - 2)))
    q = np.linalg.qr(rng.normal(size=(n, n)))[0]
    gk = (.4 + rng.uniform(size=(1, 1, 1, n))) * np.exp(2j * np.pi * rng.uniform(size=(1, 1, 1, n)))
    s = 1 / np.abs(gk.reshape(-1))
    norm = float(rng.uniform(.5, 20))
    gam = (norm * s[:, None] * ((q * e) @ q.T) * s[None, :])[None, None, None]
    eps = 1e-13 * lead
    shift = bool(i % 2)
    ctx.describe(n=n, ratio=round(r, 5), shift=shift, lead=round(lead, 4))
    np.random.seed(int(rng.integers(0, 2 ** 31)))
    gap0 = rng.normal(size=(1, 1, 1, n)) + gk.real * 0 + .5 * (q[:, 0] * s)[None, None, None]
    p = eq.EliashberPowerIteration(gamma=gam, gk=gk, gap0=gap0, norm=norm, eps=eps, max_count=20000, shift_mat=shift, n_eig=1)
    a, _, w = dense(gam, gk, norm)
    x = np.asarray(p.gap[0]).reshape(-1)
    res = np.linalg.norm(a @ x - p.lam[0] * x) / np.linalg.norm(x)
    # at convergence the change (1 - r^2) * error of the eigenvalue is below eps and the residual is of the order of its root
    ctx.true(abs(p.lam[0] - lead) < 1e-8 * lead, 'slow', f'{p.lam[0]} instead of the leading eigenvalue {lead}')
    ctx.true(res < 1e-3 * lead * np.sqrt(w.max() / w.min()) * (1 - r) * 10, 'slow-pair', f'residual {res:.2e}')
    ctx.saw('slow_pairs')


def sc_start(ctx, rng, i):
    nk = tuple(int(x) for x in rng.integers(1, 7, size=3))
    n = 2 * int(rng.integers(1, 6))
    grid = bz.KGrid(nk, ())
    kt = ('d-wave', 'p-wave-x', 'p-wave-y')[i % 3]
    vt = ('even', 'odd')[i // 3 % 2]
    ctx.describe(nk=nk, nv=n, k=kt, v=vt)
    g = eq.get_gap_start(shape=nk + (n,), k_type=kt, v_type=vt, k_grid=grid.grid)
    kx, ky = (2 * np.pi * np.arange(m) / m for m in nk[:2])
    ref = {'d-wave': -np.cos(kx)[:, None] + np.cos(ky)[None, :], 'p-wave-x': np.sin(kx)[:, None] + 0 * ky[None, :],
           'p-wave-y': 0 * kx[:, None] + np.sin(ky)[None, :]}[kt]
    full = np.zeros(nk + (n,))
    full[..., n // 2:] = ref[:, :, None, None]
    full[..., :n // 2] = (1 if vt == 'even' else -1) * ref[:, :, None, None]
    ctx.close(g, full, 'start', 'initial gap function', atol=1e-12)
    gam = rng.normal(size=(2, 2, 1, n, n))
    ctx.close(eq.symmetrize_gamma(gam, 'sing') + eq.symmetrize_gamma(gam, 'trip'), gam, 'sym', 'decomposition')
    for c, s in (('sing', 1), ('trip', -1)):
        y = eq.symmetrize_gamma(gam, c)
        ctx.close(y[..., ::-1], s * y, 'sym', c)
        ctx.close(eq.symmetrize_gamma(y, c), y, 'sym', 'idempotent')


SCENARIOS = [('solver', sc_solver, 80, 800), ('driver', sc_driver, 60, 600), ('start', sc_start, 24, 200),
             ('volume', sc_volume, 24, 240), ('slow', sc_slow, 12, 120)]

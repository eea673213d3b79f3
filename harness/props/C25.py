"""C25: analytic continuation - a spectrum that explains the Matsubara data, for each data set on its own."""
import os

import numpy as np
from ana_cont import continuation as acont
from dga import analytic_continuation as ac
from dga import config
from harness import spectra as sp
from harness.env import no_plots, scratch
from harness.mpi import run_ranks

RULE = ('random spectra (1-3 peaks, any asymmetry), temperatures, meshes, alpha methods, blur widths, errors and amounts of data; '
        'exact Matsubara data plus noise of the stated size is continued by the real code; the result is transformed back, '
        'integrated and Hilbert-transformed by the harness. The same data is continued again rescaled in energy, mirrored, with other '
        'data outside the fit range, in other lists, and by 1-5 real MPI processes. Non-trivial: a peak off w=0')
ASSUMPTIONS = ['the mesh resolves the data at the stated error (err >= 5e-4, blur width <= 0.1, at least 121 points)']
METHODS = ['chi2kink', 'chi2kink', 'classic', 'historic']


def settings(rng, bos, quick=False, **kw):
    beta = float(rng.uniform(4, 30))
    wmax = float(rng.uniform(5, 10))
    nmin = int(np.ceil(wmax * .9 * beta / 2 / np.pi)) + 1
    s = dict(wmin=0. if bos else -wmax, wmax=wmax, nwr=int(rng.integers(121, 201)), n_fit=int(rng.integers(nmin, nmin + 12)),
             err=float(10 ** rng.uniform(-3.3, -2)), mesh_type=str(rng.choice(['tan', 'linear', 'lorentzian', 'hyperbolic'])),
             alpha_det_method='chi2kink', bw=0. if bos else float(rng.choice([0., .02, .05, .1])), cut=.04)
    if bos:  # a coarser mesh far from zero cannot carry the static part at a small error
        s['err'] = max(s['err'], 2e-3)
    if quick:
        s.update(nwr=61, n_fit=int(rng.integers(6, 14)), err=float(rng.uniform(3e-3, 2e-2)))
    s.update(kw)
    return beta, s


def dataset(rng, beta, s, bos, niv):
    p = sp.gaussians(rng, s['wmax'])
    x = sp.matsubara(beta, niv, bos)
    return p, x, sp.noisy(rng, sp.exact(p, x, bos), s['err'], bos)


def controller(beta, s, bos, **kw):
    return ac.MaxEnt(beta, 'freq_bosonic' if bos else 'freq_fermionic', **dict(s, **kw))


def density(c, bos):
    return c * 2 / np.pi if bos else -c.imag / np.pi


def mesh(ctx, m, s):
    w = np.asarray(m.w)
    ctx.true(w.shape == (s['nwr'],) and np.all(np.diff(w) > 0), 'mesh', 'number or order of real frequencies')
    ctx.close(w[[0, -1]], np.array([s['wmin'], s['wmax']]), 'mesh', 'ends of the real axis', atol=1e-9 * s['wmax'])
    return w


def reference(beta, s, bos, w, data):
    """the continuation the settings describe: the first n_fit non-negative frequencies, constant error, flat model"""
    niv = len(data) // 2
    n = min(s['n_fit'], niv)
    x = sp.matsubara(beta, niv, bos)[niv:niv + n + (1 if bos else 0)]
    d = data[niv:niv + len(x)].real if bos else data[niv:niv + len(x)]
    model = np.ones(len(w)) / (w[-1] - w[0]) * (d[0].real if bos else 1.)
    p = acont.AnalyticContinuationProblem(im_axis=x, re_axis=w, im_data=d, beta=beta,
                                          kernel_mode='freq_bosonic' if bos else 'freq_fermionic')
    sol, _ = p.solve(method='maxent_svd', model=model, stdev=s['err'] * np.ones(len(x)), verbose=False, optimizer='newton',
                     alpha_determination=s['alpha_det_method'], preblur=s['bw'] != 0, blur_width=s['bw'],
                     alpha_start=s.get('alpha_start', 1e9), alpha_end=s.get('alpha_end', 1e-3),
                     alpha_div=s.get('alpha_div', 10.), fit_position=s.get('fit_position', 2.5))
    return sol.A_opt


def judge(ctx, c, w, p, x, data, s, bos, n):
    """n: number of positive frequencies that carry information"""
    ctx.true(c.shape == w.shape and np.iscomplexobj(c) == (not bos), 'form', f'{c.shape} {c.dtype}')
    ctx.true(np.all(np.isfinite(c)), 'finite', 'spectrum is not finite')
    a = density(c, bos)
    ctx.true(a.min() >= -.02 * a.max() if s['bw'] else a.min() >= -1e-9 * a.max(), 'negative', f'{a.min():.2e} (max {a.max():.2e})')
    niv = len(data) // 2
    sel = slice(niv, niv + n + (1 if bos else 0))
    d = np.abs(sp.back(a, w, x[sel], bos) - data[sel]) / s['err'] / (1 if bos else np.sqrt(2))
    rms = np.sqrt(np.mean(d ** 2))
    ctx.true(rms <= 3 and d.max() <= 8, 'back', f'back transform deviates by {rms:.2f} (max {d.max():.2f}) errors')
    t = sp.spectrum(p, w, bos)
    norm = np.sum(sp.weights(sp.FINE) * sp.spectrum(p, sp.FINE, bos)) / (2 if bos else 1)
    got = np.sum(sp.weights(w) * a)
    ctx.true(abs(got / norm - 1) <= (.5 if s['alpha_det_method'] == 'historic' else .25), 'norm', f'weight {got:.4f}, true {norm:.4f}')
    cdf = np.max(np.abs(np.cumsum(sp.weights(w) * (a - t)))) / norm
    ctx.true(cdf <= (.6 if s['alpha_det_method'] == 'historic' else .35), 'cdf', f'spectral weight misplaced by {cdf:.2f}')
    ctx.saw('continuations')
    ctx.saw('frequencies_explained', sel.stop - sel.start)
    return a


def sc_single(ctx, rng, i):
    bos = i % 3 == 2
    beta, s = settings(rng, bos, alpha_det_method=METHODS[(i // 3) % 4])
    if i % 2:  # the path of alpha that is searched
        s.update(alpha_start=float(10 ** rng.uniform(8, 11)), alpha_div=float(rng.choice([4., 6., 16.])), fit_position=float(rng.uniform(2.1, 2.9)), alpha_end=float(10 ** rng.uniform(-4.5, -1.5)))
    niv = s['n_fit'] + int(rng.integers(0, 15))
    p, x, data = dataset(rng, beta, s, bos, niv)
    ctx.describe(nontrivial=bos or np.max(np.abs(p[0])) > .2, bos=bos, beta=beta, niv=niv, i=i % 12, **s)
    m = controller(beta, s, bos)
    w = mesh(ctx, m, s)
    try:
        c = m.cont_single_ind(data)
    except RuntimeError:
        ctx.true(s['alpha_det_method'] == 'historic', 'form', 'no result')  # chi2 = N cannot be reached
        return
    a = judge(ctx, c, w, p, x, data, s, bos, s['n_fit'])
    ref = reference(beta, s, bos, w, data)
    ctx.close(a, ref, 'settings', 'not the continuation with the stated settings', rtol=1e-3)
    if not bos:
        # the transform back offered by the code itself is the same sum
        k = ac.transform_from_real_to_imag(c, w, x)
        ctx.close(k, sp.back(a, w, x, bos), 'transform', 'real to imaginary axis', rtol=1e-8)
        ctx.close(ac.transform_from_real_to_imag(-np.pi * a, w, x), k, 'transform', 'of a real spectrum', rtol=1e-8)
        h = sp.hilbert(a, w)
        far = np.abs(np.arange(len(w)) - (len(w) - 1) / 2) > (24 if s['mesh_type'] == 'hyperbolic' else -1)
        dev = np.abs(c.real - h) / np.max(np.abs(h))
        dev[[0, 1, -2, -1]] = 0  # a step at the end of the axis has a divergent transform
        ctx.true(dev[far].max() <= .2, 'kk', f'real part deviates by {dev[far].max():.2f} from the Hilbert transform')
        ctx.saw('kramers_kronig_points', far.sum())
        ctx.true(dev.max() <= .2, 'kk-hyperbolic', f'real part deviates by {dev.max():.2f} near w=0')
    else:
        k = ac.transform_from_real_to_imag(-np.pi * a, w, x, 'freq_bosonic')
        ctx.close(k.real, sp.back(a, w, x, bos), 'transform', 'real to imaginary axis (bosonic)', rtol=1e-8)


def sc_meta(ctx, rng, i):
    kind = ['scale', 'mirror', 'outside', 'list', 'nan', 'seed', 'complex'][i % 7]
    bos = (i // 7 % 3 == 1 and kind != 'mirror') or kind == 'complex'
    beta, s = settings(rng, bos, quick=True, alpha_det_method=METHODS[1 + (i // 7) % 2])
    niv = s['n_fit'] + int(rng.integers(1, 9))
    p, x, data = dataset(rng, beta, s, bos, niv)
    ctx.describe(kind=kind, bos=bos, beta=beta, niv=niv, **s)
    m = controller(beta, s, bos)
    c = m.cont_single_ind(data.copy())
    top = np.max(np.abs(c))
    if kind == 'scale':
        f = float(rng.choice([.5, 2, 4, 1.7, .3]))
        t = dict(s, wmin=s['wmin'] * f, wmax=s['wmax'] * f, bw=s['bw'] * f, err=s['err'] if bos else s['err'] / f)
        if not bos:  # the flat model has weight one, and so does the spectrum, in any unit
            d = controller(beta / f, t, bos).cont_single_ind(data / f)
        else:
            d = controller(beta / f, t, bos).cont_single_ind(data)
        ctx.close(d * f, c, 'scale', f'energy unit changed by {f}', rtol=1e-3, scale=top)
    elif kind == 'mirror':
        s = dict(s, mesh_type=str(rng.choice(['tan', 'linear', 'lorentzian'])))
        m = controller(beta, s, bos)
        c = m.cont_single_ind(data)
        d = m.cont_single_ind(-data.conj())
        ctx.close(-d.imag[::-1], -c.imag, 'mirror', 'particle-hole mirrored data', rtol=1e-3, scale=top)
        ctx.close(-d.real[::-1], c.real, 'mirror', 'real part of particle-hole mirrored data', rtol=2e-3, scale=top)
    elif kind == 'outside':
        n = s['n_fit']
        other = data.copy()
        other[:niv] = rng.normal(size=niv)
        other[niv + n + (1 if bos else 0):] = rng.normal(size=len(other[niv + n + (1 if bos else 0):]))
        d = m.cont_single_ind(other)
        ctx.close(d, c, 'outside', 'data outside the fit range matters', rtol=1e-9, scale=top)
        cut = data[1:-1] if niv - 1 >= n else data
        d = m.cont_single_ind(cut)
        ctx.close(d, c, 'outside', 'box size of the data matters', rtol=1e-9, scale=top)
        change = data.copy()
        change[niv + n - (0 if bos else 1)] += 20 * s['err']
        ctx.true(np.max(np.abs(m.cont_single_ind(change) - c)) > 1e-6 * top, 'outside', 'last frequency of the fit range has no influence')
    elif kind == 'list':
        sets = [data] + [dataset(rng, beta, s, bos, niv)[2] for _ in range(3)]
        if niv > 4:
            sets.insert(int(rng.integers(0, 5)), sets[1][niv - 3:-(niv - 3)])  # fewer frequencies than n_fit
        single = [controller(beta, s, bos).cont_single_ind(d.copy()) for d in sets]
        for o in (np.arange(len(sets)), rng.permutation(len(sets))):
            keep = [sets[j].copy() for j in o]
            r = m.analytic_continuation([sets[j] for j in o])
            ctx.true(r.shape == (len(sets), s['nwr']), 'list', f'{r.shape}')
            ctx.close(r, np.array([single[j] for j in o]), 'list', 'neighbours in the list matter', rtol=1e-7, scale=top)
            ctx.true(all(np.array_equal(a, sets[j]) for a, j in zip(keep, o)), 'list', 'input data was changed')
        ctx.saw('list_members', 2 * len(sets))
    elif kind == 'complex':  # susceptibilities carry some imaginary part, which no real spectrum can explain
        im = data + 1j * s['err'] * rng.choice([0., .1, 2.]) * rng.normal(size=len(data))
        ctx.close(m.cont_single_ind(im), c, 'complex', 'imaginary part of a susceptibility matters', rtol=1e-7, scale=top)
        r = m.analytic_continuation([im, 0 * im])
        ctx.true(not np.iscomplexobj(r), 'complex', 'the spectrum is not real')
        ctx.close(r, np.array([c, 0 * c]), 'complex', 'imaginary part of a susceptibility in a list', rtol=1e-7, scale=top)
    elif kind == 'nan':
        bad = 0 * data if bos else np.full_like(data, np.nan)
        j = int(rng.integers(0, 3))
        sets = [data, dataset(rng, beta, s, bos, niv)[2]]
        good = m.analytic_continuation(sets)
        sets.insert(j, bad)
        r = m.analytic_continuation(sets)
        ctx.true(r.dtype == good.dtype, 'nan', f'{r.dtype} instead of {good.dtype}')
        ctx.true(np.all(r[j] == 0), 'nan', 'no zero for data that cannot be continued')
        ctx.close(np.delete(r, j, axis=0), good, 'nan', 'a failing neighbour matters', rtol=1e-9)
        r = m.analytic_continuation([bad])
        ctx.true(r.dtype == good.dtype and np.all(r == 0), 'nan', f'only failing data: {r.dtype}')
    else:
        st = np.random.get_state()
        np.random.seed(int(rng.integers(1, 1000)))
        d = controller(beta, s, bos).cont_single_ind(data)
        np.random.set_state(st)
        ctx.equal(d, c, 'seed', 'repeated continuation differs')
        me = {k: s[k] for k in list(s)[::2]}
        rest = {k: s[k] for k in list(s)[1::2]}
        other = {k: (type(v)(v * 2) if not isinstance(v, str) else 'classic' if k == 'alpha_det_method' else 'linear')
                 for k, v in rest.items() if rng.random() < .5}
        d = ac.MaxEnt(beta, 'freq_bosonic' if bos else 'freq_fermionic', me_config=dict(me, **other), **rest).cont_single_ind(data)
        ctx.equal(d, c, 'seed', 'specific settings do not override the general ones')
    ctx.saw('metamorphic_pairs')


def sc_range(ctx, rng, i):
    """defaults and limits: bosonic mesh starts at zero, fewer frequencies than n_fit, unknown mesh or kernel rejected"""
    beta = int(rng.integers(2, 20)) if i % 2 else float(rng.uniform(2, 20))
    nwr = int(rng.integers(21, 60))
    mt = ['tan', 'linear', 'lorentzian', 'hyperbolic'][i % 4]
    a, b = -float(rng.uniform(1, 9)) if i % 3 else -float(10 ** rng.uniform(-3, 0)), float(rng.uniform(1, 9))
    bw = float(10 ** rng.uniform(-3, 0))
    ctx.describe(beta=beta, nwr=nwr, mt=mt, a=a, b=b, bw=bw)
    w = ac.get_w_mesh(mt, a, b, nwr, .04)
    ctx.true(w.shape == (nwr,) and np.all(np.diff(w) > 0), 'mesh', mt)
    ctx.close(w[[0, -1]], np.array([a, b]), 'mesh', 'ends', atol=1e-9)
    ctx.close(w + w[::-1], np.full(nwr, a + b), 'mesh', 'mesh is not symmetric about its centre', atol=1e-9)
    if mt in ('tan', 'lorentzian'):
        ctx.true(np.argmin(np.diff(w)) in range(nwr // 2 - 2, nwr // 2 + 2), 'mesh', 'not densest in the centre')
    if mt == 'linear':
        ctx.close(np.diff(w), np.full(nwr - 1, (b - a) / (nwr - 1)), 'mesh', 'linear mesh', rtol=1e-9)
    m = ac.MaxEnt(beta, 'freq_bosonic', nwr=nwr, mesh_type=mt, wmin=a, wmax=b, bw=bw)
    ctx.close(np.asarray(m.w)[[0, -1]], np.array([0., b]), 'bosonic-start', 'bosonic mesh', atol=1e-9)
    ctx.true(m.bw == 0 and not m.use_preblur, 'bosonic-start', 'blur for bosons')
    n = int(rng.integers(1, 9))
    m = ac.MaxEnt(beta, 'freq_fermionic', nwr=nwr, mesh_type=mt)
    ctx.close(m.get_im_freq(n), np.pi / beta * (2 * np.arange(n) + 1), 'frequencies', 'fermionic', rtol=1e-12)
    m = ac.MaxEnt(beta, 'freq_bosonic', nwr=nwr, mesh_type=mt)
    ctx.close(m.get_im_freq(n), 2 * np.pi / beta * np.arange(n + 1), 'frequencies', 'bosonic', rtol=1e-12)
    # transform to the imaginary axis: any mesh, also with w = 0 inside, any function
    w = np.concatenate((np.sort(rng.uniform(-b, -.01 * b, size=7)), [0.], np.sort(rng.uniform(.01 * b, b, size=5))))
    w = w[[slice(None), slice(7, None), slice(0, 8)][i % 3]]
    f = rng.normal(size=len(w)) + (1j * rng.normal(size=len(w)) if i % 2 else 0)
    if i % 4 == 3:
        f = 1j * f.imag
    spec = -(f.imag if i % 2 else f) / np.pi
    for kind, x in (('freq_fermionic', np.pi / beta * (2 * np.arange(-2, n) + 1)), ('freq_bosonic', 2 * np.pi / beta * np.arange(-2, n))):
        want = np.zeros(len(x), dtype=complex)
        for k, y in enumerate(x):
            g = 1 / (1j * y - w) if kind == 'freq_fermionic' else np.array([1. if y == 0 else v * v / (v * v + y * y) for v in w])
            g = g * spec
            want[k] = np.sum((g[1:] + g[:-1]) / 2 * np.diff(w))
        ctx.close(ac.transform_from_real_to_imag(f, w, x, kind), want, 'transform', f'{kind}: w = 0 at point {int(np.argmin(np.abs(w)))} of {len(w)}', rtol=1e-9)
        ctx.saw('transformed_points', len(x))
    ctx.raises(lambda: ac.transform_from_real_to_imag(f, w, x, 'freq_other'), 'unknown', 'unknown kernel of the transform')
    ctx.raises(lambda: ac.MaxEnt(beta, 'freq_other'), 'unknown', 'unknown kernel')
    ctx.raises(lambda: ac.MaxEnt(beta, 'freq_fermionic', mesh_type='log'), 'unknown', 'unknown mesh')


def sc_mpi(ctx, rng, i):
    n = [1, 3, 2, 5, 4, 7][i % 6]
    bos = bool(rng.random() < .4)
    beta, s = settings(rng, bos, quick=True)
    nk = [n + int(rng.integers(0, 6)), n, n + 1, 2 * n + 1][(i // 2) % 4]
    nan = int(rng.integers(0, nk)) if rng.random() < .6 else -1
    niv = s['n_fit'] + 2
    ctx.describe(nontrivial=n > 1, ranks=n, nk=nk, bos=bos, nan=nan, beta=beta, **s)
    mat = np.array([dataset(rng, beta, s, bos, niv)[2] for _ in range(nk)])
    if nan >= 0:
        mat[nan] = 0. if bos else np.nan
    if bos and rng.random() < .5:
        mat = mat + 1j * s['err'] * rng.normal(size=mat.shape)
    ref = []
    for k in range(nk):
        ref.append(np.zeros(s['nwr']) if k == nan else controller(beta, s, bos).cont_single_ind(mat[k]))
    with scratch() as d:
        np.save(d + 'in.npy', mat)
        np.save(d + 'par.npy', dict(beta=beta, s=s, bos=bos), allow_pickle=True)
        run_ranks(n, ['-m', 'harness.cont_worker', d], d, 200)
        r = np.load(d + 'out.npy')
        for k in range(n):
            ctx.true(os.path.exists(d + f'ended_{k}'), 'rank', f'rank {k} did not finish')
    ctx.true(r.shape == (nk, s['nwr']), 'mpi', f'{r.shape}')
    ctx.close(r, np.array(ref), 'mpi', f'{n} processes differ from one', rtol=1e-7)
    ctx.saw('mpi_runs')
    ctx.saw('mpi_data_sets', nk)


def sc_local(ctx, rng, i):
    beta, s = settings(rng, False, quick=True)
    s['nwr'] = 121
    beta = int(beta) + 1 if i % 2 else beta
    nfit = int(rng.integers(20, 40))
    niv = int(rng.integers(12, 60))
    s['err'] = float(rng.uniform(2e-3, 1e-2))
    pre = i % 3 != 2
    bws = [float(x) for x in np.sort(rng.choice([.001, .01, .05, .1, .2, .5, 1.], size=int(rng.integers(4, 7)), replace=False))]
    p = sp.gaussians(rng, s['wmax'])
    x = sp.matsubara(beta, niv, False)
    data = sp.noisy(rng, sp.exact(p, x, False), s['err'], False)
    mt = ['tan', 'linear'][i // 2 % 2]
    me = config.MaxEntConfig(1, beta, dict(nwr=s['nwr'], wmax=s['wmax'], err=s['err'], n_fit=nfit, mesh_type=mt,
                                           use_preblur=pre, bw_range_loc=bws, alpha_det_method=METHODS[i % 3]))
    ctx.describe(beta=beta, niv=niv, nfit=nfit, bws=bws, pre=pre, mt=mt, err=s['err'])
    name = str(rng.choice(['dga', 'dmft']))
    with scratch() as d, no_plots():
        r = ac.max_ent_loc_bw_range(data, me, name=name, out_dir=d)
        files = sorted(os.listdir(d))
        w = np.load(d + 'w.npy')
        got = {bw: np.load(d + f'{name}_cont_bw{bw}.npy') for bw in bws}
        bw_opt = float(np.loadtxt(d + f'bw_opt_{name}.txt')) if f'bw_opt_{name}.txt' in files else None
    known = {'w.npy', f'bw_opt_{name}.txt'} | {f'{name}_cont_bw{bw}.npy' for bw in bws}
    ctx.true(set(files) <= known, 'local', f'files {files}')
    ctx.close(w, ac.get_w_mesh(mt, -s['wmax'], s['wmax'], s['nwr'], .04), 'local', 'mesh', rtol=1e-12)
    n = min(nfit, niv)
    chi2 = []
    for bw in bws:
        t = dict(n_fit=nfit, err=s['err'], bw=bw if pre else 0., alpha_det_method=METHODS[i % 3])
        ref = reference(float(beta), t, False, w, data)
        ctx.close(density(got[bw], False), ref, 'local', f'bw={bw}', rtol=1e-3)
        c, chi = ac.max_ent_loc(data, me, bw)
        ctx.close(c, got[bw], 'local', f'max_ent_loc bw={bw}', rtol=1e-6)
        chi2.append(chi)
        if not pre:
            dd = sp.back(ref, w, x[niv:niv + n], False) - data[niv:niv + n]
            ctx.close(chi, np.sum(np.abs(dd) ** 2) / s['err'] ** 2, 'local', 'chi2', rtol=1e-3)
    ctx.saw('local_continuations', len(bws))
    if bw_opt is not None:
        ctx.true(abs(r - bw_opt) <= 1e-8 or not np.isfinite(r), 'local', f'returned blur width {r}, file {bw_opt}')
    else:
        ctx.true(r == 0, 'local', f'no fit, but {r}')
    ctx.saw('fits', bw_opt is not None)
    if bw_opt and np.isfinite(bw_opt) and np.isfinite(r) and 1e-6 < r < 1e6:
        # the blur width lies the stated number of steps below the centre of the step of chi2
        pos, at = float(me.bw_fit_position), {}
        for f in (0., 1. / 3):
            me.bw_fit_position = f * pos
            with scratch() as d, no_plots():
                at[f] = float(ac.max_ent_loc_bw_range(data, me, name=name, out_dir=d))
        me.bw_fit_position = pos
        ctx.true(min(at.values()) > 0, 'blur-width', f'{at} at other positions, {r} at {pos}')
        step = np.log(r) - np.log(at[0.])
        ctx.close(np.log(at[1. / 3]) - np.log(at[0.]), step / 3, 'blur-width', f'{at} at 0 and a third of the position, {r} there', rtol=1e-6, atol=1e-7 * max(1, abs(step)))
        ctx.saw('blur_widths', step != 0)


SCENARIOS = [('single', sc_single, 36, 240), ('meta', sc_meta, 56, 350), ('range', sc_range, 40, 200), ('mpi', sc_mpi, 7, 36),
             ('local', sc_local, 4, 24)]

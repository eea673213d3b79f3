"""C26: the continuation program - every momentum's file entry is the continuation of that momentum's own data."""
import os
from concurrent.futures import ThreadPoolExecutor

import numpy as np
from ruamel.yaml import YAML

from dga import analytic_continuation as ac
from dga import optics
from dga import two_point as tp
from harness import gen
from harness import spectra as sp
from harness.dga_ref import Spec
from harness.env import scratch
from harness.mpi import run_ranks
from harness.props import C20
from harness.props.C14 import fbz_map
from harness.props.C25 import reference

RULE = ('finished-run folders with random causal self-energies and susceptibilities that have the momentum symmetry of the lattice '
        '(and whole DGA runs with a max_ent section) are continued by the production program under mpirun with 1-6 processes and '
        'random sections, overrides and box sizes; every saved array is compared momentum by momentum with the continuation of the '
        'data of that momentum, transformed back to it, and compared between process counts. Non-trivial: more than one process')
ASSUMPTIONS = ['one continuation of one data set is right (C25, C27); completion of the Green\'s function (C08, C09)']
SYMS = {'square': 'two_dimensional_square', 'inv': 'quasi_one_dimensional_square', 'xyinv': 'simultaneous_x_y_inversion', 'none': 'none'}
SECTIONS = ['s_dga', 'g_dga', 'chi_d', 'chi_m']
DIRS = {'s_dga': 'MaxEntSiwk', 'g_dga': 'MaxEntGiwk', 'chi_d': 'MaxEntChiDens', 'chi_m': 'MaxEntChiMagn'}
FILES = {'s_dga': 'swk_dga', 'g_dga': 'gwk_dga', 'chi_d': 'chi_dens', 'chi_m': 'chi_magn'}


def form(rng, sym, k):
    """a random function of momentum with the symmetry of the lattice, between -1 and 1"""
    a, b, c = rng.normal(size=3)
    cx, cy = np.cos(k[0]), np.cos(k[1])
    if sym == 'square':
        f = a * (cx + cy) + c * cx * cy
    else:
        f = a * cx + b * cy + c * cx * cy
    if sym in ('xyinv', 'none'):
        f = f + rng.normal() * np.sin(k[0]) * np.sin(k[1])
    if sym == 'none':
        f = f + rng.normal() * np.sin(k[0]) + rng.normal() * np.sin(2 * k[1])
    return f / (np.max(np.abs(f)) + 1e-9)


class Case:
    def __init__(self, rng, i, thorough):
        self.sym = str(rng.choice(list(SYMS)))
        n = int(rng.choice([4, 4, 5, 6] if thorough else [4]))
        self.nk = (n, n, 1) if self.sym == 'square' else (int(rng.integers(4, 6)), int(rng.integers(4, 6 if thorough else 5)), 1)
        self.nq = self.nk
        if i % 4 == 2:  # susceptibilities on a coarser mesh than the self-energy
            self.sym = str(rng.choice(['inv', 'xyinv']))
            self.nk, self.nq = (8, 4, 1), (4, 4, 1)
        self.k = np.meshgrid(*[2 * np.pi * np.arange(m) / m for m in self.nk], indexing='ij')
        self.beta = float(rng.uniform(3, 8)) if i % 3 else int(rng.integers(3, 9))
        self.u = float(rng.uniform(.5, 2))
        self.hop = [float(rng.uniform(.3, .8)), float(rng.uniform(-.3, .1)), float(rng.uniform(0, .15))]
        t, tp_, tpp = self.hop
        k = self.k
        self.ek = -2 * t * (np.cos(k[0]) + np.cos(k[1])) - 4 * tp_ * np.cos(k[0]) * np.cos(k[1]) - 2 * tpp * (np.cos(2 * k[0]) + np.cos(2 * k[1]))
        self.niv, self.shell, self.niw = int(rng.integers(25, 45)), int(rng.integers(0, 3)) * 5, int(rng.integers(3, 12))
        nf = self.niv + self.shell
        loc = gen.PoleSigma(rng, npole=2, strength=.6)
        loc.a = loc.a + .2
        loc.e = np.clip(loc.e, -2, 2)
        iv = gen.iv(self.beta, nf + 40)
        width = .7  # a continuum of poles: the spectrum of the self-energy is smooth
        self.siw = self.smooth(loc, iv, 0., np.zeros(1), width)[0]
        e = .4 * form(rng, self.sym, k)
        amp = 1 + .3 * form(rng, self.sym, k)
        s = self.smooth(loc, gen.iv(self.beta, nf), e.ravel(), None, width).reshape(self.nk + (-1,))
        self.sigma = loc.h + amp[..., None] * (s - loc.h)
        self.n = float(rng.uniform(.7, 1.25))
        self.chi = {}
        kq = np.meshgrid(*[2 * np.pi * np.arange(m) / m for m in self.nq], indexing='ij')
        x = sp.matsubara(float(self.beta), self.niw, True)
        for c in ('dens', 'magn'):
            z = np.zeros(self.nq + (len(x),))
            for _ in range(2):
                w0 = (1.2 + .6 * form(rng, self.sym, kq))[..., None, None]
                g = rng.uniform(.4, .8)
                eps = np.linspace(-4, 4, 161) * g
                wt = np.exp(-.5 * (eps / g) ** 2)
                wt /= wt.sum()
                z += (.6 + .4 * form(rng, self.sym, kq))[..., None] * np.sum(wt * ((w0 + eps) ** 2 / ((w0 + eps) ** 2 + x[:, None] ** 2 + 1e-30)), axis=-1)
            self.chi[c] = z.astype(complex) if i % 4 else z
        self.mu = float(tp.GreensFunction(tp.SelfEnergy(self.siw[None, None, None, :], self.beta), self.ek, n=self.n, niv_asympt=0).mu)
        self.over = {}

    @staticmethod
    def smooth(loc, z, shift, _, width):
        eps = np.linspace(-4, 4, 121) * width
        wt = np.exp(-.5 * (eps / width) ** 2)
        wt /= wt.sum()
        sh = np.atleast_1d(shift)
        out = np.zeros((len(sh), len(z)), complex)
        for a, e in zip(loc.a, loc.e):
            out += a * np.sum(wt / (z[None, :, None] - e - sh[:, None, None] - eps), axis=-1)
        return loc.h + out

    def files(self):
        g4 = np.zeros((2 * self.niw + 1, 2 * self.niv, 2 * self.niv))
        so = tp.SelfEnergy(self.siw[None, None, None, :], self.beta)
        g = tp.GreensFunction(so, self.ek, mu=self.mu, niv_asympt=self.niv)
        return {'dmft_input': {'n': self.n, 'beta': self.beta, 'u': self.u, 'mu_dmft': self.mu, 'giw': np.asarray(g.g_loc),
                               'siw': self.siw, 'g4iw_dens': g4, 'g4iw_magn': g4},
                'siwk_dga': self.sigma, 'chi_dens_lam': self.chi['dens'], 'chi_magn_lam': self.chi['magn']}

    def describe(self):
        return dict(nk=self.nk, nq=self.nq, sym=self.sym, beta=self.beta, hop=[round(x, 3) for x in self.hop], niv=self.niv, shell=self.shell,
                    niw=self.niw, n=round(self.n, 3))


def max_ent_section(rng, i, beta):
    w = float(rng.uniform(8, 10))
    me = {'nwr': int(rng.integers(61, 82)), 'wmax': w, 'wmin': -w, 'n_fit': int(rng.integers(8, 16)), 'err': float(rng.uniform(3e-3, 1e-2)),
          'bw': [.1, .05, 0.][i % 3], 'mesh_type': ['tan', 'linear', 'tan'][i % 3], 'alpha_det_method': ['chi2kink', 'classic'][i % 2]}
    off = int(rng.integers(0, 8))
    for j, s in enumerate(SECTIONS):
        if j == off:
            continue
        me[s] = {'do_cont': bool(rng.random() < .85)}
        if s.startswith('chi'):
            me[s]['n_fit'] = int(rng.integers(2, 15))
        elif rng.random() < .5:  # a fit range of its own, also beyond the core box
            me[s]['n_fit'] = int(rng.integers(6, 22))
        if rng.random() < .4:
            me[s].update({'nwr': int(rng.integers(61, 82)), 'err': float(rng.uniform(3e-3, 1e-2))})
        if rng.random() < .3:
            me[s]['wmax'] = w + 1
            me[s]['wmin'] = -w - 1
    if i % 2 == 0:
        me['loc'] = {'do_cont': True}
        me['bw_range_loc'] = [.01, .1, .3]
        if i % 4 == 0:
            me['use_preblur'] = False
    return me


def setting(me, s):
    d = dict(ac.MAX_ENT_DEFAULT_SETTINGS)
    d.update({k: v for k, v in me.items() if not isinstance(v, dict)})
    d.update(me[s])
    if s.startswith('chi'):
        d['bw'] = 0.
        d['wmin'] = max(0., d['wmin'])
    return d


def audit(ctx, r, me, data, where, rng):
    """r: files of the run (C20.load); data: what it had to continue"""
    nk, beta = data['nk'], float(data['beta'])
    ctx.true(not [f for f in r['files'] if 'Rank' in f], 'rank-files', f'{where}: {sorted(r["files"])}')
    for s in SECTIONS:
        d, f = DIRS[s] + '/', FILES[s]
        on = s in me and me[s].get('do_cont', True)
        have = sorted(x for x in r['files'] if x.startswith(d))
        if not on:
            ctx.true(not have, 'sections', f'{where}: {s} is off, but there is {have}')
            continue
        ctx.true(d + f + '_cont_fbz.npy' in r and d + 'w.npy' in r, 'sections', f'{where}: {s} wrote {have}')
        c, w = r[d + f + '_cont_fbz.npy'], r[d + 'w.npy']
        st = setting(me, s)
        ctx.close(w, ac.get_w_mesh(st['mesh_type'], st['wmin'], st['wmax'], st['nwr'], st['cut']), 'mesh', f'{where}: {s}', rtol=1e-12)
        bos = s.startswith('chi')
        nk, lab = (data['nq'], data['labq']) if bos else (data['nk'], data['lab'])
        ctx.true(c.shape == nk + (len(w),), 'form', f'{where}: {s} {c.shape}')
        reps = {}
        for idx in np.ndindex(*nk):
            reps.setdefault(int(lab[idx]), []).append(idx)
        mat, shift = data[s], (data['smom0'] if s == 's_dga' else 0.)
        h = mat.shape[-1] // 2
        n = min(st['n_fit'], h)
        x = sp.matsubara(beta, h, bos)
        sel = slice(h, h + n + (1 if bos else 0))
        a = (c * 2 / np.pi) if bos else -(c - shift).imag / np.pi
        a = a.real
        kb = sp.kernel(x[sel], w, bos) * sp.weights(w)
        for idx in np.ndindex(*nk):
            dev = np.abs(kb @ a[idx] - mat[idx][sel]) / st['err']
            ctx.true(np.sqrt(np.mean(dev ** 2)) < 4, 'own-data', f'{where}: {s} at momentum {idx} does not transform back to the data of that momentum '
                     f'({np.sqrt(np.mean(dev ** 2)):.1f} errors)')
            ctx.true(a[idx].min() > -.05 * a[idx].max(), 'negative', f'{where}: {s} at {idx}: {a[idx].min():.2e}')
        ctx.saw('momenta_transformed_back', np.prod(nk))
        sc = np.max(np.abs(a))
        for j, ks in reps.items():
            ctx.true(all(np.array_equal(c[k], c[ks[0]]) for k in ks), 'symmetry', f'{where}: {s} differs between equivalent momenta {ks}')
        for j in rng.permutation(len(reps))[:4]:
            ref = reference(beta, st, bos, w, mat[reps[int(j)][0]])
            ctx.close(a[reps[int(j)][0]], np.real(ref), 'continuation', f'{where}: {s} at {reps[int(j)][0]}', rtol=2e-3, scale=sc)
            if not bos:
                m = ac.kkt(np.real(ref), w, 'general') + shift
                ctx.close(c[reps[int(j)][0]], m, 'continuation', f'{where}: {s} complex function at {reps[int(j)][0]}', rtol=1e-2, scale=np.max(np.abs(m)))
            ctx.saw('momenta_recontinued')
        if s == 's_dga':
            g = r[d + 'gwk_dga_cont_fbz.npy']
            mu = 1 / g - w + data['ek'][..., None] + c - .04j
            ctx.close(mu, np.full(mu.shape, np.mean(mu).real), 'dyson', f'{where}: real-frequency Green\'s function', rtol=0, atol=1e-8)
            fill = 2 * np.mean(np.sum(sp.weights(w[w <= 0]) * -g[..., w <= 0].imag / np.pi, axis=-1))
            ctx.true(abs(fill - data['n']) < 2e-3, 'filling', f'{where}: Green\'s function from the self-energy holds {fill}, not {data["n"]}')
            gk = tp.RealFrequencyGF(w, c, data['ek'], mu=np.mean(mu).real, deltino=.04)
            sb, wb = optics.vec_get_sigma_bub_realf(gk, data['hr'], data['grid'], beta, w[-1] / 3)
            ctx.close(r[d + 'w_bub.npy'], wb, 'conductivity', f'{where}: axis', rtol=1e-9)
            ctx.close(r[d + 'sigma_bub.npy'], sb, 'conductivity', f'{where}: bubble conductivity', rtol=1e-6)
            ctx.saw('conductivity_points', len(wb))
    have = sorted(x for x in r['files'] if x.startswith('MaxEnt/'))
    if 'loc' not in me:
        ctx.true(not have, 'sections', f'{where}: local continuation is off, but there is {have}')
        return
    wmax, bws = me['wmax'], me.get('bw_range_loc')
    for name in ('dmft', 'dga'):
        w = r['MaxEnt/w.npy']
        ctx.close(w, ac.get_w_mesh(me['mesh_type'], -wmax, wmax, me['nwr'], .04), 'mesh', f'{where}: local', rtol=1e-12)
        for bw in bws:
            c = r[f'MaxEnt/{name}_cont_bw{bw}.npy']
            st = dict(n_fit=me['n_fit'], err=me['err'], bw=bw if me.get('use_preblur', True) else 0., alpha_det_method=me['alpha_det_method'])
            ref = reference(beta, st, False, w, data['loc'][name])
            ctx.close(-c.imag / np.pi, ref, 'local', f'{where}: local {name} Green\'s function, bw={bw}', rtol=5e-3)
            ctx.saw('local_continuations')


def mapping(nk, sym, hop):
    from dga.config import LatticeConfig
    lat = LatticeConfig({'symmetries': SYMS[sym], 'type': 't_tp_tpp', 'hr_input': hop, 'nk': nk})
    return lat, fbz_map(lat.k_grid), len(np.unique(fbz_map(lat.k_grid)))


def dataset(files, nk, ek, beta, sym, hop, nfull, nasy, me):
    inp = files['dmft_input']
    lat, lab, nirr = mapping(nk, sym, hop)
    so = tp.SelfEnergy(files['siwk_dga'], beta)
    g = tp.GreensFunction(so, ek, n=inp['n'], niv_asympt=nfull)
    nq = files['chi_dens_lam'].shape[:3]
    d = {'nk': nk, 'nq': nq, 'labq': lab if nq == nk else mapping(nq, sym, hop)[1], 'beta': beta, 'ek': ek, 'n': inp['n'], 'lab': lab, 'nirr': nirr, 'hr': lat.hr, 'grid': lat.k_grid, 'smom0': so.smom0,
         'chi_d': files['chi_dens_lam'], 'chi_m': files['chi_magn_lam']}
    nfit = max(setting(me, 's_dga')['n_fit'], 1) if 's_dga' in me else 1
    d['s_dga'] = so.get_siw(nfit) - so.smom0
    n = np.asarray(g.g_full()).shape[-1] // 2
    iv = gen.iv(float(beta), n)
    d['g_dga'] = 1 / (iv + g.mu - ek[..., None] - so.get_siw(n))
    sl = tp.SelfEnergy(np.asarray(inp['siw'])[None, None, None, :], beta)
    gl = tp.GreensFunction(sl, ek, mu=inp['mu_dmft'], niv_asympt=nasy)
    d['loc'] = {'dga': np.mean(d['g_dga'], axis=(0, 1, 2)), 'dmft': np.asarray(gl.g_loc)}
    return d


def launch(path, files, conf, ranks):
    os.makedirs(path)
    for k, v in files.items():
        np.save(path + k + '.npy', v, allow_pickle=True)
    with open(path + 'dga_config.yaml', 'w') as fh:
        YAML().dump(conf, fh)
    before = C20.snapshot(path)
    run_ranks(ranks, ['-m', 'harness.cont_run_worker', path], path, 250)
    after = C20.snapshot(path)
    r = C20.load(path)
    r['kept'] = all(k in after and after[k] == v for k, v in before.items())
    return r


def sc_folder(ctx, rng, i):
    s = Case(rng, i, ctx.thorough)
    me = max_ent_section(rng, i, s.beta)
    infer = i % 5 == 3
    conf = {'box_sizes': {'niv_shell': s.shell} if infer else {'niw_core': s.niw, 'niv_core': s.niv, 'niv_shell': s.shell},
            'lattice': {'symmetries': SYMS[s.sym], 'type': 't_tp_tpp', 'hr_input': s.hop, 'nk': list(s.nk)},
            'dmft_input': {'type': 'default'}, 'max_ent': me}
    if s.nq != s.nk:
        conf['lattice']['nq'] = list(s.nq)
    files = s.files()
    nfull = s.niv + s.shell
    data = dataset(files, s.nk, s.ek, s.beta, s.sym, s.hop, nfull, nfull + 2 * s.niw, me)
    ranks = sorted({1 if i % 2 else 2, int(rng.integers(2, min(6, data['nirr'], len(np.unique(data['labq']))) + 1))})
    ctx.describe(nontrivial=max(ranks) > 1, ranks=ranks, max_ent=me, infer=infer, **s.describe())
    with scratch() as d:
        with ThreadPoolExecutor(2) as ex:
            jobs = [ex.submit(launch, d + f'r{k}/', files, conf, k) for k in ranks]
            outs = [j.result() for j in jobs]
    for k, r in zip(ranks, outs):
        ctx.true(r['kept'], 'overwritten', f'{k} processes: the continuation changed files of the run')
        ctx.saw(f'runs_with_{k}_ranks')
    audit(ctx, outs[-1], me, data, f'{ranks[-1]} processes', rng)
    if len(outs) > 1:
        names = [x for x in outs[0]['files'] if x.startswith('MaxEnt') and x.endswith('.npy')]
        ctx.true({x for x in outs[0]['files']} == outs[1]['files'], 'ranks', f'files {outs[0]["files"] ^ outs[1]["files"]}')
        for x in names:
            ctx.close(outs[1][x], outs[0][x], 'ranks', f'{x} with {ranks[1]} and {ranks[0]} processes', rtol=1e-7)


def sc_again(ctx, rng, i):
    """continuing a folder a second time keeps the first result"""
    s = Case(rng, 1, False)
    me = {'nwr': 61, 'wmax': 8., 'wmin': -8., 'n_fit': 8, 'err': 1e-2, 'bw': .1, 'g_dga': {'do_cont': True}, 'chi_m': {'do_cont': True, 'n_fit': 3}}
    conf = {'box_sizes': {'niw_core': s.niw, 'niv_core': s.niv, 'niv_shell': s.shell},
            'lattice': {'symmetries': SYMS[s.sym], 'type': 't_tp_tpp', 'hr_input': s.hop, 'nk': list(s.nk), 'nq': list(s.nq)}, 'max_ent': me}
    ctx.describe(**s.describe())
    with scratch() as d:
        launch(d + 'a/', s.files(), conf, 2)
        before = {k: v for k, v in C20.snapshot(d + 'a/').items() if not k.endswith('.log')}
        run_ranks(1, ['-m', 'harness.cont_run_worker', d + 'a/'], d + 'a/', 250)
        after = C20.snapshot(d + 'a/')
        for k, v in before.items():
            ctx.true(after.get(k) == v, 'overwritten', f'a second continuation changed {k}')
        new = [k for k in after if k not in before]
        ctx.true(len([k for k in new if k.endswith('_cont_fbz.npy')]) == 2, 'overwritten', f'the second continuation wrote {new}')
        ctx.saw('files_kept', len(before))


def sc_whole(ctx, rng, i):
    """a whole DGA run that ends with the continuation"""
    s, ref = C20.pick(rng, i, ctx, 'none', True, symmetric=True)
    if s is None:
        ctx.describe(nontrivial=False, skipped='no well conditioned input')
        ctx.true(True, 'skip')
        return
    o = C20.options(rng, 1, s, False)
    o.update(lam='none', vvp=True, sym=['square', 'none'][i % 2], section=False)
    me = {'nwr': 61, 'wmax': 10., 'wmin': -10., 'n_fit': 12, 'err': 5e-3, 'bw': 0., 'bw_range_loc': [.01, .1], 'loc': {'do_cont': True},
          's_dga': {'do_cont': True}, 'g_dga': {'do_cont': True}, 'chi_m': {'do_cont': True, 'n_fit': 3}}
    ranks = int(rng.integers(2, 6))
    ctx.describe(ranks=ranks, sym=o['sym'], infer=o['infer'], **s.case())
    with scratch() as path:
        r = C20.run(dict_spec(s), dict(o, max_ent=me), ranks, 1, path + 'a/')
    for k in ('siwk_dga', 'chi_dens_lam', 'chi_magn_lam', 'dmft_input'):
        ctx.true(k + '.npy' in r, 'missing', k)
    files = {k: r[k + '.npy'] for k in ('siwk_dga', 'chi_dens_lam', 'chi_magn_lam', 'dmft_input')}
    nfull = s.niv + s.shell
    data = dataset(files, s.nk, s.ek, s.beta, o['sym'], s.hop, nfull, nfull + 2 * s.niw, me)
    data['n'] = files['dmft_input']['n']
    for x in ('MaxEntSiwk/swk_dga', 'MaxEntGiwk/gwk_dga', 'MaxEntChiMagn/chi_magn'):
        ctx.true(f'{x}_cont_fbz.npy' in r, 'sections', x)
    for sec, x, f in (('g_dga', 'MaxEntGiwk', 'gwk_dga'), ('s_dga', 'MaxEntSiwk', 'swk_dga'), ('chi_m', 'MaxEntChiMagn', 'chi_magn')):
        c, w = r[f'{x}/{f}_cont_fbz.npy'], r[f'{x}/w.npy']
        st = setting(me, sec)
        bos = sec == 'chi_m'
        for k in [tuple(int(v) for v in rng.integers(0, s.nk)) for _ in range(3)]:
            shift = data['smom0'] if sec == 's_dga' else 0.
            try:
                a = reference(float(s.beta), st, bos, w, data[sec][k])
            except Exception:  # data of this small run need not be positive; then the program stores zero
                ctx.close(c[k], np.zeros(len(w)) + shift, 'continuation', f'{sec} {k}', atol=1e-12)
                continue
            got = -(c[k] - shift).imag / np.pi if not bos else c[k] * 2 / np.pi
            ctx.close(got, a, 'continuation', f'{sec} at {k}', rtol=1e-2)
            ctx.saw('momenta_recontinued')
    for name in ('dmft', 'dga'):
        for bw in me['bw_range_loc']:
            c = r[f'MaxEnt/{name}_cont_bw{bw}.npy']
            st = dict(n_fit=12, err=5e-3, bw=bw, alpha_det_method='chi2kink')
            a = reference(float(s.beta), st, False, r['MaxEnt/w.npy'], data['loc'][name])
            ctx.close(-c.imag / np.pi, a, 'local', f'{name} bw={bw}', rtol=1e-2)
    ctx.saw('whole_runs')


def sc_optics(ctx, rng, i):
    """the optical conductivity of a whole run is continued: bubble, and bubble plus vertex"""
    s, ref = C20.pick(rng, i, ctx, 'none', True, symmetric=True)
    if s is None:
        ctx.describe(nontrivial=False, skipped='no well conditioned input')
        ctx.true(True, 'skip')
        return
    o = C20.options(rng, 1, s, False)
    o.update(lam='none', vvp=True, sym=['none', 'square'][i % 2], section=False)
    me = {'nwr': int(rng.integers(61, 82)), 'wmax': float(rng.uniform(8, 12)), 'wmin': 0., 'n_fit': (-1, 3, -1, 2)[i % 4],
          'err': float(rng.uniform(3e-3, 1e-2)), 'bw': 0., 'mesh_type': ['tan', 'linear'][int(rng.integers(0, 2))],
          'alpha_det_method': ['chi2kink', 'classic'][int(rng.integers(0, 2))]}
    der = int(rng.integers(0, 2))
    o['optics'] = {'do_bubble': True, 'do_vertex': bool(i % 3), 'niw_cond': o['cond'], 'der_a': der, 'der_b': der, 'max_ent': me}
    o['keep_fq'] = bool(rng.integers(0, 2))
    ranks = int(rng.integers(1, 5))
    ctx.describe(ranks=ranks, sym=o['sym'], infer=o['infer'], optics=o['optics'], keep=o['keep_fq'], **s.case())
    with scratch() as path:
        r = C20.run(dict_spec(s), o, ranks, 1, path + 'a/')
    op = 'Optics/'
    for k in ('chijj_bubble', 'sigma_bubble_cont', 'sigma_full_cont', 'w'):
        ctx.true(op + k + '.npy' in r, 'missing', f'{k}: {sorted(x for x in r["files"] if x.startswith(op))}')
    bub = r[op + 'chijj_bubble.npy']
    full = np.array(bub)
    if i % 3:
        ver = r[op + 'chijj_vert.npy'] if op + 'chijj_vert.npy' in r else None
        ctx.true(ver is not None, 'missing', f'vertex part: {sorted(x for x in r["files"] if x.startswith(op))}')
        if ver is not None:
            n, m = bub.shape[-1] // 2, ver.shape[-1] // 2
            ctx.true(m <= n, 'form', f'vertex part on {ver.shape}, bubble on {bub.shape}')
            full[n - m:n + m + 1] += ver
    kept = op + 'F_cond.npy' in r['files']
    ctx.true(kept == (o['keep_fq'] and i % 3 != 0), 'vertex-kept', f'vertex for the conductivity stored: {kept}, asked: {o["keep_fq"]}')
    w = r[op + 'w.npy']
    st = dict(ac.MAX_ENT_DEFAULT_SETTINGS, **me)
    if st['n_fit'] == -1:
        st['n_fit'] = o['cond']
    ctx.close(w, ac.get_w_mesh(st['mesh_type'], 0., st['wmax'], st['nwr'], st['cut']), 'mesh', 'optics', rtol=1e-12)
    for name, data in (('bubble', bub), ('full', full)):
        c = r[op + f'sigma_{name}_cont.npy']
        try:
            a = reference(float(s.beta), st, True, w, data)
        except Exception:
            ctx.saw('not_continuable')
            ctx.close(c, np.zeros(len(w)), 'optics', f'{name} cannot be continued', atol=1e-12)
            continue
        ctx.close(c * 2 / np.pi, np.real(a), 'optics', f'conductivity {name}, der={der}, {ranks} processes', rtol=5e-3)
        ctx.saw('conductivities_recontinued')


def dict_spec(s):
    return s


_conf_of = C20.conf_of


def conf_of(s, o):
    c = _conf_of(s, o)
    if 'max_ent' in o:
        c['max_ent'] = o['max_ent']
    if 'optics' in o:
        c['optics'] = o['optics']
        c['output']['keep_fq_optics'] = o['keep_fq']
    return c


C20.conf_of = conf_of

SCENARIOS = [('folder', sc_folder, 8, 60), ('again', sc_again, 1, 4), ('whole', sc_whole, 2, 16), ('optics', sc_optics, 3, 24)]

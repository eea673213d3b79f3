"""C22: a configuration file means what it says: given options are used, omitted ones follow the documented defaults, contradictions are rejected."""
import json
import os
import re
from types import SimpleNamespace

import numpy as np
from dga import config
from dga import analytic_continuation as a_cont
from dga import matsubara_frequencies as mf
from harness.env import FakeComm, scratch
from harness.mpi import run_ranks
from ruamel.yaml import YAML

RULE = ('random configuration files (every documented option given or left out, valid and contradicting values, options in any order, '
        'from dictionaries and through the yaml reader), vertices of random size, 1-5 real MPI processes parsing the command line. '
        'Non-trivial: at least one option is left out and one given')
REPO_SRC = os.path.dirname(os.path.abspath(config.__file__))

# documented defaults (comments of the configuration template and README)
DOC = {'dmft_input': {'type': 'w2dyn', 'input_path': './', 'fname_1p': '1p-data.hdf5', 'fname_2p': 'g4iw_sym.hdf5', 'do_sym_v_vp': True},
       'poly_fitting': {'n_fit': 4, 'o_fit': 3},
       'dga': {'lambda_corr': 'spch'},
       'output': {'save_vrg': False, 'save_fq': False, 'keep_fq_optics': False, 'keep_pairing_vertex': True, 'verbosity': 1}}
DOC_SUB = {'optics': {'do_bubble': False, 'do_vertex': False, 'der_a': 0, 'der_b': 0, 'niw_cond': -1, 'niw_vert': -1, 'niw_bubble': -1, 'niv_bubble': -1, 'niv_vert': -1},
           'pairing': {'do_pairing_vertex': False, 'do_eliash': False, 'n_eig': 2, 'k_sym': 'random', 'sym_sing': True, 'sym_trip': True, 'eps': 1e-6},
           'debug': {'keep_rank_files': False}}
OTHER = {'type': ['default', 'EDFermion'], 'input_path': ['/data/x/', 'in/'], 'fname_1p': ['a.npy'], 'fname_2p': ['b.hdf5'], 'do_sym_v_vp': [False], 'n_fit': [6, 9],
         'o_fit': [2, 4], 'lambda_corr': ['sp', 'none', 'sp_only'], 'save_vrg': [True], 'save_fq': [True], 'keep_fq_optics': [True], 'keep_pairing_vertex': [False], 'verbosity': [0, 2], 'do_bubble': [True], 'do_vertex': [True],
         'der_a': [1, 2], 'der_b': [1, 2], 'niw_cond': [1, 2], 'niw_vert': [1, 2], 'niw_bubble': [3, 5], 'niv_bubble': [4, 60], 'niv_vert': [1, 2],
         'do_pairing_vertex': [True], 'do_eliash': [True], 'n_eig': [1, 4], 'k_sym': ['d-wave', 'p-wave-x', 'p-wave-y'], 'sym_sing': [False], 'sym_trip': [False],
         'eps': [1e-4], 'keep_rank_files': [True]}
NAMED = {'two_dimensional_square': ('x-inv', 'y-inv', 'x-y-sym'), 'quasi_one_dimensional_square': ('x-inv', 'y-inv'), 'simultaneous_x_y_inversion': ('x-y-inv',), 'none': ()}
KNOWN = ['x-inv', 'y-inv', 'z-inv', 'x-y-sym', 'x-y-inv']


def reread(conf, path):
    with open(path + 'c.yaml', 'w') as fh:
        YAML().dump(conf, fh)
    return YAML().load(open(path + 'c.yaml'))


def base_lattice(rng, n=None):
    return {'symmetries': 'two_dimensional_square', 'type': 't_tp_tpp', 'hr_input': [1.0, -.2, .1], 'nk': n or [4, 4, 1]}


def shuffled(rng, d):
    ks = list(d)
    rng.shuffle(ks)
    return {k: shuffled(rng, d[k]) if isinstance(d[k], dict) else d[k] for k in ks}


def sc_options(ctx, rng, i):
    conf, want, want_sub = {'lattice': base_lattice(rng)}, {}, {}
    given = omitted = 0
    for table, out in ((DOC, want), (DOC_SUB, want_sub)):
        for sec, opts in table.items():
            out[sec] = dict(opts)
            if rng.random() < .25:
                omitted += len(opts)
                continue
            conf[sec] = {}
            for k, v in opts.items():
                if rng.random() < .5:
                    v = OTHER[k][int(rng.integers(0, len(OTHER[k])))]
                    given += 1
                elif rng.random() < .6:
                    omitted += 1
                    continue
                conf[sec][k] = v
                out[sec][k] = v
    conf = shuffled(rng, conf)
    ctx.describe(nontrivial=given > 0 and omitted > 0, conf=conf, via_yaml=bool(i % 2))
    if i % 3 == 0 and 'dga' in conf:
        conf['dga']['gui'] = False
    before = json.dumps(conf)
    with scratch() as path:
        src = reread(conf, path) if i % 2 else conf
        cfg = config.DgaConfig(src, comm=[None, FakeComm(0, 1)][i // 2 % 2])
    for sec, opts in want.items():
        for k, v in opts.items():
            ctx.true(getattr(cfg, k) == v, 'option', f'{sec}.{k}: {getattr(cfg, k)!r} is used, {v!r} follows from the file')
    for sec, obj in (('optics', cfg.optics), ('pairing', cfg.eliash), ('debug', cfg.debug)):
        for k, v in want_sub[sec].items():
            ctx.true(getattr(obj, k) == v, 'option', f'{sec}.{k}: {getattr(obj, k)!r} is used, {v!r} follows from the file')
    ctx.true(cfg.do_poly_fitting == ('poly_fitting' in conf), 'poly', 'polynomial fits are done if and only if the section is there')
    ctx.true(cfg.box.niw_core == -1 and cfg.box.niv_core == -1 and cfg.box.niv_shell == 0, 'option', 'box sizes without a section')
    sym = want_sub['pairing']['k_sym']
    vs = {'d-wave': ('even', 'odd'), 'p-wave-x': ('odd', 'even'), 'p-wave-y': ('odd', 'even'), 'random': ('random', 'random')}[sym]
    ctx.true(cfg.eliash.gap0_sing == {'k': sym, 'v': vs[0]} and cfg.eliash.gap0_trip == {'k': sym, 'v': vs[1]}, 'gap0', f'{sym}: {cfg.eliash.gap0_sing} {cfg.eliash.gap0_trip}')
    if not i % 2:
        ctx.true(json.dumps(conf) == before, 'modified', 'the configuration that was passed in is changed')
    ctx.saw('options', sum(map(len, want.values())) + sum(map(len, want_sub.values())))


def sc_box(ctx, rng, i):
    """given or inferred box sizes"""
    niw, niv = int(rng.integers(1, 30)), int(rng.integers(1, 30))
    have_w, have_v, have_a = bool(i & 1), bool(i & 2), bool(i & 4)
    big = int(rng.integers(0, 4)) == 0
    conf = {}
    w = v = a = None
    if have_w:
        w = int(rng.integers(1, niw + 1)) + (niw if big and rng.random() < .5 else 0)
        conf['niw_core'] = w
    if have_v:
        v = int(rng.integers(1, niv + 1)) + (niv if big and rng.random() < .5 else 0)
        conf['niv_core'] = v
    shell = int(rng.integers(0, 50))
    if rng.random() < .6:
        conf['niv_shell'] = shell
    else:
        shell = 0
    if have_a:
        a = int(rng.integers(1, 200))
        conf['niv_asympt'] = a
    if rng.random() < .3:
        conf.update({k: -1 for k in ('niw_core', 'niv_core', 'niv_asympt') if k not in conf})
    conf = shuffled(rng, conf)
    too_large = (w or 0) > niw or (v or 0) > niv
    ctx.describe(nontrivial=not (have_w and have_v), conf=conf, available=(niw, niv))
    cfg = config.DgaConfig({'lattice': base_lattice(rng), **({'box_sizes': conf} if conf or i % 2 else {})})
    from dga import local_four_point as lfp
    lf = lfp.LocalFourPoint('dens', np.zeros((2 * niw + 1, 2 * niv, 2 * niv), complex), 10., 1., is_full_w=True)
    if too_large:
        ctx.raises(lambda: cfg.box.set_from_lfp(lf), 'too-large', f'{conf} with {(niw, niv)} available', ValueError)
        ctx.saw('too_large')
        return
    cfg.box.set_from_lfp(lf)
    b = cfg.box
    ew, ev = w if have_w else niw, v if have_v else niv
    ctx.true((b.niw_core, b.niv_core, b.niv_shell) == (ew, ev, shell), 'box', f'{(b.niw_core, b.niv_core, b.niv_shell)} used, {(ew, ev, shell)} expected')
    ctx.true(b.niv_full == ev + shell, 'box', 'core plus shell')
    ctx.true(b.niv_asympt == (a if have_a else ev + shell + 2 * ew), 'asympt', f'niv_asympt = {b.niv_asympt}')
    ctx.equal(b.wn, np.arange(-ew, ew + 1), 'wn')
    ctx.equal(b.vn_full, np.arange(-ev - shell, ev + shell), 'vn_full')
    # every frequency of the pairing vertex v - v' is a core frequency, and no larger range fits
    npp = int(b.niv_pp)
    ok = lambda n: 2 * n <= ew + 0 and 2 * n <= ev
    ctx.true(ok(npp) and not ok(npp + 1), 'niv_pp', f'{npp} for core {(ew, ev)}')
    state = dict(b.__dict__)
    b.set_from_lfp(lf)
    ctx.true(state == b.__dict__, 'twice', 'inferring again changes the box')
    ctx.saw('boxes')


def sc_optics(ctx, rng, i):
    niw, niv, shell = int(rng.integers(2, 20)), int(rng.integers(2, 24)), int(rng.integers(0, 20))
    conf = {}
    if i & 1:
        conf['niw_cond'] = int(rng.integers(0, niv + (3 if rng.random() < .2 else 0)))
    cond = conf.get('niw_cond', niw // 2)
    if i & 2:
        conf['niw_vert'] = int(rng.integers(0, niw + 1 + (3 if rng.random() < .2 else 0)))
    if i & 4:
        conf['niv_bubble'] = int(rng.integers(1, 90))
    if i & 8:
        conf['niw_bubble'] = int(rng.integers(0, 20))
    if i & 16:
        conf['niv_vert'] = int(rng.integers(0, max(niv - cond, 0) + 1 + (3 if rng.random() < .2 else 0)))
    if rng.random() < .3:
        conf.update({k: -1 for k in ('niw_cond', 'niw_vert', 'niw_bubble', 'niv_bubble', 'niv_vert') if k not in conf})
    conf = shuffled(rng, conf)
    box = {'niw_core': niw, 'niv_core': niv, 'niv_shell': shell}
    if rng.random() < .3:
        box['niv_asympt'] = int(rng.integers(niv + shell, 100))
    cfg = config.DgaConfig({'lattice': base_lattice(rng), 'box_sizes': box, 'optics': conf})
    asy0 = box.get('niv_asympt', niv + shell + 2 * niw)
    ctx.describe(nontrivial=0 < sum(v != -1 for v in conf.values()) < 5, conf=conf, box=box)
    bad = conf.get('niw_vert', -1) > niw or conf.get('niw_cond', -1) >= niv or (conf.get('niv_vert', -1) != -1 and conf['niv_vert'] > niv - cond)
    if bad:
        ctx.raises(lambda: cfg.optics.set_frequency_ranges(cfg), 'accepted', f'{conf} in {box}', (AssertionError, ValueError))
        ctx.saw('rejected')
        return
    o = cfg.optics
    o.set_frequency_ranges(cfg)
    got = {k: int(getattr(o, k)) for k in ('niw_cond', 'niw_vert', 'niw_bubble', 'niv_bubble', 'niv_vert')}
    g = lambda k, d: conf[k] if conf.get(k, -1) != -1 else d
    want = {'niw_cond': g('niw_cond', niw // 2)}
    want['niw_vert'] = g('niw_vert', niw)
    want['niw_bubble'] = g('niw_bubble', want['niw_cond'])
    want['niv_bubble'] = g('niv_bubble', asy0 - 2 * want['niw_cond'])
    want['niv_vert'] = g('niv_vert', niv - want['niw_cond'])
    ctx.true(got == want, 'ranges', f'{got} used, {want} follows from {conf}')
    # the Green's function covers the bubble, and is not made shorter
    asy = max(asy0, want['niv_bubble'] + want['niw_bubble'])
    ctx.true(cfg.box.niv_asympt == asy, 'asympt', f'niv_asympt {cfg.box.niv_asympt}, expected {asy}')
    ctx.equal(o.wn_cond(), np.arange(-want['niw_cond'], want['niw_cond'] + 1), 'wn')
    ctx.equal(o.wn_vert(pos=True), np.arange(0, want['niw_vert'] + 1), 'wn')
    ctx.equal(o.wn_bubble(), np.arange(-want['niw_bubble'], want['niw_bubble'] + 1), 'wn')
    ctx.saw('ranges')


def sc_lattice(ctx, rng, i):
    kind = ['named', 'list', 'tuple', 'empty', 'bad-name', 'bad-entry', 'bad-type', 'no-type', 'no-lattice', 'ranks', 'file', 'nq'][i % 12]
    L = base_lattice(rng)
    n = [int(x) for x in rng.choice([2, 4, 6], size=3)]
    L['nk'] = [n[0], n[0], n[2] // 2] if kind in ('named', 'ranks') else n
    sym = None
    if kind in ('named', 'ranks', 'file', 'nq', 'no-type', 'bad-type'):
        L['symmetries'] = str(rng.choice(list(NAMED)))
        sym = NAMED[L['symmetries']]
        L['nk'] = [n[0], n[0], 1]
    elif kind in ('list', 'tuple', 'bad-entry'):
        sym = [str(x) for x in rng.permutation([s for s in KNOWN if s != 'x-y-sym'])[:int(rng.integers(1, 4))]]
        if kind == 'bad-entry':
            sym.insert(int(rng.integers(0, len(sym) + 1)), str(rng.choice(['xinv', 'X-INV', 'x-z-sym', ''])))
        L['symmetries'] = tuple(sym) if kind == 'tuple' or kind == 'bad-entry' and i % 24 > 11 else sym
    elif kind == 'empty':
        L['symmetries'] = [[], (), 'none', None][i // 12 % 4]
        if i // 12 % 5 == 4:
            L.pop('symmetries')
        sym = ()
    elif kind == 'bad-name':
        L['symmetries'] = str(rng.choice(['square', 'two_dimensional_squares', 'x-inv,y-inv', 'two dimensional square', 'Two_dimensional_square']))
    ctx.describe(kind=kind, lattice=L)
    conf = {'lattice': L}
    if kind == 'bad-name' or kind == 'bad-entry':
        ctx.raises(lambda: config.DgaConfig(conf), 'unknown-symmetry', f'{L["symmetries"]!r}', NotImplementedError)
        ctx.saw('rejected')
        return
    if kind == 'bad-type':
        L['type'] = str(rng.choice(['t_tp', 'wannier90', 'T_tp_tpp', '']))
        ctx.raises(lambda: config.DgaConfig(conf), 'unknown-type', L['type'], NotImplementedError)
        ctx.saw('rejected')
        return
    if kind == 'no-type':
        L.pop('type')
        ctx.raises(lambda: config.DgaConfig(conf), 'no-type', '', ValueError)
        ctx.saw('rejected')
        return
    if kind == 'no-lattice':
        ctx.raises(lambda: config.DgaConfig({'box_sizes': {'niw_core': 3}}), 'no-lattice', '', ValueError)
        ctx.saw('rejected')
        return
    t = [float(x) for x in rng.normal(size=3)]
    L['hr_input'] = t
    with scratch() as path:
        if kind == 'file':
            from dga import wannier
            wannier.WannierHr(*wannier.wannier_one_band_2d_t_tp_tpp(*t)).save_hr(path, 'my_hr.dat')
            L['type'], L['hr_input'] = 'from_wannier90', path + 'my_hr.dat'
        if kind == 'nq':
            f = int(rng.integers(1, 4))
            L['nk'] = [n[0] * f, n[0] * f, 1]
            if i // 12 % 3 == 2:  # bosonic momenta that are not on the fermionic mesh
                small = [m for m in range(2, n[0] * f) if n[0] * f % m]  # smaller, but no divisor
                if small:
                    m = int(rng.choice(small))
                    L['nq'], L['symmetries'] = [[m, m, 1], [n[0] * f, m, 1]][int(rng.integers(0, 2))], 'none'
                    ctx.raises(lambda: config.DgaConfig(conf), 'nq', f'bosonic mesh {L["nq"]} is no part of the fermionic one {L["nk"]}')
                bad = [[n[0] * f + 1, n[0] * f, 1], [n[0] * f * 2] * 2 + [1], [n[0] * f, n[0] * f, 2], [n[0] * f, n[0] * f + 1, 1]]
                L['nq'], L['symmetries'] = bad[int(rng.integers(0, 4))], 'none'
                ctx.raises(lambda: config.DgaConfig(conf), 'nq', f'bosonic mesh {L["nq"]} is no part of the fermionic one {L["nk"]}')
                ctx.saw('rejected')
                return
            L['nq'] = [n[0], n[0], 1] if rng.random() < .8 else list(L['nk'])
            lat = config.DgaConfig(conf).lattice
            irr = min(int(lat.k_grid.nk_irr), int(lat.q_grid.nk_irr))
            config.DgaConfig(conf, comm=FakeComm(irr - 1, irr))
            ctx.raises(lambda: config.DgaConfig(conf, comm=FakeComm(0, irr + 1)), 'ranks', f'{irr + 1} processes for {irr} momenta', ValueError)
            ctx.saw('coarse_meshes')
        if kind == 'ranks':
            irr = int(config.DgaConfig(conf).lattice.k_grid.nk_irr)
            ctx.true(sym == ('x-y-inv',) or irr == len(set(_orbits(L['nk'], sym))), 'irr', f'{irr} irreducible points')
            for size in sorted({1, irr, irr + 1, irr + int(rng.integers(1, 9))}):
                if size <= irr:
                    config.DgaConfig(conf, comm=FakeComm(size - 1, size))
                else:
                    ctx.raises(lambda: config.DgaConfig(conf, comm=FakeComm(0, size)), 'ranks', f'{size} processes for {irr} momenta', ValueError)
            ctx.saw('rank_limits')
            return
        cfg = config.DgaConfig(reread(conf, path) if i % 2 and kind != 'tuple' and kind != 'empty' else conf)
    lat = cfg.lattice
    nk = tuple(L['nk'])
    nq = tuple(L.get('nq', nk))
    ctx.true(lat.nk == nk and lat.nq == nq and lat.nk_tot == np.prod(nk) and lat.nq_tot == np.prod(nq), 'mesh', f'{lat.nk} {lat.nq}')
    ctx.true(tuple(lat.symmetries or ()) == tuple(sym), 'symmetries', f'{lat.symmetries} used, {sym} requested')
    ctx.true(lat.k_grid.nk == nk and lat.q_grid.nk == nq, 'mesh', 'grids')
    orb = set(_orbits(nk, sym))
    ctx.true(lat.k_grid.nk_irr >= len(orb), 'irr', f'{lat.k_grid.nk_irr} irreducible points, {len(orb)} orbits: points that are not equivalent are merged')
    k = [2 * np.pi * np.arange(m) / m for m in nk]
    kx, ky = k[0][:, None, None], k[1][None, :, None]
    ek = -2 * t[0] * (np.cos(kx) + np.cos(ky)) - 4 * t[1] * np.cos(kx) * np.cos(ky) - 2 * t[2] * (np.cos(2 * kx) + np.cos(2 * ky))
    ctx.close(lat.get_ek(), ek + 0 * k[2][None, None, :], 'ek', 'dispersion of the configured hopping', rtol=1e-6 if kind == 'file' else 1e-12, atol=2e-5 if kind == 'file' else 1e-12)
    ctx.saw('lattices')


def _orbits(nk, sym):
    """representative (smallest image) of every momentum under the group generated by sym"""
    ix = np.stack(np.meshgrid(*[np.arange(m) for m in nk], indexing='ij'), -1).reshape(-1, 3)
    out = []
    for p in ix:
        orb = {tuple(p)}
        while True:
            new = set(orb)
            for q in orb:
                x, y, z = q
                new |= {(-x % nk[0], y, z)} if 'x-inv' in sym else set()
                new |= {(x, -y % nk[1], z)} if 'y-inv' in sym else set()
                new |= {(x, y, -z % nk[2])} if 'z-inv' in sym else set()
                new |= {(y, x, z)} if 'x-y-sym' in sym else set()
                new |= {(-x % nk[0], -y % nk[1], z)} if 'x-y-inv' in sym else set()
            if new == orb:
                break
            orb = new
        out.append(min(orb))
    return out


def sc_maxent(ctx, rng, i):
    """meshes and defaults of the settings for the local continuation"""
    beta = float(rng.uniform(2, 40)) if i % 3 else int(rng.integers(2, 40))
    conf = {}
    vals = {'nwr': int(rng.integers(3, 300)), 'wmax': float(rng.uniform(1, 30)), 'mesh_type': str(rng.choice(['tan', 'linear', 'hyperbolic', 'lorentzian'])),
            'cut': float(rng.uniform(.01, .2)), 'n_fit': int(rng.integers(1, 100)), 'err': float(10. ** rng.integers(-6, -1)), 'alpha_det_method': 'historic', 'use_preblur': False}
    for k, v in vals.items():
        if rng.random() < .5:
            conf[k] = v
    conf = shuffled(rng, conf)
    ctx.describe(nontrivial=0 < len(conf) < len(vals), conf=conf, beta=round(beta, 2))
    m = config.MaxEntConfig(1, beta, conf)
    d = {'nwr': 501, 'wmax': 15, 'mesh_type': 'tan', 'cut': .04, 'n_fit': int(3 * beta + 10), 'err': 1e-3, 'alpha_det_method': 'chi2kink', 'use_preblur': True}
    d.update(conf)
    ctx.true(isinstance(m.beta, float) and m.beta == beta, 'beta', f'{m.beta!r} (an integer would be taken for a number of frequencies)')
    for k, v in d.items():
        ctx.true(getattr(m, k) == v, 'option', f'{k}: {getattr(m, k)!r} instead of {v!r}')
    _mesh(ctx, m.mesh, d['mesh_type'], -d['wmax'], d['wmax'], d['nwr'], d['cut'])
    if rng.random() < .5:  # changing the type later rebuilds the mesh
        new = str(rng.choice(['tan', 'linear', 'hyperbolic', 'lorentzian']))
        m.mesh_type = new
        _mesh(ctx, m.mesh, new, -d['wmax'], d['wmax'], d['nwr'], d['cut'])
    ctx.raises(lambda: config.MaxEntConfig(1, beta, {'mesh_type': 'tangent'}), 'unknown-mesh', '', ValueError)
    # the controller of the momentum-dependent continuation: section overrides general overrides default
    gen = {k: v for k, v in {'nwr': vals['nwr'], 'wmax': vals['wmax'], 'wmin': -float(rng.uniform(1, 20)), 'mesh_type': vals['mesh_type'], 'n_fit': vals['n_fit'],
                             'bw': float(rng.choice([0., .05, .3])), 'err': vals['err'], 'cut': vals['cut']}.items() if rng.random() < .6}
    loc = {k: v for k, v in {'nwr': int(rng.integers(3, 99)), 'n_fit': int(rng.integers(1, 30)), 'bw': float(rng.choice([0., .1])), 'do_cont': False,
                             'err': 1e-5}.items() if rng.random() < .5}
    d = {'nwr': 501, 'wmax': 15, 'wmin': -15, 'mesh_type': 'tan', 'n_fit': 20, 'bw': .01, 'err': 1e-3, 'cut': .04, 'do_cont': True, 'alpha_det_method': 'chi2kink', 'optimizer': 'newton'}
    d.update(gen)
    d.update(loc)
    mode = ['freq_fermionic', 'freq_bosonic'][i % 2]
    g0 = dict(gen)
    c = a_cont.MaxEnt(beta, mode, comm=FakeComm(), me_config=gen, **loc)
    if mode == 'freq_bosonic':
        d['bw'], d['wmin'] = 0., max(d['wmin'], 0.)
    for k, v in d.items():
        ctx.true(getattr(c, k) == v, 'controller', f'{k}: {getattr(c, k)!r} instead of {v!r} ({mode})')
    ctx.true(gen == g0, 'modified', 'general settings changed by a section')
    _mesh(ctx, c.w, d['mesh_type'], d['wmin'], d['wmax'], d['nwr'], d['cut'])
    ctx.true(c.use_preblur == (d['bw'] != 0), 'preblur', str(d['bw']))
    n = d['n_fit']
    want = (2 * np.arange(n) + 1) * np.pi / beta if mode == 'freq_fermionic' else 2 * np.arange(n + 1) * np.pi / beta
    ctx.close(c.get_im_freq(), want, 'im-freq', mode, rtol=1e-12)
    ctx.raises(lambda: a_cont.MaxEnt(beta, 'freq_bosonics', comm=FakeComm()), 'unknown-kernel', '', AssertionError)
    ctx.saw('meshes', 2)


def _mesh(ctx, w, kind, wmin, wmax, n, cut):
    ctx.true(len(w) == n and np.all(np.diff(w) > 0), 'mesh', f'{kind}: {len(w)} points (requested {n}), increasing: {np.all(np.diff(w) > 0)}')
    ctx.close([w[0], w[-1]], [wmin, wmax], 'mesh', f'{kind}: end points', rtol=1e-12)
    c = (wmin + wmax) / 2
    ctx.close(w - c, -(w - c)[::-1], 'mesh', f'{kind} is symmetric about its centre', rtol=0, atol=1e-11 * (wmax - wmin))
    if n > 10:
        d = np.diff(w)
        if kind == 'linear':
            ctx.close(d, np.full(n - 1, (wmax - wmin) / (n - 1)), 'mesh', 'equidistant', rtol=1e-9)
        else:
            ctx.true(d[n // 2 - 1] < d[0] * .9, 'mesh', f'{kind} is denser in the centre')


def template_values(path):
    """documented defaults in the comments of the template: section.key -> text after 'default:'"""
    sec, out = None, {}
    for ln in open(path):
        if re.match(r'^\w+:', ln):
            sec = ln.split(':')[0]
        m = re.match(r'^\s+(\w+):.*#.*default:\s*(\[.*\]|[^\s;(]+)', ln)
        if m and sec:
            out[sec, m.group(1)] = m.group(2).strip()
    return out


def sc_template(ctx, rng, i):
    """the template dga_dc hands out: same bytes, everything in it understood, documented defaults are the ones in the code"""
    import sys
    sys.path.insert(0, os.path.join(REPO_SRC, '..'))
    from cli import dga_config_generator as gen
    tpl = os.path.join(REPO_SRC, '..', '..', 'config_templates', 'dga_config.yaml')
    cwd = os.getcwd()
    with scratch() as path:
        ctx.describe(i=i, text='template')
        sub = path + 'some folder/'
        os.makedirs(sub)
        open(sub + 'other.txt', 'w').write('x')
        if i % 2:
            open(sub + 'dga_config.yaml', 'w').write('old: 1\n')
        os.chdir(sub)
        try:
            gen.main()
            ctx.true(os.path.realpath(os.getcwd()) == os.path.realpath(sub), 'cwd', 'the working directory is changed')
        finally:
            os.chdir(cwd)
        ctx.true(sorted(os.listdir(sub)) == ['dga_config.yaml', 'other.txt'], 'template', str(os.listdir(sub)))
        ctx.true(open(sub + 'dga_config.yaml', 'rb').read() == open(tpl, 'rb').read(), 'template', 'content')
        conf = YAML().load(open(sub + 'dga_config.yaml'))
        from dga import wannier
        wannier.WannierHr(*wannier.wannier_one_band_2d_t_tp_tpp(1., -.2, .1)).save_hr(sub, 'wannier_hr.dat')
        conf['lattice']['hr_input'] = sub + 'wannier_hr.dat'
        cfg = config.DgaConfig(conf)
        where = {'box_sizes': cfg.box, 'lattice': cfg.lattice, 'dga': cfg, 'dmft_input': cfg, 'poly_fitting': cfg, 'optics': cfg.optics, 'pairing': cfg.eliash}
        for sec, obj in where.items():
            for k, v in (conf.get(sec) or {}).items():
                if k in ('symmetries', 'gui', 'max_ent', 'niv_asympt'):
                    continue
                got = getattr(obj, k)
                ctx.true(list(got) == list(v) if isinstance(v, (list, tuple)) else got == v, 'template', f'{sec}.{k} = {v!r} is used as {got!r}')
                ctx.saw('template_options')
        empty = config.DgaConfig({'lattice': {'type': 't_tp_tpp', 'hr_input': [1, 0, 0]}})
        where = {'box_sizes': empty.box, 'lattice': empty.lattice, 'dga': empty, 'dmft_input': empty, 'poly_fitting': empty, 'optics': empty.optics, 'pairing': empty.eliash,
                 'output': empty, 'debug': empty.debug}
        docs = template_values(tpl)
        ctx.true(len(docs) >= 15, 'template', f'only {len(docs)} documented defaults found')
        for (sec, k), txt in docs.items():
            if sec not in where:
                continue  # continuation sections: see `maxent`
            want = YAML(typ='safe').load(txt)
            got = getattr(where[sec], k)
            ctx.true(list(got) == want if isinstance(want, list) else str(got) == str(want), 'documented', f'{sec}.{k}: documented default {txt}, code uses {got!r}')
            ctx.saw('documented_defaults')


def sc_system(ctx, rng, i):
    """DMFT parameters reach the calculation unchanged; the consistency check reports the true deviation"""
    niv, nl = int(rng.integers(2, 30)), int(rng.integers(2, 30))
    d = {'n': float(rng.uniform(.5, 1.5)), 'beta': [float, int][i % 2](rng.integers(2, 40)), 'u': float(rng.uniform(1, 8)), 'mu_dmft': float(rng.normal()),
         'giw': rng.normal(size=2 * niv) + 1j * rng.normal(size=2 * niv), 'siw': rng.normal(size=2 * niv) + 1j * rng.normal(size=2 * niv)}
    ctx.describe(niv=niv, nl=nl, beta=d['beta'])
    cfg = config.DgaConfig({'lattice': base_lattice(rng)}, comm=FakeComm())
    cfg.set_system_parameter(d)
    also = config.get_dmft_input_config_from_dict(d)
    for s in (cfg.sys, also):
        ctx.true(isinstance(s.beta, float), 'beta', 'the inverse temperature has to be a float (an integer would be taken for a number of frequencies)')
        for k in d:
            ctx.equal(np.asarray(getattr(s, k)), np.asarray(d[k]), 'system', k)
    msgs = []
    cfg.logger = SimpleNamespace(log_message=lambda message='': msgs.append(message))
    gl = rng.normal(size=2 * nl) + 1j * rng.normal(size=2 * nl)
    cfg.check_gloc_dmft(SimpleNamespace(g_loc=gl, mu=.25))
    m = min(niv, nl)
    diff = np.max(np.abs(d['giw'][niv - m:niv + m] - gl[nl - m:nl + m]))
    ctx.true(f'{diff:.4f}' in msgs[0], 'gloc', f'{msgs[0]}, true deviation {diff:.4f}')
    ctx.true('0.2500' in msgs[1] and f'{d["mu_dmft"]:.4f}' in msgs[1], 'mu', msgs[1])
    del msgs[:]
    cfg.log_sys_params()
    ctx.true(all(str(x) in msgs[0] for x in (d['n'], float(d['beta']), d['u'])), 'sys', msgs[0])
    ctx.saw('systems')


def sc_mpi(ctx, rng, i):
    size = i % 5 + 1
    n = int(rng.choice([2, 4]))
    conf = {'lattice': base_lattice(rng, [n, n, 1]), 'box_sizes': {'niw_core': int(rng.integers(1, 9)), 'niv_core': int(rng.integers(1, 9))},
            'dga': {'lambda_corr': str(rng.choice(['spch', 'sp']))}, 'pairing': {'n_eig': int(rng.integers(1, 5))}, 'optics': {'der_b': int(rng.integers(0, 3))}}
    if rng.random() < .5:
        conf['poly_fitting'] = {'n_fit': int(rng.integers(3, 9))}
    name = str(rng.choice(['dga_config.yaml', 'other name.yaml']))
    with scratch() as path:
        sub = path + 'conf dir/'
        os.makedirs(sub)
        with open(sub + name, 'w') as fh:
            YAML().dump(conf, fh)
        with open(path + 'dga_config.yaml', 'w') as fh:
            YAML().dump({'lattice': base_lattice(rng, [6, 6, 1]), 'dga': {'lambda_corr': 'none'}}, fh)  # of the working directory: not the one requested
        with open(path + 'spec.json', 'w') as fh:
            json.dump({'out': path, 'delays': [float(x) for x in rng.choice([0, 0, .01, .03], size=5)]}, fh)
        ctx.describe(nontrivial=size > 1, ranks=size, conf=conf, file=name)
        argv = ['-p', sub] + ([] if name == 'dga_config.yaml' else ['-c', name])
        run_ranks(size, ['-m', 'harness.config_worker', path + 'spec.json'] + argv, path, 60, cwd=path)
        logs = [json.load(open(f'{path}log_{r}.json')) for r in range(size)]
    if size > {2: 3, 4: 6}[n]:
        for r, lg in enumerate(logs):
            ctx.true('error' in lg, 'ranks', f'rank {r} starts with {size} processes for {n}x{n}')
        ctx.saw('rejected')
        return
    for r, lg in enumerate(logs):
        ctx.true(lg == logs[0], 'agree', f'rank {r} has another configuration than root')
    ctx.true(logs[0]['conf'] == conf, 'file', f'{logs[0]["conf"]} read, {conf} written')
    c = logs[0]['cfg']
    ctx.true(c['lambda_corr'] == conf['dga']['lambda_corr'] and c['box']['niw_core'] == conf['box_sizes']['niw_core'] and c['eliash']['n_eig'] == conf['pairing']['n_eig']
             and c['optics']['der_b'] == conf['optics']['der_b'] and c['lattice']['nk'] == conf['lattice']['nk'], 'file', str(c))
    ctx.saw('processes', size)


SCENARIOS = [('options', sc_options, 90, 900), ('box', sc_box, 180, 2000), ('optics', sc_optics, 240, 2500), ('lattice', sc_lattice, 144, 1200), ('maxent', sc_maxent, 90, 800),
             ('template', sc_template, 3, 6), ('system', sc_system, 45, 400), ('mpi', sc_mpi, 9, 60)]

"""C23: DMFT input: whatever the file format, a run works with exactly the numbers in the files, cut to the requested box."""
import os
import sys
from types import SimpleNamespace

import h5py
import numpy as np
from dga import config, dga_io
from dga import local_four_point as lfp
from dga import w2dyn_aux_dga as w2
from harness.env import scratch
from harness.worm import write_1p

# W2dynFile.__del__ complains on stderr if the file could not be opened (expected here)
sys.unraisablehook = lambda args: None

RULE = ('random DMFT results written in each supported format (w2dynamics, exact diagonalisation, numpy), several atoms and earlier iterations in the file, '
        'spin-dependent noise, missing density, any box; the loaded numbers are compared entry by entry. Non-trivial: the vertex on file is larger than the box')


def rand_input(rng):
    niv, nw, nv = int(rng.integers(2, 30)), int(rng.integers(1, 6)), int(rng.integers(1, 7))
    c = lambda *s: rng.normal(size=s) + 1j * rng.normal(size=s)
    n = float(rng.uniform(.4, 1.6))
    return SimpleNamespace(n=n, beta=float(rng.uniform(2, 50)) if rng.random() < .7 else int(rng.integers(2, 50)), u=float(rng.uniform(.5, 9)), mu=float(rng.normal()), giw=c(1, 2, 2 * niv), siw=c(1, 2, 2 * niv), niv=niv, nw=nw, nv=nv,
                           dens=c(2 * nw + 1, 2 * nv, 2 * nv), magn=c(2 * nw + 1, 2 * nv, 2 * nv))


def write(kind, p, d, rng, nd_missing=False):
    """-> names of the files"""
    if kind in ('default', 'test'):
        np.save(p + 'in.npy', {'giw': d.giw[0].mean(0), 'siw': d.siw[0].mean(0), 'n': d.n, 'beta': d.beta, 'u': d.u, 'mu_dmft': d.mu, 'g4iw_dens': d.dens, 'g4iw_magn': d.magn,
                               'unrelated': 1}, allow_pickle=True)
        return 'in.npy', 'not_there.hdf5'
    if kind == 'EDFermion':
        with h5py.File(p + '1p.hdf5', 'w') as f:
            f['giw'], f['siw_hat'], f['siw'] = d.giw[0].mean(0), d.siw[0].mean(0), d.siw[0].mean(0) * 0 + 3
            f['config/totdens'], f['config/beta'], f['config/U'], f['dmft/mu'] = d.n, d.beta, d.u, d.mu
        with h5py.File(p + '2p.hdf5', 'w') as f:
            f['g4iw_dens'], f['g4iw_magn'] = d.dens, d.magn
        return '1p.hdf5', '2p.hdf5'
    # w2dynamics
    natom = int(rng.integers(1, 3))
    c = lambda *s: rng.normal(size=s) + 1j * rng.normal(size=s)
    occ = rng.normal(size=(1, 2, 1, 2))
    up = d.n * rng.uniform(.2, .8)
    occ[0, 0, 0, 0], occ[0, 1, 0, 1] = up, d.n - up
    write_1p(p + '1p-data.hdf5', {'giw': [d.giw] + [c(2, 2, 8)] * (natom - 1), 'siw': [d.siw] + [c(2, 2, 8)] * (natom - 1), 'occ': [occ] + [c(2, 2, 2, 2)] * (natom - 1),
                                  'totdens': 0. if nd_missing else d.n, 'beta': d.beta, 'u': [d.u] + [99.] * (natom - 1), 'mu': d.mu})
    with h5py.File(p + 'g4iw_sym.hdf5', 'w') as f:
        for a in range(natom):
            for ch, m in (('dens', d.dens), ('magn', d.magn)):
                for w in range(len(m)):
                    f[f'ineq-{a + 1:03}/{ch}/{w:05}/00001/value'] = (m[w] if a == 0 else m[w] * 0).T
                    f[f'ineq-{a + 1:03}/{ch}/{w:05}/00002/value'] = m[w] + 1  # another band combination
    return '1p-data.hdf5', 'g4iw_sym.hdf5'


def sc_load(ctx, rng, i):
    kind = ['w2dyn', 'EDFermion', 'default', 'test'][i % 4]
    d = rand_input(rng)
    missing = kind == 'w2dyn' and rng.random() < .4
    nw, nv = [int(rng.integers(1, m + 1)) if rng.random() < .7 else -1 for m in (d.nw, d.nv)]
    sym = bool(rng.integers(0, 2))
    ew, ev = nw if nw > 0 else d.nw, nv if nv > 0 else d.nv
    ctx.describe(nontrivial=ew < d.nw or ev < d.nv, kind=kind, on_file=(d.nw, d.nv), box=(nw, nv), sym=sym, density_missing=bool(missing), beta=d.beta)
    with scratch() as p:
        f1, f2 = write(kind, p, d, rng, missing)
        before = {f: open(p + f, 'rb').read() for f in os.listdir(p)}
        inp = dga_io.load_1p_data(kind, p, f1, f2)
        for k, v in (('giw', d.giw[0].mean(0)), ('siw', d.siw[0].mean(0)), ('n', d.n), ('beta', d.beta), ('u', d.u), ('mu_dmft', d.mu), ('g4iw_dens', d.dens), ('g4iw_magn', d.magn)):
            ctx.close(inp[k], v, 'loaded', f'{kind}: {k}', rtol=1e-14)
        if kind in ('w2dyn', 'EDFermion'):
            only = dga_io.load_1p_data(kind, p, f1)
            ctx.true('g4iw_dens' not in only and all(np.array_equal(only[k], inp[k]) for k in only), 'one-particle', f'{kind}: without vertex file')
        cfg = config.DgaConfig({'lattice': {'type': 't_tp_tpp', 'hr_input': [1, 0, 0], 'nk': [4, 4, 1]}, 'box_sizes': {'niw_core': nw, 'niv_core': nv},
                                'dmft_input': {'do_sym_v_vp': sym, 'type': kind}})
        keep = {k: np.array(inp[k]) for k in ('g4iw_dens', 'g4iw_magn')}
        gd, gm = dga_io.build_g2_obj(cfg, inp)
        ctx.true((cfg.box.niw_core, cfg.box.niv_core) == (ew, ev), 'box', f'{(cfg.box.niw_core, cfg.box.niv_core)} used, {(ew, ev)} expected')
        for g, raw, ch in ((gd, d.dens, 'dens'), (gm, d.magn, 'magn')):
            want = raw[d.nw - ew:d.nw + ew + 1, d.nv - ev:d.nv + ev, d.nv - ev:d.nv + ev]
            if sym:
                want = .5 * (want + np.swapaxes(want, 1, 2))
            ctx.close(g.mat, want, 'vertex', f'{kind} {ch}: box {(ew, ev)} of {(d.nw, d.nv)}', rtol=1e-14)
            ctx.true(g.channel == ch and g.beta == d.beta and g.u == d.u and g.niv == ev, 'vertex', f'{ch}: parameters {g.channel, g.beta, g.u, g.niv}')
            ctx.equal(g.wn, np.arange(-ew, ew + 1), 'vertex', 'bosonic frequencies')
            ctx.equal(inp[f'g4iw_{ch}'], keep[f'g4iw_{ch}'], 'modified', 'the loaded vertex is changed in place')
        # what is stored for later (continuation) is what was used
        out = dga_io.create_dmft_ddict(inp, gd, gm)
        o = config.OutputConfig()
        o.output_path = p
        o.save_data(out, 'dmft_input')
        back = dga_io.load_1p_data('default', p, 'dmft_input.npy')
        ctx.true(set(back) == {'giw', 'siw', 'n', 'beta', 'u', 'mu_dmft', 'g4iw_dens', 'g4iw_magn'}, 'stored', str(set(back)))
        for k in back:
            ctx.equal(np.asarray(back[k]), np.asarray({'g4iw_dens': gd.mat, 'g4iw_magn': gm.mat}.get(k, inp.get(k))), 'stored', k)
        again = lfp.get_g2_from_dmft_input(back, 'magn')
        ctx.equal(again.mat, gm.mat, 'stored', 'magnetic vertex')
        ctx.true(all(open(p + f, 'rb').read() == b for f, b in before.items()), 'input', 'an input file is changed')
    ctx.saw('inputs')


def sc_formats(ctx, rng, i):
    """the same physics in any format is the same input"""
    d = rand_input(rng)
    ctx.describe(on_file=(d.nw, d.nv), niv=d.niv)
    got = {}
    for kind in ('w2dyn', 'EDFermion', 'default'):
        with scratch() as p:
            got[kind] = dga_io.load_1p_data(kind, p, *write(kind, p, d, rng))
    for k in ('giw', 'siw', 'n', 'beta', 'u', 'mu_dmft', 'g4iw_dens', 'g4iw_magn'):
        for kind in ('EDFermion', 'default'):
            ctx.close(got[kind][k], got['w2dyn'][k], 'formats', f'{k} from {kind} and w2dyn', rtol=1e-14)
    with scratch() as p:
        f1, f2 = write('w2dyn', p, d, rng)
        for bad in ('w2dynamics', 'ED', '', 'Default'):
            ctx.raises(lambda: dga_io.load_1p_data(bad, p, f1, f2), 'unknown-format', bad, NotImplementedError)
        ctx.raises(lambda: dga_io.load_1p_data('w2dyn', p, 'nothing.hdf5', f2), 'missing-file', '', OSError)
        ctx.raises(lambda: dga_io.load_1p_data('w2dyn', p, f1, 'nothing.hdf5'), 'missing-file', '', OSError)
    m = rng.normal(size=(4, 2, 2))
    ctx.raises(lambda: lfp.get_g2_from_dmft_input({'g4iw_dens': m, 'beta': 1., 'u': 1.}, 'dens'), 'even-w', 'a vertex without a zero bosonic frequency', AssertionError)
    ctx.raises(lambda: lfp.get_g2_from_dmft_input({'g4iw_density': m[:3], 'beta': 1., 'u': 1.}, 'density'), 'channel', '', AssertionError)
    ctx.saw('formats', 3)


def sc_reader(ctx, rng, i):
    """every accessor reads the requested atom and iteration"""
    na = int(rng.integers(1, 5))
    nb = [int(rng.integers(1, 4)) for _ in range(na)]
    niv = int(rng.integers(1, 9))
    c = lambda *s: rng.normal(size=s) + 1j * rng.normal(size=s)
    d = {'giw': [c(b, 2, 2 * niv) for b in nb], 'siw': [c(b, 2, 2 * niv) for b in nb], 'occ': [c(b, 2, b, 2) for b in nb], 'totdens': float(rng.uniform(.1, 2)),
         'beta': float(rng.uniform(1, 50)), 'u': [float(x) for x in rng.uniform(1, 9, size=na)], 'mu': float(rng.normal())}
    names = {'get_siw_full': 'siw-full', 'get_giw_full': 'giw-full', 'get_g0iw_full': 'g0iw-full', 'get_g0iw': 'g0iw', 'get_smom_full': 'smom-full', 'get_dc': 'dc'}
    full = {}
    for a in range(na):
        for fn, key in names.items():
            for it in ('dmft-last', 'dmft-002'):
                full[it, a, fn] = c(nb[a], 2, nb[a], 2, 2 * niv)
    extra = {f'{it}/ineq-{a + 1:03}/{names[fn]}/value': v for (it, a, fn), v in full.items()}
    extra['dmft-last/dc-latt/value'] = c(3)
    tl = {(m, a, b): c(4, 6) for m in ('worm', 'mine') for a in range(na) for b in (1, 2)}
    for (m, a, b), v in tl.items():
        extra[f'{m}-001/ineq-{a + 1:03}/p3iw-worm/{b:05}/value'] = v
    ctx.describe(nontrivial=na > 1, bands=nb, niv=niv)
    with scratch() as p:
        write_1p(p + 'f.hdf5', d, extra)
        f = w2.W2dynFile(p + 'f.hdf5')
        ctx.true(f.get_niw() == niv and f.get_natom() == na and f.get_nd_tot() == sum(nb) and f.get_beta() == d['beta'] and f.get_totdens() == d['totdens'] and f.get_mu() == d['mu']
                 and f.get_mu('dmft-001') == d['mu'] + 5, 'scalars', 'config values')
        ctx.equal(f.get_dc_latt(), extra['dmft-last/dc-latt/value'], 'reader', 'dc-latt')
        for a in range(na):
            ctx.true(f.get_nd(a + 1) == nb[a] and f.get_udd(a + 1) == d['u'][a], 'scalars', f'atom {a + 1}')
            for k in ('giw', 'siw', 'occ'):
                ctx.equal(getattr(f, 'get_' + k)(atom=a + 1), d[k][a], 'reader', f'{k} atom {a + 1}')
                ctx.equal(getattr(f, 'get_' + k)('dmft-001', a + 1), d[k][a] * 3 + 1, 'reader', f'{k} atom {a + 1} of an earlier iteration')
            for fn in names:
                for it in ('dmft-last', 'dmft-002'):
                    ctx.equal(getattr(f, fn)(it, a + 1), full[it, a, fn], 'reader', f'{fn} {it} atom {a + 1}')
                    ctx.saw('datasets')
        f.close()
        t = w2.W2dynThreeLeg(p + 'f.hdf5')
        for (m, a, b), v in tl.items():
            ctx.equal(t.read_fermi_bose(m, a + 1, b), v.T, 'three-leg', f'{m} atom {a + 1} band {b}')
        t.close()
    # response functions of the worm: only the static density is connected by taking a constant away
    niw = int(rng.integers(0, 5))
    chi = {(m, a, b): c(2 * niw + 1) for m in ('worm-last', 'worm-002') for a in range(na) for b in (1, 2)}
    n = 1. if i % 3 == 0 else d['totdens']
    with scratch() as p:
        ex = {f'{m}/ineq-{a + 1:03}/p2iw-worm/{b:05}/value': v for (m, a, b), v in chi.items()}
        ex['dmft-002/dc-latt/value'] = c(3)
        write_1p(p + 'f.hdf5', dict(d, totdens=n), ex)
        f = w2.W2dynFile(p + 'f.hdf5')
        ctx.equal(f.get_dc_latt('dmft-002'), ex['dmft-002/dc-latt/value'], 'reader', 'dc-latt of an earlier iteration')
        for m in ('worm-last', 'worm-002'):
            for a in range(na):
                up, dn = chi[m, a, 1], chi[m, a, 2]
                ctx.close(f.get_chi(m, a + 1, 'magn'), up - dn, 'response', f'magnetic, {m} atom {a + 1}', rtol=1e-14)
                off = up + dn - f.get_chi(m, a + 1, 'dens')
                ctx.close(np.delete(off, niw), np.zeros(2 * niw), 'response', f'density, {m} atom {a + 1}', atol=1e-12 * np.max(np.abs(up)))
                disc = [2 * d['beta'] * x * x for x in (n / 2, 1 - n / 2)]  # electrons or holes on the legs
                ctx.true(min(abs(off[niw] - x) for x in disc) <= 1e-9 * (1 + max(disc)), 'response', f'{off[niw]} taken from the static density, n={n}, {disc}')
                ctx.saw('responses', 2)
        ctx.raises(lambda: f.get_chi(channel='upup'), 'refused', 'unknown channel')
        f.close()
    # one band: average over spin, whichever dataset is there
    sp = SimpleNamespace(g=c(1, 2, 2 * niv), s=c(1, 2, 2 * niv))
    with scratch() as p:
        ex = {}
        if i % 2:
            g5, s5 = np.zeros((1, 2, 1, 2, 2 * niv), complex), np.zeros((1, 2, 1, 2, 2 * niv), complex)
            for s in range(2):
                g5[0, s, 0, s], s5[0, s, 0, s] = sp.g[0, s], sp.s[0, s]
            ex = {'dmft-last/ineq-001/giw-full/value': g5, 'dmft-last/ineq-001/siw-full/value': s5}
        write_1p(p + 'f.hdf5', dict(d, giw=[sp.g], siw=[sp.s], occ=[c(1, 2, 1, 2)], u=d['u'][:1]), ex)
        f = w2.W2dynFile(p + 'f.hdf5')
        o = f.load_dmft1p_w2dyn()
        f.close()
    ctx.close(o['gloc'], sp.g[0].mean(0), 'one-band', 'local Green\'s function', rtol=1e-14)
    ctx.close(o['sloc'], sp.s[0].mean(0), 'one-band', 'self-energy', rtol=1e-14)
    ctx.close([o['beta'], o['u'], o['mu'], o['n'], o['niv'], o['hartree']], [d['beta'], d['u'][0], d['mu'], d['totdens'], niv, d['totdens'] * d['u'][0] / 2], 'one-band', 'parameters', rtol=1e-14)


SCENARIOS = [('load', sc_load, 240, 900), ('formats', sc_formats, 60, 200), ('reader', sc_reader, 60, 200)]

"""C24: symmetrisation of the impurity solver's worm components: density = uu + ud, magnetic = uu - ud, nothing lost, moved or overwritten."""
import contextlib
import io
import os
import subprocess
import sys

import h5py
import numpy as np
from dga import symmetrize as sym
from dga import w2dyn_aux_dga as w2
from harness.env import scratch
from harness.worm import SPINS, band_index, bands_kanamori, index, write_worm

RULE = ('random components of every spin and band combination of a Kanamori impurity (1-4 bands, 1-3 atoms, any orbital symmetry), one, two and three '
        'frequencies, random boxes, NaN entries, any group order, existing output files. Non-trivial: more than one band or frequency')


def partition(rng, nb):
    """random orbital symmetry: groups of equivalent bands (1-based lists per band)"""
    lab = rng.integers(0, max(1, int(rng.integers(1, nb + 1))), size=nb)
    return [[int(j) + 1 for j in np.where(lab == lab[i])[0]] for i in range(nb)]


def shape_of(rng, target):
    nw, nv = int(rng.integers(0, 4)), int(rng.integers(1, 5))
    return {'3freq': (2 * nv, 2 * nv, 2 * nw + 1), '2freq': (2 * nv, 2 * nw + 1), '1freq_b': (2 * nw + 1,)}[target]


def components(rng, target, natom, nbs, shape):
    out = []
    for a in range(natom):
        nb = nbs[a]
        out.append((nb, {(b, s): rng.normal(size=shape) + 1j * rng.normal(size=shape) for b in bands_kanamori(nb) for s in SPINS}))
    return out


def images(syms, b):
    """all band combinations equivalent to b: the same pattern on equivalent bands"""
    kinds = sorted(set(b), key=b.index)
    out = []
    for c in np.ndindex(*[len(syms[k]) for k in kinds]):
        m = {k: syms[k][j] - 1 for k, j in zip(kinds, c)}
        if len(set(m.values())) == len(kinds):
            out.append(tuple(m[x] for x in b))
    return out


def expected(nb, comp, syms):
    """{channel: {bands: array}}"""
    clean = {k: np.where(np.isnan(v), 0, v) for k, v in comp.items()}
    su2 = {}
    for b in bands_kanamori(nb):
        uu = .5 * (clean[b, (0, 0, 0, 0)] + clean[b, (1, 1, 1, 1)])
        ud = .5 * (clean[b, (0, 0, 1, 1)] + clean[b, (1, 1, 0, 0)])
        fl = .5 * (clean[b, (0, 1, 1, 0)] + clean[b, (1, 0, 0, 1)])
        su2[b] = {'dens': uu + ud, 'magn': .5 * (uu - ud + fl)}
    out = {'dens': {}, 'magn': {}}
    for b in su2:
        im = images(syms, b)
        for ch in out:
            out[ch][b] = np.mean([su2[x][ch] for x in im], axis=0)
    return out


def sc_sym(ctx, rng, i):
    target = ['3freq', '2freq', '1freq_b'][i % 3]
    natom = int(rng.integers(1, 4 if ctx.thorough else 3))
    nbs = [int(rng.integers(1, 4 if i % 2 else 2)) for _ in range(natom)]
    shape = shape_of(rng, target)
    comps = components(rng, target, natom, nbs, shape)
    nan = target == '3freq' and rng.random() < .4
    if nan:
        for nb, c in comps:
            for k in list(c)[::3]:
                c[k][tuple(rng.integers(0, n) for n in shape)] = complex(*[(np.nan, 0), (np.nan, np.nan), (.7, np.nan)][int(rng.integers(0, 3))])
    group = str(rng.choice(['worm-last', 'worm-last', 'worm-001', 'worm-007']))
    syms = [partition(rng, nb) for nb in nbs]
    ctx.describe(nontrivial=max(nbs) > 1 or np.prod(shape) > 1, target=target, bands=nbs, shape=shape, sym=syms, group=group, nan=bool(nan))
    with scratch() as p:
        write_worm(p + 'in.hdf5', comps, group, target, rng)
        before = open(p + 'in.hdf5', 'rb').read()
        conf = {'nineq': natom, 'target': target, 'sym_type': 'o', 'outfile': p + 'out.hdf5', 'Nbands': nbs, 'infile': p + 'in.hdf5', 'sym': syms, 'worm_group': group}
        with contextlib.redirect_stdout(io.StringIO()):
            sym.main(conf)
        ctx.true(open(p + 'in.hdf5', 'rb').read() == before, 'input', 'the input file is changed')
        with h5py.File(p + 'out.hdf5', 'r') as f:
            for a in range(natom):
                want = expected(nbs[a], comps[a][1], syms[a])
                for ch in ('dens', 'magn'):
                    g = f[f'ineq-{a + 1:03}/{ch}']
                    if target == '1freq_b':
                        got = {int(k): g[k][()] for k in g}
                    elif target == '2freq':
                        got = {int(k): np.stack([g[f'{w:05}/{k}'][()] for w in range(shape[-1])], -1) for k in g['00000']}
                    else:
                        got = {int(k): np.stack([g[f'{w:05}/{k}/value'][()].T for w in range(shape[-1])], -1) for k in g['00000']}
                    if target != '1freq_b':
                        ctx.true(len(g) == shape[-1], 'frequencies', f'{len(g)} bosonic frequencies written, {shape[-1]} read')
                    ctx.true(set(got) == {band_index(nbs[a], b) for b in want[ch]}, 'groups', f'{sorted(got)}')
                    for b, w in want[ch].items():
                        ctx.close(got[band_index(nbs[a], b)], w, 'value', f'atom {a + 1} {ch} bands {b}', rtol=1e-12)
                        ctx.saw('components')
            ctx.true(len(f['.axes/iv']) == 5 if target == '3freq' else True, 'axes', 'axes are not copied')
        # an existing result is never overwritten
        old = open(p + 'out.hdf5', 'rb').read()
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                sym.main(dict(conf))
        except SystemExit:
            pass
        ctx.true(open(p + 'out.hdf5', 'rb').read() == old, 'overwritten', 'an existing output file is changed')


def sc_1freq(ctx, rng, i):
    natom = int(rng.integers(1, 4))
    nbs = [int(rng.integers(1, 5)) for _ in range(natom)]
    niv = int(rng.integers(1, 9))
    syms = [partition(rng, nb) for nb in nbs]
    g = [rng.normal(size=(nb, 2, 2 * niv)) + 1j * rng.normal(size=(nb, 2, 2 * niv)) for nb in nbs]
    s = [rng.normal(size=(nb, 2, 2 * niv)) + 1j * rng.normal(size=(nb, 2, 2 * niv)) for nb in nbs]
    ctx.describe(nontrivial=max(nbs) > 1, bands=nbs, niv=niv, sym=syms)
    with scratch() as p:
        with h5py.File(p + 'in.hdf5', 'w') as f:
            for a in range(natom):
                f[f'dmft-last/ineq-{a + 1:03}/giw/value'], f[f'dmft-last/ineq-{a + 1:03}/siw/value'] = g[a], s[a]
            f['dmft-last/mu/value'] = 1.5
        before = open(p + 'in.hdf5', 'rb').read()
        with contextlib.redirect_stdout(io.StringIO()):
            sym.main({'nineq': natom, 'target': '1freq_f', 'outfile': p + 'out.hdf5', 'Nbands': nbs, 'infile': p + 'in.hdf5', 'sym': syms})
        ctx.true(open(p + 'in.hdf5', 'rb').read() == before, 'input', 'the input file is changed')
        f = w2.W2dynFile(p + 'out.hdf5')
        ctx.true(f.get_mu() == 1.5, 'kept', 'other data are lost')
        for a in range(natom):
            for nm, raw, got in (('giw', g[a], f.get_giw(atom=a + 1)), ('siw', s[a], f.get_siw(atom=a + 1))):
                for b in range(nbs[a]):
                    want = np.mean([raw[j - 1].mean(axis=0) for j in syms[a][b]], axis=0)
                    ctx.close(got[b], np.stack([want, want]), 'value', f'{nm} atom {a + 1} band {b}', rtol=1e-12)
                    ctx.saw('components')
                ctx.equal(f._file[f'dmft-last/ineq-{a + 1:03}/{nm}_unsymmetrized/value'][()], raw, 'kept', f'unsymmetrised {nm}')
        f.close()


def sc_index(ctx, rng, i):
    """compound indices of bands and spins are a bijection"""
    nb, n = int(rng.integers(1, 6)), int(rng.integers(1, 5))
    ctx.describe(nontrivial=nb > 1, bands=nb, legs=n)
    seen = set()
    tot = (2 * nb) ** n
    for k in (range(1, tot + 1) if tot < 3000 else rng.integers(1, tot + 1, size=2000)):
        bs, b, s = sym.index2component_general(nb, n, int(k))
        ctx.true(len(b) == n and np.all(bs == 2 * b + s) and np.all((s >= 0) & (s < 2)) and np.all((b >= 0) & (b < nb)), 'index', f'{k} -> {bs, b, s}')
        ctx.true(index(nb, b, s) == k, 'index', f'{k} -> {b, s} belongs to {index(nb, b, s)}')
        kb = sym.component2index_band(nb, n, b)
        ctx.true(kb == band_index(nb, b) and list(sym.index2component_band(nb, n, kb)) == list(b), 'band-index', f'{b} -> {kb}')
        seen.add((tuple(b), tuple(s)))
    ctx.saw('indices', len(seen))
    bad = partition(rng, nb)
    with contextlib.redirect_stdout(io.StringIO()):
        sym.check_sym(nineq=1, Nbands=[nb], sym=[bad])  # a partition is consistent
        if nb > 1 and any(len(x) < nb for x in bad):
            a = next(j for j in range(nb) if len(bad[j]) < nb)
            out = next(j + 1 for j in range(nb) if j + 1 not in bad[a])
            bad[a] = bad[a] + [out]
            ctx.raises(lambda: sym.check_sym(nineq=1, Nbands=[nb], sym=[bad]), 'inconsistent', f'{bad}', SystemExit)


def sc_cli(ctx, rng, i):
    """the command line tool as the user runs it: worm file in, file for the DGA run out"""
    shape = shape_of(rng, '3freq')
    comps = components(rng, '3freq', 1, [1], shape)
    names = [('Vertex.hdf5', 'g4iw_sym.hdf5', []), ('my vertex.h5', 'other.hdf5', ['-if', 'my vertex.h5', '-of', 'other.hdf5'])][i % 2]
    ctx.describe(shape=shape, names=names[:2], by_path=bool(i // 2 % 2))
    with scratch() as p:
        sub = p + 'a b/'
        os.makedirs(sub)
        write_worm(sub + names[0], comps, 'worm-last', '3freq', rng)
        cwd, extra = (p, ['-p', sub]) if i // 2 % 2 else (sub, [])
        r = subprocess.run([sys.executable, '-m', 'cli.sym1b'] + names[2] + extra, cwd=cwd, stdin=subprocess.DEVNULL, capture_output=True, text=True, timeout=120)
        ctx.true(r.returncode == 0 and os.path.exists(sub + names[1]), 'tool', f'rc {r.returncode}: {r.stderr[-600:]}')
        ctx.true(sorted(os.listdir(sub)) == sorted(names[:2]), 'tool', str(os.listdir(sub)))
        f = w2.W2dynG4iwFile(sub + names[1])
        want = expected(1, comps[0][1], [[1]])
        for ch in ('dens', 'magn'):
            w = np.moveaxis(want[ch][0, 0, 0, 0], -1, 0)
            ctx.close(f.read_g2_full(channel=ch), w, 'pipeline', f'{ch}: vertex[w, v, v\'] read back', rtol=1e-12)
            nw, nv = shape[-1] // 2, shape[0] // 2
            ctx.true(f.get_niw(channel=ch) == nw, 'niw', ch)
            ctx.close(f.read_g2(channel=ch, niw=nw, niv=nv), w, 'pipeline', f'read_g2 {ch}', rtol=1e-12)
            iw = rng.integers(-nw, nw + 1, size=3)
            ctx.close(f.read_g2_iw(channel=ch, iw=iw), w[iw + nw], 'pipeline', f'read_g2_iw {ch} at {iw}', rtol=1e-12)
        f.close()
        ctx.saw('files')
        # a file with components missing or too many is not taken unless the user wants it
        inc = p + 'inc/'
        os.makedirs(inc)
        write_worm(inc + 'Vertex.hdf5', comps, 'worm-last', '3freq', rng)
        with h5py.File(inc + 'Vertex.hdf5', 'r+') as f:
            g = f['worm-last/ineq-001/g4iw-worm']
            if i % 2:
                del g[sorted(g)[int(rng.integers(0, len(g)))]]
            else:
                g['00099/value'] = g[sorted(g)[0] + '/value'][()]
        r = subprocess.run([sys.executable, '-m', 'cli.sym1b'], cwd=inc, input='n\n', capture_output=True, text=True, timeout=120)
        ctx.true(os.listdir(inc) == ['Vertex.hdf5'], 'refused', f'{"missing" if i % 2 else "additional"} component: {os.listdir(inc)} rc {r.returncode}')


SCENARIOS = [('sym', sc_sym, 40, 500), ('1freq', sc_1freq, 15, 200), ('index', sc_index, 12, 100), ('cli', sc_cli, 4, 40)]

"""Writes files in the layout of the w2dynamics impurity solver (DMFT results and worm components)."""
import h5py
import numpy as np

SPINS = [(0, 0, 0, 0), (0, 0, 1, 1), (0, 1, 1, 0), (1, 0, 0, 1), (1, 1, 0, 0), (1, 1, 1, 1)]


def bands_kanamori(nb):
    out = []
    for i in range(nb):
        out.append((i, i, i, i))
        for j in range(nb):
            if i != j:
                out += [(i, i, j, j), (i, j, i, j), (i, j, j, i)]
    return out


def index(nb, bands, spins):
    k = 0
    for b, s in zip(bands, spins):
        k = k * 2 * nb + 2 * b + s
    return k + 1


def band_index(nb, bands):
    k = 0
    for b in bands:
        k = k * nb + b
    return k + 1


def write_1p(fname, d, extra=None):
    """d: giw, siw [atom][band, spin, iv], occ [atom][band, spin, band, spin], n, beta, u, mu; extra groups to be ignored by a reader"""
    with h5py.File(fname, 'w') as f:
        cfg = f.create_group('.config')
        cfg.attrs['general.totdens'] = d['totdens']
        cfg.attrs['general.beta'] = d['beta']
        cfg.attrs['general.nat'] = len(d['giw'])
        cfg.attrs['qmc.niw'] = d['giw'][0].shape[-1] // 2
        for a in range(len(d['giw'])):
            cfg.attrs[f'atoms.{a + 1}.udd'] = d['u'][a]
            cfg.attrs[f'atoms.{a + 1}.nd'] = d['giw'][a].shape[0]
            for k in ('giw', 'siw', 'occ'):
                f[f'dmft-last/ineq-{a + 1:03}/{k}/value'] = d[k][a]
                f[f'dmft-001/ineq-{a + 1:03}/{k}/value'] = d[k][a] * 3 + 1  # an earlier iteration
        f['dmft-last/mu/value'] = d['mu']
        f['dmft-001/mu/value'] = d['mu'] + 5
        for k, v in (extra or {}).items():
            f[k] = v


def write_worm(fname, comps, group='worm-last', target='3freq', order=None):
    """comps[ineq]: {(bands, spins): array}"""
    name = {'3freq': 'g4iw-worm', '2freq': 'p3iw-worm', '1freq_b': 'p2iw-worm'}[target]
    with h5py.File(fname, 'w') as f:
        f.create_group('.axes')
        f['.axes/iv'] = np.arange(5.)
        for a, (nb, c) in enumerate(comps):
            keys = list(c)
            if order is not None:
                order.shuffle(keys)
            for b, s in keys:
                f[f'{group}/ineq-{a + 1:03}/{name}/{index(nb, b, s):05}/value'] = c[b, s]
                f[f'stale-group/ineq-{a + 1:03}/{name}/{index(nb, b, s):05}/value'] = c[b, s] * 7 + 1

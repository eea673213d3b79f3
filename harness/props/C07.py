"""C07: Hamiltonian files: what is written is what is read."""
import os
import shutil
import tempfile

import numpy as np
from dga import brillouin_zone as bz
from dga import wannier as wa
from harness.props.C06 import random_hr

RULE = ('random Hermitian real-space models (1-13 orbitals, 1-300 lattice vectors, also different for each matrix element, weights) and random k-grids written to '
        'a scratch directory and read back; files are also parsed by an independent reader. Distinct = different model')


def parse_hr(fname):
    lines = open(fname, encoding='utf-8').read().split('\n')[1:]
    tok = []
    head = [float(x) for x in ' '.join(lines[:2]).split()]
    nb, nr = int(head[0]), int(head[1])
    body = ' '.join(lines[2:]).split()
    w = [float(x) for x in body[:nr]]
    rest = np.array([float(x) for x in body[nr:]]).reshape(nr, nb, nb, 7)
    del tok
    return nb, nr, np.array(w), rest


def big_model(rng, no, nr):
    m = int(rng.choice([3, 9, 30, 150]))
    grid = rng.integers(-m, m + 1, size=(nr, 3))
    r = np.zeros((nr, no, no, 3))
    r[:] = grid[:, None, None, :]
    if rng.random() < .3:  # a vector of its own for each matrix element
        r[:] = rng.integers(-m, m + 1, size=r.shape)
    hr = np.round(rng.normal(size=(nr, no, no)) * 10. ** rng.integers(-3, 3), 6) + 1j * np.round(rng.normal(size=(nr, no, no)), 6)
    orbs = np.zeros((nr, no, no, 2))
    for a in range(no):
        for b in range(no):
            orbs[:, a, b] = (a + 1, b + 1)
    w = rng.integers(1, 9, size=(nr, 1))
    return hr, r, w, orbs


def sc_hr(ctx, rng, i):
    no = int(rng.integers(1, 4))
    nr = int(rng.integers(1, 60)) if i % 4 else 15 * int(rng.integers(1, 4))
    if i % 8 == 4:
        nr = int(rng.integers(60, 300))
    if i % 12 == 0 and i:
        no, nr = int(rng.integers(9, 14)), int(rng.integers(1, 8))
    kind = ['random', 'square', 'emery', 'nematic'][i % 4 if i >= 5 else 0]
    if kind == 'random':
        mod = big_model(rng, no, nr)
    elif kind == 'square':
        mod = wa.wannier_one_band_2d_t_tp_tpp(*np.round(rng.normal(size=3), 6))
    elif kind == 'nematic':
        mod = wa.wannier_one_band_2d_nematic(*np.round(rng.normal(size=5), 6))
    else:
        mod = wa.wannier_emery_model(*np.round(rng.normal(size=5), 6))
    hr, grid, w, orbs = [np.array(x) for x in mod]
    shape = hr.shape
    ctx.describe(kind=kind, orbitals=shape[1], nr=shape[0])
    tmp = tempfile.mkdtemp(prefix='verif_c07_')
    try:
        m = wa.WannierHr(*mod)
        m.save_hr(tmp + '/', name='a_hr.dat')
        ctx.equal(m.hr, hr, 'alias', 'saving changed the model')
        nb, n, pw, rest = parse_hr(tmp + '/a_hr.dat')
        ctx.true((nb, n) == (shape[1], shape[0]), 'file', f'header {nb} {n}')
        ctx.close(rest[..., 5] + 1j * rest[..., 6], hr + 0j, 'file', 'matrix elements', rtol=0, atol=6e-7)
        ctx.equal(rest[..., :3], grid * np.ones(shape + (3,)), 'file', 'lattice vectors')
        ctx.equal(pw, np.ravel(w), 'file', 'weights')
        lab = np.zeros(shape + (2,))
        for a in range(shape[1]):
            for b in range(shape[1]):
                lab[:, a, b] = (a + 1, b + 1)
        ctx.equal(rest[..., 3:5], lab, 'orbital-labels', 'orbital columns')
        r = wa.create_wannier_hr_from_file(tmp + '/a_hr.dat')
        ctx.close(r.hr, hr + 0j, 'read', 'matrix elements', rtol=0, atol=6e-7)
        ctx.equal(r.r_grid, grid * np.ones(shape + (3,)), 'read', 'lattice vectors')
        ctx.equal(np.ravel(r.r_weights), np.ravel(w), 'read', 'weights')
        ctx.equal(r.orbs, lab, 'read', 'orbital labels')
        g = bz.KGrid(tuple(int(x) for x in rng.integers(1, 5, size=3)), [])
        ctx.close(r.get_ek(g, one_band=False), m.get_ek(g, one_band=False), 'bands', 'H(k) after a round trip',
                  rtol=0, atol=1e-6 * shape[0])
    finally:
        shutil.rmtree(tmp)
    ctx.saw('files')
    ctx.saw('matrix_elements', hr.size)


def sc_hk(ctx, rng, i):
    no = int(rng.integers(1, 5))
    hr, grid, w, orbs, rs = random_hr(rng, no)
    nk = tuple(int(x) for x in rng.integers(1, 6, size=3))
    ctx.describe(orbitals=no, nk=nk, R=rs)
    g = bz.KGrid(nk, [])
    N = int(np.prod(nk))
    tmp = tempfile.mkdtemp(prefix='verif_c07_')
    try:
        m = wa.WannierHr(hr, grid, w, orbs)
        m.save_hk(g, tmp + '/', name='a.hk')
        ek = m.get_ek(g, one_band=False)
        tok = open(tmp + '/a.hk', encoding='utf-8').read().split()
        ctx.true([int(x) for x in tok[:3]] == [N, no, no], 'file', f'header {tok[:3]}')
        body = np.array([float(x) for x in tok[3:]]).reshape(N, 3 + 2 * no * no)
        ctx.close(body[:, :3], np.asarray(g.kmesh_list).T, 'file', 'k-points', rtol=1e-12)
        h = body[:, 3:].reshape(N, no, no, 2)
        ctx.close(h[..., 0] + 1j * h[..., 1], ek.reshape(N, no, no), 'file', 'matrix elements', rtol=0, atol=2e-12)
        hk, kp = wa.read_hk_w2k(tmp + '/a.hk')
        ctx.close(np.reshape(hk, (N, no, no)), ek.reshape(N, no, no), 'read', 'H(k)', rtol=0, atol=2e-12)
        ctx.close(kp, g.kmesh_list, 'read', 'k-points', rtol=1e-12)
        if no % 2 == 0:  # with spin: bands of one spin first, then those of the other
            nb = no // 2
            hs, kp = wa.read_hk_w2k(tmp + '/a.hk', spin_sym=False)
            ref = ek.reshape(N, 2, nb, 2, nb).transpose(0, 2, 1, 4, 3)
            ctx.close(np.reshape(hs, ref.shape), ref, 'read', 'H(k) with spin', rtol=0, atol=2e-12)
            ctx.close(kp, g.kmesh_list, 'read', 'k-points', rtol=1e-12)
            ctx.saw('spin_files')
        elif N > 1 and no > 1:
            ctx.raises(lambda: wa.read_hk_w2k(tmp + '/a.hk', spin_sym=False), 'spin', 'odd number of bands with spin')
        # obsolete headers describe the same file: version 1 (k-points, atoms, d, p), version 2 (one line per atom)
        lines = open(tmp + '/a.hk', encoding='utf-8').read().strip().split('\n')
        nd, at = int(rng.integers(0, no + 1)), int(rng.integers(0, no + 1))
        heads = [('v1', f'{N} 1 {nd} {no - nd} 0'), ('v2', f'VERSION 2 \n{N} 1 \n{nd} {no - nd} 0 0 '),
                 ('v2 of two atoms', f'VERSION 2 # {no}\n{N} 2 # atoms\n{at} 0 0 0 #\n0 {no - at} 0 0 #')]
        for q in [q for q in range(2, no + 1) if no % q == 0]:
            d = int(rng.integers(0, no // q + 1))
            heads.append((f'v1 of {q} atoms', f'{N} {q} {d} {no // q - d} 0 # d p'))
        for nm, head in heads:
            open(f'{tmp}/{nm}.hk', 'w', encoding='utf-8').write('\n'.join([head] + lines[1:]) + '\n')
            hk, kp = wa.read_hk_w2k(f'{tmp}/{nm}.hk')
            ctx.close(np.reshape(hk, (N, no, no)), ek.reshape(N, no, no), 'read', f'H(k) with header {nm}', rtol=0, atol=2e-12)
            ctx.close(kp, g.kmesh_list, 'read', f'k-points with header {nm}', rtol=1e-12)
        # momenta of another Brillouin zone, a comment behind the header
        km = np.asarray(g.kmesh_list) - np.pi
        wa.write_hk_wannier90(ek.reshape(N, no, no), tmp + '/d.hk', km, nk)
        l = open(tmp + '/d.hk', encoding='utf-8').read().split('\n')
        l[0] += ' # written by hand'
        open(tmp + '/d.hk', 'w', encoding='utf-8').write('\n'.join(l))
        hk, kp = wa.read_hk_w2k(tmp + '/d.hk')
        ctx.close(np.reshape(hk, (N, no, no)), ek.reshape(N, no, no), 'read', 'H(k) at negative momenta', rtol=0, atol=2e-12)
        ctx.close(kp, km, 'read', 'negative k-points', rtol=1e-12)
        # surplus k-points are ignored
        lines = open(tmp + '/a.hk', encoding='utf-8').read().strip().split('\n')
        if N > 1:
            open(tmp + '/c.hk', 'w', encoding='utf-8').write('\n'.join([f'{N - 1} {no} {no} '] + lines[1:]) + '\n')
            hk, kp = wa.read_hk_w2k(tmp + '/c.hk')
            ctx.close(np.reshape(hk, (N - 1, no, no)), ek.reshape(N, no, no)[:-1], 'read', 'H(k) of a file with surplus points', rtol=0, atol=2e-12)
        # a file with too few k-points is refused
        lines = open(tmp + '/a.hk', encoding='utf-8').read().strip().split('\n')
        if N > 1:
            open(tmp + '/b.hk', 'w', encoding='utf-8').write('\n'.join(lines[:-(no + 1)]) + '\n')
            ctx.raises(lambda: wa.read_hk_w2k(tmp + '/b.hk'), 'truncated', 'file with missing k-points')
    finally:
        shutil.rmtree(tmp)
    ctx.saw('files')


SCENARIOS = [('hr', sc_hr, 240, 500), ('hk', sc_hk, 240, 500)]

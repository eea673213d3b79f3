"""C06: tight-binding Hamiltonians: Fourier sum, Hermiticity, light vertex = gradient, closed forms."""
import numpy as np
from dga import brillouin_zone as bz
from dga import wannier as wa

RULE = ('random Hermitian real-space models (1-3 orbitals, complex hoppings, integer degeneracy weights, 1-3 dim '
        'vectors) and all model builders with random parameters on random k-grids. Oracle: explicit sum over R per '
        'k-point, central differences of that sum. Non-trivial: at least one non-local hopping')


def random_hr(rng, no):
    rs = [(0, 0, 0)]
    for _ in range(int(rng.integers(1, 5))):
        r = tuple(int(x) for x in rng.integers(-3, 4, size=3))
        if r not in rs and r != (0, 0, 0):
            rs += [r, tuple(-x for x in r)]
    seen, out = set(), []
    for r in rs:
        if r not in seen:
            seen.add(r)
            out.append(r)
    rs = out
    w = {}
    for r in rs:
        w[r] = w.get(tuple(-x for x in r), int(rng.integers(1, 4)))
    hr = np.zeros((len(rs), no, no), dtype=complex)
    for j, r in enumerate(rs):
        k = rs.index(tuple(-x for x in r))
        if k >= j:
            m = rng.normal(size=(no, no)) + 1j * rng.normal(size=(no, no))
            if k == j:
                m = 0.5 * (m + m.conj().T)
            hr[j] = m
            hr[k] = m.conj().T
    grid = np.zeros((len(rs), no, no, 3))
    for j, r in enumerate(rs):
        grid[j, :, :, :] = r
    orbs = np.zeros((len(rs), no, no, 2))
    for a in range(no):
        for b in range(no):
            orbs[:, a, b] = (a + 1, b + 1)
    weights = np.array([w[r] for r in rs])[:, None]
    return hr, grid, weights, orbs, rs


def hk(hr, rs, w, k):
    return sum(np.exp(1j * np.dot(k, r)) / float(np.ravel(w)[j]) * hr[j] for j, r in enumerate(rs))


def sc_fourier(ctx, rng, i):
    no = int(rng.integers(1, 4))
    hr, grid, w, orbs, rs = random_hr(rng, no)
    nk = tuple(int(x) for x in rng.integers(1, 6, size=3))
    same = i % 3 > 0
    hs, gs = hr, grid
    if not same:  # every pair of orbitals lists its vectors in an order of its own
        w = np.ones((len(rs), 1)) * int(rng.integers(1, 4))
        hs, gs = hr.copy(), grid.copy()
        for a in range(no):
            for c in range(no):
                p = rng.permutation(len(rs))
                hs[:, a, c], gs[:, a, c] = hr[p, a, c], grid[p, a, c]
    ctx.describe(orbitals=no, R=rs, w=np.ravel(w), nk=nk, same_order=same)
    g = bz.KGrid(nk, [])
    m = wa.WannierHr(hs, gs, w, orbs)
    ek = m.get_ek(g, one_band=False)
    ctx.true(ek.shape == nk + (no, no), 'shape', f'{ek.shape}')
    lv = [m.get_light_vertex(g, der=d, one_band=False) for d in range(3)]
    kl = wa.convham2(hs, gs, w, g.kmesh_list)
    h = 1e-5
    for j, idx in enumerate(np.ndindex(*nk)):
        k = np.array([2 * np.pi * idx[a] / nk[a] for a in range(3)])
        ref = hk(hr, rs, w, k)
        ctx.close(ek[idx], ref, 'Hk', f'H(k) at {idx}', rtol=1e-10)
        ctx.close(kl[j], ref, 'Hk', f'H(k) loop version at {idx}', rtol=1e-10)
        ctx.close(ek[idx], ek[idx].conj().T, 'hermitian', f'H(k) at {idx}', rtol=1e-10)
        for d in range(3):
            e = np.eye(3)[d] * h
            num = (hk(hr, rs, w, k + e) - hk(hr, rs, w, k - e)) / (2 * h)
            ctx.close(lv[d][idx], num, 'light', f'dH/dk_{d} at {idx}', rtol=1e-6, atol=1e-6, scale=np.abs(hr).max() * 10)
        ctx.saw('kpoints')
    ctx.equal(m.get_ek(g), ek[..., 0, 0], 'one_band', 'first band')
    ctx.equal(m.get_light_vertex(g), lv[0][..., 0, 0], 'one_band', 'default direction is x')
    # sum rule: local part = mean over k if the grid resolves every R
    if all(all(abs(r[a]) < nk[a] or r[a] == 0 for a in range(3)) for r in rs):
        ctx.close(ek.mean(axis=(0, 1, 2)), hr[0] / np.ravel(w)[0], 'local', 'on-site energies', rtol=1e-9)


def lat_sum(hop, k):
    return sum(t * np.exp(1j * np.dot(k, r)) for r, t in hop.items())


def sc_models(ctx, rng, i):
    nk = (int(rng.integers(2, 7)), int(rng.integers(2, 7)), int(rng.integers(1, 3)))
    t, tp, tpp = [float(x) for x in rng.normal(size=3)]
    tx, ty, txx, tyy, txy = [float(x) for x in rng.normal(size=5)]
    ctx.describe(nk=nk, t=[t, tp, tpp], nem=[tx, ty, txx, tyy, txy])
    g = bz.KGrid(nk, [])
    sq = {}
    for s in (1, -1):
        sq[(s, 0, 0)] = sq[(0, s, 0)] = -t
        sq[(2 * s, 0, 0)] = sq[(0, 2 * s, 0)] = -tpp
        for s2 in (1, -1):
            sq[(s, s2, 0)] = -tp
    ne = {}
    for s in (1, -1):
        ne[(s, 0, 0)], ne[(0, s, 0)] = -tx, -ty
        ne[(2 * s, 0, 0)], ne[(0, 2 * s, 0)] = -txx, -tyy
        for s2 in (1, -1):
            ne[(s, s2, 0)] = -txy
    m1 = wa.WannierHr(*wa.wannier_one_band_2d_t_tp_tpp(t, tp, tpp))
    m2 = wa.WannierHr(*wa.wannier_one_band_2d_nematic(tx, ty, txx, tyy, txy))
    e1, e2 = m1.get_ek(g), m2.get_ek(g)
    l1 = m1.get_light_vertex(g)
    c1 = wa.ek_3d(g.grid, wa.one_band_2d_t_tp_tpp(t, tp, tpp))
    c2 = wa.ek_3d(g.grid, wa.one_band_2d_nematic(tx, ty, txx, tyy, txy))
    c3 = wa.ek_3d(g.grid, wa.one_band_2d_quasi1d(tx, ty, txx, tyy, txy))
    kl = wa.ek_3d_klist(g.kmesh_list.T, wa.one_band_2d_t_tp_tpp(t, tp, tpp)).reshape(nk)
    tri = wa.ek_3d(g.grid, wa.one_band_2d_triangular_t_tp_tpp(t, tp, tpp))
    q = rng.uniform(-3, 3, size=3)
    pq = wa.ekpq_3d(g.kmesh[0], g.kmesh[1], g.kmesh[2], q[0], q[1], q[2], wa.one_band_2d_t_tp_tpp(t, tp, tpp))
    tr = {k: v for k, v in sq.items() if k not in ((1, -1, 0), (-1, 1, 0))}
    for idx in np.ndindex(*nk):
        k = np.array([2 * np.pi * idx[a] / nk[a] for a in range(3)])
        ref = lat_sum(sq, k)
        kw = dict(rtol=1e-9, atol=1e-9)
        ctx.close(e1[idx], ref, 'square', f't-tp-tpp model at {idx}', **kw)
        ctx.close(c1[idx] + 0j, ref, 'square', f'closed form at {idx}', **kw)
        ctx.close(kl[idx] + 0j, ref, 'square', f'closed form on a list at {idx}', **kw)
        ctx.close(wa.ek_square(k[0], k[1], t, tp, tpp) + 0j, ref, 'square', 'closed form', **kw)
        ctx.close(pq[idx] + 0j, lat_sum(sq, k + q), 'square', f'e(k+q) at {idx}', **kw)
        ctx.close(tri[idx] + 0j, lat_sum(tr, k), 'triangular', f'at {idx}', **kw)
        d = (lat_sum(sq, k + [1e-5, 0, 0]) - lat_sum(sq, k - [1e-5, 0, 0])) / 2e-5
        ctx.close(l1[idx], d, 'light', f'light vertex at {idx}', rtol=1e-6, atol=1e-6)
        ctx.close(wa.del_ek_del_kx_square(k[0], k[1], t, tp, tpp) + 0j, d, 'light', 'closed form', rtol=1e-6, atol=1e-6)
        ref = lat_sum(ne, k)
        ctx.close(e2[idx], ref, 'nematic', f'nematic model at {idx}', **kw)
        ctx.close(c2[idx] + 0j, ref, 'nematic', f'closed form at {idx}', **kw)
        ctx.close(c3[idx] + 0j, ref, 'nematic', f'quasi-1d closed form at {idx}', **kw)
        ctx.saw('kpoints')
    # three-orbital model: Hermitian, real-space and momentum-space constructions agree, labelled orbitals
    par = [float(x) for x in rng.normal(size=5)]
    hr, grid, w, orbs = wa.wannier_emery_model(*par)
    em = wa.WannierHr(hr, grid, w, orbs)
    g2 = bz.KGrid((nk[0], nk[1], 1), [])
    ek = em.get_ek(g2, one_band=False)
    ctx.close(ek, wa.emery_model_ek(g2, *par), 'emery', 'real-space vs momentum-space model', rtol=1e-9)
    ctx.close(ek, np.conj(np.swapaxes(ek, -1, -2)), 'hermitian', 'Emery model', rtol=1e-9)
    ref = np.zeros(np.shape(orbs))
    for a in range(3):
        for b in range(3):
            ref[:, a, b] = (a + 1, b + 1)
    ctx.equal(orbs, ref, 'orbital-labels', 'orbital labels of the matrix elements')


SCENARIOS = [('fourier', sc_fourier, 160, 800), ('models', sc_models, 100, 400)]

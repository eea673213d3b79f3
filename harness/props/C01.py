"""C01: Matsubara grids and window operations are exact index algebra (labels = physical frequency index)."""
import numpy as np
from dga import matsubara_frequencies as mf

RULE = ('random array ranks/axes/window sizes/shifts; every array entry carries its own frequency index (plus random '
        'phases for the conjugation rules) so a monitor can name the frequency each output entry came from. Non-trivial: '
        'at least one entry is cut, shifted, added or reconstructed; distinct = different generated parameters')


def labels(rng, niv, ndim, axes, bos=False):
    """array whose entry encodes (frequency index on each listed axis, position elsewhere)"""
    n = 2 * niv + 1 if bos else 2 * niv
    shape = [int(rng.integers(1, 4)) for _ in range(ndim)]
    for a in axes:
        shape[a] = n
    lab = np.zeros(shape)
    idx = np.indices(shape)
    for d in range(ndim):
        v = idx[d].astype(float)
        if d in [a % ndim for a in axes]:
            v = v - niv
        lab += v * 1000. ** d
    return lab, shape


def pick_axes(rng, ndim, nmax=2):
    k = int(rng.integers(1, min(nmax, ndim) + 1))
    return [int(a) for a in rng.choice(ndim, size=k, replace=False)]


def expect(lab_shape, ndim, axes, ranges):
    """label array with the given frequency ranges along axes"""
    shape = list(lab_shape)
    coords = []
    for d in range(ndim):
        coords.append(np.arange(shape[d]).astype(float))
    for a, r in zip(axes, ranges):
        coords[a] = np.asarray(r, dtype=float)
    out = np.zeros([len(c) for c in coords])
    grids = np.meshgrid(*coords, indexing='ij')
    for d in range(ndim):
        out += grids[d] * 1000. ** d
    return out


def sc_grids(ctx, rng, i):
    n = int(rng.integers(1, 400))
    shift = int(rng.integers(-30, 30))
    beta = float(rng.uniform(0.3, 80))
    int_t = [int, np.int64, np.int32][i % 3]
    ctx.describe(n=n, shift=shift, beta=round(beta, 3), t=int_t.__name__)
    nn = int_t(n)
    ctx.equal(mf.vn(nn), range(-n, n), 'vn', 'fermionic index grid')
    ctx.equal(mf.wn(nn), range(-n, n + 1), 'wn', 'bosonic index grid')
    ctx.equal(mf.vn(nn, pos=True), range(0, n), 'vn', 'positive fermionic grid')
    ctx.equal(mf.wn(nn, pos=True), range(0, n + 1), 'wn', 'positive bosonic grid')
    ctx.equal(mf.vn(nn, shift=shift), range(-n + shift, n + shift), 'vn', 'shifted fermionic grid')
    ctx.equal(mf.wn(nn, shift=shift), range(-n + shift, n + shift + 1), 'wn', 'shifted bosonic grid')
    ctx.equal(mf.vn(nn, shift=shift, pos=True), range(shift, n + shift), 'vn', 'shifted positive fermionic grid')
    ctx.equal(mf.wn(nn, shift=shift, pos=True), range(shift, n + shift + 1), 'wn', 'shifted positive bosonic grid')
    for b in (beta, np.float64(beta)):
        for kw, rv, rw in (({}, range(-n, n), range(-n, n + 1)), ({'pos': True}, range(n), range(n + 1)),
                           ({'shift': shift}, range(-n + shift, n + shift), range(-n + shift, n + shift + 1))):
            v, w = mf.vn(b, nn, **kw), mf.wn(b, nn, **kw)
            ctx.close(v, [(2 * m + 1) * np.pi / beta for m in rv], 'vn-beta', f'fermionic frequencies {kw}', rtol=1e-13)
            ctx.close(w, [2 * m * np.pi / beta for m in rw], 'wn-beta', f'bosonic frequencies {kw}', rtol=1e-13)
    # grids derived from an object
    ndim = int(rng.integers(1, 4))
    ax = int(rng.integers(0, ndim))
    nv = int(rng.integers(1, 12))
    shf = [int(rng.integers(1, 5)) for _ in range(ndim)]
    shb = list(shf)
    shf[ax], shb[ax] = 2 * nv, 2 * nv + 1
    fm, bm = np.zeros(shf), np.zeros(shb)
    ctx.equal(mf.vn(fm, axis=ax), range(-nv, nv), 'vn-mat', 'grid of an object')
    ctx.equal(mf.wn(bm, axis=ax), range(-nv, nv + 1), 'wn-mat', 'grid of an object')
    ctx.close(mf.vn(beta, fm, axis=ax), [(2 * m + 1) * np.pi / beta for m in range(-nv, nv)], 'vn-mat', 'freqs', rtol=1e-13)
    ctx.close(mf.wn(beta, bm, axis=ax), [2 * m * np.pi / beta for m in range(-nv, nv + 1)], 'wn-mat', 'freqs', rtol=1e-13)
    # objects that hold the non-negative frequencies only, and shifted grids
    np_f, np_b = shf[ax], shb[ax]
    for s in (0, shift):
        ctx.equal(mf.vn(fm, axis=ax, shift=s, pos=True), range(s, np_f + s), 'vn-mat', 'grid of a positive object')
        ctx.equal(mf.wn(bm, axis=ax, shift=s, pos=True), range(s, np_b + s), 'wn-mat', 'grid of a positive object')
        ctx.close(mf.vn(beta, fm, axis=ax, shift=s, pos=True), [(2 * m + 1) * np.pi / beta for m in range(s, np_f + s)], 'vn-mat', 'positive freqs', rtol=1e-13)
        ctx.close(mf.wn(beta, bm, axis=ax, shift=s, pos=True), [2 * m * np.pi / beta for m in range(s, np_b + s)], 'wn-mat', 'positive freqs', rtol=1e-13)
        ctx.equal(mf.vn(fm, axis=ax, shift=s), range(-nv + s, nv + s), 'vn-mat', 'shifted grid of an object')
        ctx.equal(mf.wn(bm, axis=ax, shift=s), range(-nv + s, nv + s + 1), 'wn-mat', 'shifted grid of an object')
    ctx.equal(mf.niv_from_mat(fm, axis=ax), nv, 'niv', 'box size')
    ctx.equal(mf.niw_from_mat(bm, axis=ax), nv, 'niw', 'box size')
    ctx.equal(mf.niv_from_mat(fm, axis=ax, pos=True), 2 * nv, 'niv', 'box size pos')
    ctx.equal(mf.niw_from_mat(bm, axis=ax, pos=True), 2 * nv, 'niw', 'box size pos')
    # default axes: last axis for fermions, first for bosons
    ctx.equal(mf.vn(np.zeros((3, 2 * nv))), range(-nv, nv), 'vn-mat', 'default axis')
    ctx.equal(mf.wn(np.zeros((2 * nv + 1, 4))), range(-nv, nv + 1), 'wn-mat', 'default axis')
    ctx.saw('grids', 24)


def sc_cut(ctx, rng, i):
    ndim = int(rng.integers(1, 5))
    niv = int(rng.integers(1, 7))
    axes = pick_axes(rng, ndim)
    cut = int(rng.integers(1, niv + 1)) if i % 5 else -1
    sgn = bool(rng.integers(0, 2))
    ctx.describe(ndim=ndim, niv=niv, axes=axes, cut=cut, neg=sgn, nontrivial=cut not in (-1, niv))
    call_axes = tuple(a - ndim if sgn else a for a in axes)
    if len(call_axes) == 1 and rng.integers(0, 2):
        call_f = call_axes[0]
    else:
        call_f = call_axes
    lab, sh = labels(rng, niv, ndim, axes)
    c = niv if cut == -1 else cut
    ref = expect(sh, ndim, axes, [range(-c, c)] * len(axes))
    src = lab.copy()
    ctx.equal(mf.cut_v(lab, niv_cut=cut, axes=call_f), ref, 'cut_v', 'centred fermionic window')
    ctx.equal(lab, src, 'cut-aliasing', 'input of a window operation was modified')
    # cutting is consistent: cut(cut(m, a), b) == cut(m, b)
    if cut > 1:
        b = int(rng.integers(1, cut + 1))
        ctx.equal(mf.cut_v(mf.cut_v(lab, cut, call_axes), b, call_axes), mf.cut_v(lab, b, call_axes), 'cut_v', 'nesting')
    lab, sh = labels(rng, niv, ndim, axes, bos=True)
    cw = int(rng.integers(0, niv + 1))
    ref = expect(sh, ndim, axes, [range(-cw, cw + 1)] * len(axes))
    ctx.equal(mf.cut_w(lab, niw_cut=cw, axes=call_axes), ref, 'cut_w', 'centred bosonic window')
    # the zeroth and n-th bosonic frequency
    ax = axes[0]
    lab, sh = labels(rng, niv, ndim, [ax], bos=True)
    ctx.equal(mf.mat_at_w0(lab, axis=ax), np.take(expect(sh, ndim, [ax], [[0]]), 0, axis=ax), 'mat_at_w0')
    iwn = int(rng.integers(-niv, niv + 1))
    ctx.equal(mf.get_mat_at_iwn(lab, iwn, axis=ax), np.take(expect(sh, ndim, [ax], [[iwn]]), 0, axis=ax), 'mat_at_iwn')
    posw = np.take(lab, range(niv, 2 * niv + 1), axis=ax)
    ctx.equal(mf.mat_at_w0(posw, axis=ax, pos=True), np.take(expect(sh, ndim, [ax], [[0]]), 0, axis=ax), 'mat_at_w0')
    ctx.equal(mf.get_mat_at_iwn(posw, abs(iwn), axis=ax, pos=True), np.take(expect(sh, ndim, [ax], [[abs(iwn)]]), 0, axis=ax),
              'mat_at_iwn')
    ctx.equal(mf.cut_v_1d_pos(np.arange(-niv, niv), niv_cut=c), range(0, c), 'cut_v_1d_pos')
    m = int(rng.integers(0, niv))
    ctx.equal(mf.cut_v_1d_pos(np.arange(-niv, niv), niv_cut=niv - m, niv_min=m), range(m, niv), 'cut_v_1d_pos', 'offset')
    ctx.equal(mf.clip_pos_mf_vn(np.stack([np.arange(-niv, niv)] * 2)), np.stack([np.arange(0, niv)] * 2), 'clip_pos')
    ctx.saw('windows', 8)


def sc_shell(ctx, rng, i):
    ndim = int(rng.integers(1, 4))
    niv = int(rng.integers(2, 8))
    core = int(rng.integers(0, niv))
    shell = int(rng.integers(1, niv - core + 1))
    allrest = i % 3 == 0
    axes = pick_axes(rng, ndim)
    ctx.describe(ndim=ndim, niv=niv, core=core, shell=shell, axes=axes, allrest=allrest)
    lab, sh = labels(rng, niv, ndim, axes)
    s = niv - core if allrest else shell
    rg = list(range(-core - s, -core)) + list(range(core, core + s))
    ref = expect(sh, ndim, axes, [rg] * len(axes))
    got = mf.inv_cut_v(lab, niv_core=core, niv_shell=-1 if allrest else shell, axes=tuple(axes))
    ctx.equal(got, ref, 'inv_cut_v', 'everything outside the core window')
    # core + shell put together again is the original (last axis = frequency)
    full, shf = labels(rng, niv, ndim, [ndim - 1])
    if core > 0:
        sh_part = mf.inv_cut_v(full, niv_core=core, niv_shell=niv - core, axes=(-1,))
        co_part = mf.cut_v(full, core, axes=(-1,))
        ctx.equal(mf.concatenate_core_asmypt(co_part, sh_part), full, 'concatenate', 'core and shell do not rejoin')
        ctx.true(sh_part.shape[-1] + co_part.shape[-1] == full.shape[-1], 'partition', 'core/shell sizes')
    # v,v' shell padding
    nv, nsh = int(rng.integers(1, 5)), int(rng.integers(0, 4))
    m = rng.normal(size=(2, 2 * nv, 2 * nv)) + 1j * rng.normal(size=(2, 2 * nv, 2 * nv))
    val = float(rng.normal()) + (1j * float(rng.normal()) if i % 2 else 0)
    p = mf.append_v_vp_shell(m, val, niv_shell=nsh)
    ref = np.full((2, 2 * (nv + nsh), 2 * (nv + nsh)), val, dtype=complex)
    for a in range(-nv, nv):
        for b in range(-nv, nv):
            ref[:, nv + nsh + a, nv + nsh + b] = m[:, nv + a, nv + b]
    ctx.equal(p, ref, 'append_shell', 'padding of a vertex with its asymptote')
    ctx.equal(mf.cut_v(p, nv, axes=(-2, -1)), m, 'append_shell', 'cut does not undo padding')
    # empty windows: nothing is selected, nothing is added
    ctx.equal(mf.concatenate_core_asmypt(full, full[..., :0]), full, 'concatenate', 'no shell at all')
    ctx.equal(mf.concatenate_core_asmypt(full[..., :0], full), full, 'concatenate', 'no core at all')
    ctx.true(mf.cut_v(np.arange(2 * niv), 0).size == 0, 'cut_v', 'a window of no frequency')
    ctx.true(mf.inv_cut_v_1d(np.arange(2 * niv), core, 0).size == 0, 'inv_cut_v', 'a shell of no frequency')
    ctx.true(mf.cut_v_1d_pos(np.arange(2 * niv), 0, core).size == 0, 'cut_v_1d_pos', 'a window of no frequency')
    ctx.saw('windows', 4)


def sc_shift(ctx, rng, i):
    """G(v-w) slices: entry (w, v) must hold frequency v-w"""
    ndim = int(rng.integers(1, 5))
    niw = int(rng.integers(0, 5))
    ncore = int(rng.integers(1, 6))
    nshell = int(rng.integers(1, 4))
    niv = ncore + nshell + niw + int(rng.integers(0, 4))
    lab, sh = labels(rng, niv, ndim, [ndim - 1])
    w = list(range(-niw, niw + 1)) if i % 2 else [int(x) for x in rng.integers(-niw, niw + 1, size=3)]
    ctx.describe(ndim=ndim, niw=niw, ncore=ncore, nshell=nshell, niv=niv, w=w, nontrivial=niw > 0)
    got = mf.wn_slices_gen(lab, n_cut=ncore, w=w)
    ref = np.array([expect(sh, ndim, [ndim - 1], [[v - wi for v in range(-ncore, ncore)]]) for wi in w])
    ctx.equal(got, ref, 'wn_slices_gen', 'G(v-w) core slices')
    got = mf.wn_slices_shell(lab, n_shell=nshell, n_core=ncore, w=w)
    vs = list(range(-ncore - nshell, -ncore)) + list(range(ncore, ncore + nshell))
    ref = np.array([expect(sh, ndim, [ndim - 1], [[v - wi for v in vs]]) for wi in w])
    ctx.equal(got, ref, 'wn_slices_shell', 'G(v-w) shell slices')
    for wi in w:
        axes = pick_axes(rng, ndim)
        lab2, sh2 = labels(rng, niv, ndim, axes)
        cut = ncore if rng.integers(0, 2) else -1
        c = niv - abs(wi) if cut == -1 else cut
        got = mf.cut_iv_with_iw_shift(lab2, niv_cut=cut, iwn=wi, axes=tuple(axes))
        ref = expect(sh2, ndim, axes, [[v - wi for v in range(-c, c)]] * len(axes))
        ctx.equal(got, ref, 'cut_iv_shift', f'window centred at -{wi}')
        for note, f in (('plus', lambda v, w_: (v, v + w_)), ('minus', lambda v, w_: (v, v - w_)),
                        ('center', lambda v, w_: (v + w_ // 2, v - w_ // 2 - w_ % 2))):
            s1, s2 = mf.get_freq_shift(wi, note)
            v = int(rng.integers(-5, 5))
            ctx.true((v + s1, v + s2) == f(v, wi), 'freq_shift', f'{note} w={wi}: {s1},{s2}')
            ctx.true(abs(s1 - s2) == abs(wi), 'freq_shift', f'{note}: legs must differ by the transfer frequency')
    ctx.raises(lambda: mf.get_freq_shift(1, 'centre'), 'freq_shift-unknown', 'unknown frequency notation',
               (NotImplementedError, ValueError, KeyError, AssertionError))
    ctx.saw('shifted_windows', len(w) + 2)


def sc_conj(ctx, rng, i):
    """reconstruction of the full range from non-negative frequencies"""
    ndim = int(rng.integers(1, 4))
    ax = int(rng.integers(0, ndim))
    niv = int(rng.integers(1, 8)) if i % 5 else 0
    shape = [int(rng.integers(1, 4)) for _ in range(ndim)]
    ctx.describe(ndim=ndim, ax=ax, niv=niv, shape=shape)
    shape[ax] = niv
    pos = rng.normal(size=shape) + 1j * rng.normal(size=shape)
    neg_ax = ax - ndim if i % 2 else ax
    full = mf.fermionic_full_nu_range(pos, axis=neg_ax)
    ctx.equal(mf.niw_from_mat(pos, axis=ax, pos=True), niv - 1, 'niw', 'box size of positive frequencies')
    ctx.true(full.shape[ax] == 2 * niv, 'fermionic_full', 'size')
    for n in range(niv):
        ctx.equal(np.take(full, niv + n, axis=ax), np.take(pos, n, axis=ax), 'fermionic_full', f'positive part n={n}')
        ctx.equal(np.take(full, niv - 1 - n, axis=ax), np.conj(np.take(pos, n, axis=ax)), 'fermionic_full',
                  f'G(-v)=conj G(v) at n={n}')
    shape[ax] = niv + 1
    pos = rng.normal(size=shape) + 1j * rng.normal(size=shape)
    full = mf.bosonic_full_nu_range(pos, axis=neg_ax)
    ctx.true(full.shape[ax] == 2 * niv + 1, 'bosonic_full', 'size')
    for n in range(niv + 1):
        ctx.equal(np.take(full, niv + n, axis=ax), np.take(pos, n, axis=ax), 'bosonic_full', f'positive part n={n}')
        if n > 0:
            ctx.equal(np.take(full, niv - n, axis=ax), np.conj(np.take(pos, n, axis=ax)), 'bosonic_full', f'chi(-w)=conj at {n}')
    # object with a bosonic and a fermionic axis: X(-w,-v) = conj X(w,v)
    nv = int(rng.integers(1, 5))
    pos = rng.normal(size=(2, niv + 1, 2 * nv)) + 1j * rng.normal(size=(2, niv + 1, 2 * nv))
    full = mf.bosonic_full_nu_range(pos, axis=1, freq_axes=(1, 2))
    for n in range(niv + 1):
        ctx.equal(full[:, niv + n], pos[:, n], 'bosonic_full', 'positive part')
        if n:
            ctx.equal(full[:, niv - n], np.conj(pos[:, n, ::-1]), 'bosonic_full', 'X(-w,-v)=conj X(w,v)')
    ctx.saw('reconstructions', 3)


def sc_sums(ctx, rng, i):
    beta = float(rng.uniform(1, 40))
    niv, niw = int(rng.integers(4, 9)), int(rng.integers(0, 4))
    ctx.describe(niv=niv, niw=niw, beta=round(beta, 2))
    mat = rng.normal(size=(3, 2 * niw + 1, 2 * niv, 2 * niv)) + 1j * rng.normal(size=(3, 2 * niw + 1, 2 * niv, 2 * niv))
    w = np.arange(-niw, niw + 1)
    tot = np.zeros((3, 2 * niw + 1), dtype=complex)
    for a in range(3):
        for j in range(2 * niw + 1):
            tot[a, j] = sum(mat[a, j].ravel()) / beta ** 2
    ctx.close(mf.vn_centered_sum(mat, w, beta, niv_sum=0), 0 * tot, 'vn_sum', 'window of no frequency')
    ctx.close(mf.vn_centered_sum(mat, w, beta), tot, 'vn_sum', 'sum over both fermionic frequencies', rtol=1e-11)
    ns = niv - 2
    ref = np.zeros_like(tot)
    for j, wi in enumerate(w):
        for v in range(-ns, ns):
            for vp in range(-ns, ns):
                ref[:, j] += mat[:, j, niv + v + wi // 2, niv + vp + wi // 2]
    ctx.close(mf.vn_centered_sum(mat, w, beta, niv_sum=ns), ref / beta ** 2, 'vn_sum', 'centred sum', rtol=1e-11)
    ax0 = rng.normal(size=(2 * niw + 1, 3)) + 0j
    ctx.close(mf.wn_sum(ax0, beta), ax0.sum(0) / beta, 'wn_sum', rtol=1e-11)
    c = int(rng.integers(0, niw + 1))
    ctx.close(mf.wn_sum(ax0, beta, niw_sum=c), sum(ax0[niw + k] for k in range(-c, c + 1)) / beta, 'wn_sum', 'window', rtol=1e-11)
    # sum of bosonic objects of different box size along any axis
    n1, n2 = int(rng.integers(0, 6)), int(rng.integers(0, 6))
    ax = i % 3
    s1, s2 = [2, 3, 4], [2, 3, 4]
    s1[ax], s2[ax] = 2 * n1 + 1, 2 * n2 + 1
    m1, m2 = rng.normal(size=s1), rng.normal(size=s2)
    c1, c2 = m1.copy(), m2.copy()
    r = mf.add_bosonic(m1, m2, axis=ax)
    n = max(n1, n2)
    sr = list(s1)
    sr[ax] = 2 * n + 1
    ref = np.zeros(sr)
    for k in range(-n, n + 1):
        sl = [slice(None)] * 3
        sl[ax] = n + k
        if abs(k) <= n1:
            ref[tuple(sl)] += np.take(m1, n1 + k, axis=ax)
        if abs(k) <= n2:
            ref[tuple(sl)] += np.take(m2, n2 + k, axis=ax)
    ctx.close(r, ref, 'add_bosonic', f'sum of bosonic objects niw={n1},{n2} axis={ax}', rtol=1e-12)
    ctx.equal(m1, c1, 'add_bosonic-alias', 'summand modified')
    ctx.equal(m2, c2, 'add_bosonic-alias', 'summand modified')
    # w -> v-v'
    nw = int(rng.integers(2, 8))
    x = rng.normal(size=(2 * nw + 1, 2)) + 1j
    y = mf.w_to_vmvp(x)
    nv = nw // 2
    ctx.true(y.shape == (2 * nv, 2 * nv, 2), 'w_to_vmvp', f'shape {y.shape}')
    for a in range(-nv, nv):
        for b in range(-nv, nv):
            ctx.equal(y[nv + a, nv + b], x[nw + a - b], 'w_to_vmvp', f'entry v={a} vp={b}')
    ctx.saw('sums', 5)


REPORTED = (AssertionError, ValueError, IndexError)


def sc_exceed(ctx, rng, i):
    """a window that reaches beyond the stored grid cannot be answered: it is reported, never filled with other entries;
    the largest window that does fit is answered"""
    ndim = int(rng.integers(1, 4))
    niv = int(rng.integers(1, 8))
    over = int(rng.integers(1, 2 * niv + 3))
    ax = int(rng.integers(0, ndim))
    core = int(rng.integers(0, niv + 1))
    iw = int(rng.integers(-niv, niv + 1))
    ctx.describe(ndim=ndim, niv=niv, over=over, ax=ax, core=core, iw=iw)
    lab, sh = labels(rng, niv, ndim, [ax])
    labw, shw = labels(rng, niv, ndim, [ax], bos=True)
    last, shl = labels(rng, niv, ndim, [ndim - 1])
    first, shf = labels(rng, niv, ndim, [0], bos=True)
    one = np.arange(-niv, niv)
    c = niv + over

    def rep(name, f):
        ctx.raises(f, name, f'a request beyond the stored grid (niv={niv}, over={over}) was answered', REPORTED)

    rep('cut_v-exceed', lambda: mf.cut_v(lab, niv_cut=c, axes=(ax,)))
    rep('cut_w-exceed', lambda: mf.cut_w(labw, niw_cut=c, axes=(ax,)))
    rep('cut_pos-exceed', lambda: mf.cut_v_1d_pos(one, niv_cut=c))
    rep('inv_cut-exceed', lambda: mf.inv_cut_v(lab, niv_core=core, niv_shell=niv - core + over, axes=(ax,)))
    ctx.equal(mf.cut_v(lab, niv_cut=niv, axes=(ax,)), lab, 'cut_v-largest', 'the full window')
    ctx.equal(mf.cut_w(labw, niw_cut=niv, axes=(ax,)), labw, 'cut_w-largest', 'the full window')
    # an offset or a shift uses up part of the grid
    m = int(rng.integers(0, niv + 1))
    rep('cut_pos-exceed', lambda: mf.cut_v_1d_pos(one, niv_cut=niv - m + over, niv_min=m))
    ctx.equal(mf.cut_v_1d_pos(one, niv_cut=niv - m, niv_min=m), range(m, niv), 'cut_pos-largest')
    ctx.equal(mf.cut_v_1d_pos(one, niv_cut=-1, niv_min=m), range(m, niv), 'cut_pos-largest', 'all that is left')
    room = niv - abs(iw)
    rep('shift-exceed', lambda: mf.cut_iv_with_iw_shift(lab, niv_cut=room + over, iwn=iw, axes=(ax,)))
    rep('slices-exceed', lambda: mf.wn_slices_gen(last, n_cut=room + over, w=[iw]))
    rep('slices-exceed', lambda: mf.wn_slices_gen(last, n_cut=room + over, w=np.arange(-abs(iw), abs(iw) + 1)))
    rep('slices-shell-exceed', lambda: mf.wn_slices_shell(last, n_shell=max(room - core, 0) + over, n_core=min(core, room), w=[iw])
        if room > core else mf.wn_slices_shell(last, n_shell=over, n_core=room, w=[iw]))
    if room:
        ctx.equal(mf.wn_slices_gen(last, n_cut=room, w=[iw])[0],
                  expect(shl, ndim, [ndim - 1], [[v - iw for v in range(-room, room)]]), 'slices-largest')
        ctx.equal(mf.cut_iv_with_iw_shift(lab, niv_cut=room, iwn=iw, axes=(ax,)),
                  expect(sh, ndim, [ax], [[v - iw for v in range(-room, room)]]), 'shift-largest')
    # windowed sums
    beta = float(rng.uniform(1, 10))
    rep('wn_sum-exceed', lambda: mf.wn_sum(first, beta, niw_sum=c))
    ctx.close(mf.wn_sum(first, beta, niw_sum=niv), first.sum(0) / beta, 'wn_sum-largest', rtol=1e-12)
    w = np.array([-1, 0, 1]) * abs(iw)
    mat = rng.normal(size=(3, 2 * niv, 2 * niv))
    fits = niv - (abs(iw) + 1) // 2
    rep('vn_sum-exceed', lambda: mf.vn_centered_sum(mat, w, beta, niv_sum=fits + over))
    if fits:
        ref = [mat[j, niv - fits + x // 2:niv + fits + x // 2, niv - fits + x // 2:niv + fits + x // 2].sum() for j, x in enumerate(w)]
        ctx.close(mf.vn_centered_sum(mat, w, beta, niv_sum=fits), np.array(ref) / beta ** 2, 'vn_sum-largest', rtol=1e-11, atol=1e-12)
    ctx.saw('oversized_requests', 10)


SCENARIOS = [('exceed', sc_exceed, 800, 2500), ('grids', sc_grids, 480, 1500), ('cut', sc_cut, 1200, 4000), ('shell', sc_shell, 960, 3000),
             ('shift', sc_shift, 960, 3000), ('conj', sc_conj, 640, 2000), ('sums', sc_sums, 640, 2000)]

"""C20: a whole DGA run (production entry point under mpirun) against an independent recomputation."""
import glob
import os
from concurrent.futures import ThreadPoolExecutor

import numpy as np
from ruamel.yaml import YAML
from scipy.optimize import curve_fit

from harness.core import Violation
from harness.dga_ref import Spec, reference
from harness.env import scratch
from harness.mpi import run_ranks
from harness.props.C14 import fbz_map
from harness.props.C15 import herm, pp_reference
from harness.props.C17 import dense
from harness.props.C18 import velocity, vert_ref
from harness.props import C28

RULE = ('each case builds one physical DMFT input (causal self-energy, vertex from a random irreducible one plus noise, on-disk '
        'box larger than the used one) and starts the production main program several times on it under mpirun with different '
        'rank counts, symmetry settings and optional outputs; every saved file is compared with an explicit recomputation on '
        'the full momentum mesh and with the other runs. Non-trivial: a run with more than one rank')

SYMS = {'square': ('two_dimensional_square', 6), 'inv': ('quasi_one_dimensional_square', 9), 'xyinv': ('simultaneous_x_y_inversion', 10), 'none': ('none', 16)}


def conf_of(s, o):
    c = {'box_sizes': {'niw_core': s.niw, 'niv_core': s.niv, 'niv_shell': s.shell},
         'lattice': {'symmetries': SYMS[o['sym']][0], 'type': 't_tp_tpp', 'hr_input': s.hop, 'nk': list(s.nk)},
         'dga': {'lambda_corr': o['lam']},
         'dmft_input': {'type': o.get('type', 'default'), 'fname_1p': 'in.npy', 'fname_2p': 'x', 'do_sym_v_vp': o['vvp']},
         'output': {'verbosity': o['verbosity'], 'save_vrg': o['extra'], 'save_fq': o['extra'], 'keep_pairing_vertex': o['keep_pp']}}
    if s.nq != s.nk:
        c['lattice']['nq'] = list(s.nq)
    if o['infer']:
        c['box_sizes'] = {'niv_shell': s.shell}
    if o['keep']:
        c['debug'] = {'keep_rank_files': True}
    if o['extra']:
        c['pairing'] = {'do_pairing_vertex': s.nq == s.nk, 'do_eliash': s.nq == s.nk, 'n_eig': 1, 'k_sym': 'random', 'eps': 1e-11, 'max_count': 6000}
        c['optics'] = {'do_bubble': o['bubble'], 'do_vertex': True, 'niw_cond': o['cond'], 'der_a': o['der'][0], 'der_b': o['der'][1]}
        if o['niw_vert'] >= 0:
            c['optics']['niw_vert'] = o['niw_vert']
        c['poly_fitting'] = {'n_fit': o['n_fit'], 'o_fit': o['o_fit']}
        c['output']['keep_fq_optics'] = o.get('keep_fq', True)
    elif o['section']:
        c['optics'] = {'do_bubble': False, 'do_vertex': False, 'der_a': 0, 'der_b': 0, 'niw_cond': -1, 'niw_vert': -1, 'niv_bubble': -1}
        c['pairing'] = {'do_eliash': False, 'do_pairing_vertex': False}
    return c


def run(s, o, ranks, seed, path, figures=False):
    """one run in its own copy of the input folder -> everything it left behind"""
    os.makedirs(path, exist_ok=True)
    if not os.path.exists(path + 'in.npy'):
        np.save(path + 'in.npy', s.dmft_dict(), allow_pickle=True)
    c = conf_of(s, o)
    c['dmft_input']['input_path'] = path
    with open(path + 'dga_config.yaml', 'w') as fh:
        YAML().dump(c, fh)
    before = set(os.listdir(path))
    run_ranks(ranks, ['-m', 'harness.dga_worker', path, str(seed)] + (['figures'] if figures else []), path, 250)
    new = sorted(x for x in set(os.listdir(path)) - before if not x.startswith('error_'))
    if len(new) != 1:
        raise Violation('folder', f'a run has to create exactly one output folder, got {new}')
    return dict(load(path + new[0] + '/'), asked=c)


def load(base):
    out = {'base': base, 'files': set()}
    for root, _, files in os.walk(base):
        for f in files:
            rel = os.path.relpath(os.path.join(root, f), base)
            out['files'].add(rel)
            if f.endswith('.npy'):
                x = np.load(os.path.join(root, f), allow_pickle=True)
                out[rel] = x.item() if x.dtype == object and x.ndim == 0 else x
            elif f.endswith('.txt'):
                out[rel] = np.loadtxt(os.path.join(root, f), delimiter=',' if f in ('eigenvalues.txt', 'eigenvalues_s.txt', 'oz_coeff.txt') else None)
            elif f == 'dga_config.yaml' and root.rstrip('/') == base.rstrip('/'):
                out['yaml'] = YAML(typ='safe').load(open(os.path.join(root, f)))
            elif f == 'wannier_hr.dat':
                out['hr'] = open(os.path.join(root, f)).read()
    return out


def dispersion_of(text, nk):
    """one-band dispersion of a stored real-space Hamiltonian (w2k format), from its text alone"""
    lines = text.splitlines()[1:]
    n = int(lines[1])
    rest = ' '.join(lines[2:]).split()
    w, rows = np.array(rest[:n], dtype=float), np.array(rest[n:], dtype=float).reshape(n, 7)
    k = np.meshgrid(*(2 * np.pi * np.arange(m) / m for m in nk), indexing='ij')
    return sum((x[5] + 1j * x[6]) / d * np.exp(1j * sum(a * b for a, b in zip(k, x[:3]))) for d, x in zip(w, rows)), n


def snapshot(base):
    d = {}
    for root, _, files in os.walk(base):
        for f in files:
            p = os.path.join(root, f)
            d[p] = (os.path.getmtime(p), open(p, 'rb').read())
    return d


def options(rng, i, s, extra):
    return dict(sym='square', lam=('spch', 'sp', 'none')[i % 3] if not extra else ('spch', 'none')[i % 2], vvp=i % 5 != 4, verbosity=1,
                extra=extra, infer=i % 4 == 3 and s.big_v == 0 and s.big_w == 0, keep=bool(rng.integers(0, 2)), keep_pp=True,
                cond=int(rng.integers(1, max(2, s.niv // 2 + 1))), der=[int(x) for x in rng.integers(0, 2, size=2)], bubble=True, section=i % 2 == 1,
                niw_vert=int(rng.integers(-1, s.niw + 1)), n_fit=int(rng.integers(3, 5)), o_fit=int(rng.integers(1, 3)))


def audit_base(ctx, r, ref, s, o, where):
    """files every run writes, against the recomputation"""
    tol = 1e-10 * min(ref['cond'], 1e5) + 1e-9
    n = 0

    def cmp(name, b, key, t=tol, **kw):
        nonlocal n
        ctx.true(name in r, 'missing', f'{where}: {name} was not written; there is {sorted(r["files"])}')
        ctx.close(r[name], b, key, f'{where}: {name}', rtol=t, **kw)
        n += np.size(b)
    for c in ('dens', 'magn'):
        cmp(f'chi_{c}_lam.npy', ref['chi_lam'][c], 'chi')
        if o['verbosity'] > 0:
            cmp(f'gamma_{c}.npy', ref[f'gamma_{c}'], 'gamma')
            cmp(f'chi_{c}_loc.npy', ref[f'chi_{c}_loc'], 'chi-loc')
    if o['verbosity'] > 0:
        cmp('siw_sde_full.npy', ref['siw_sde_full'], 'sde-loc')
    cmp('siwk_dga.npy', ref['siwk_dga'], 'sigma')
    cmp('giwk_dga.npy', ref['giwk_dga'], 'green')
    if o['lam'] != 'none':
        cmp('lambda.txt', [ref['lambda']['dens'], ref['lambda']['magn']], 'lambda', t=tol, atol=6e-7)
    cmp('mu.txt', [ref['mu'], s.mu], 'mu', atol=2e-6)
    cmp('energies.txt', ref['energies'], 'energies', atol=1e-6)
    cmp('UniformStaticSusceptibility.txt', ref['uniform'], 'uniform', atol=1e-6)
    ctx.true('yaml' in r and 'hr' in r, 'run-input', f'{where}: no copy of the configuration or the Hamiltonian in the output')
    ctx.true(r['yaml'] == r['asked'], 'run-input', f'{where}: stored configuration {r["yaml"]} instead of {r["asked"]}')
    ek, nr = dispersion_of(r['hr'], s.nk)
    ctx.close(ek, s.ek, 'run-input', f'{where}: stored Hamiltonian', rtol=0, atol=6e-7 * nr)
    ctx.true('oz_coeff.txt' in r, 'oz', f'{where}: no correlation length was written')
    chi = ref['chi_lam']['magn']
    try:
        curve_fit(lambda q, a, xi: a / (xi ** -2 + q), ((np.array(s.q_mesh()) - np.pi * np.array([1, 1, 0])[:, None]) ** 2).sum(0),
                  chi[..., chi.shape[-1] // 2].real.ravel(), p0=(chi[..., chi.shape[-1] // 2].real.max(), 2.))
        fits = True
    except (RuntimeError, ValueError):
        fits = False
    ctx.true(not fits or not np.all(r['oz_coeff.txt'] == -1), 'oz', f'{where}: no correlation length though the data can be fitted')
    if not np.all(r['oz_coeff.txt'] == -1):
        chi = ref['chi_lam']['magn']
        C28.least_squares(ctx, chi[..., chi.shape[-1] // 2].real, r['oz_coeff.txt'], f'{where}: correlation length')
        ctx.saw('correlation_lengths')
    d = r['dmft_input.npy']
    for k in ('n', 'beta', 'u', 'mu_dmft'):
        ctx.equal(d[k], s.dmft_dict()[k], 'input-copy', f'{where}: {k} of the stored input')
    for k in ('giw', 'siw'):
        ctx.equal(d[k], s.dmft_dict()[k], 'input-copy', f'{where}: {k} of the stored input')
    for c in ('dens', 'magn'):
        g = s.gam[c][s.big_w:s.gam[c].shape[0] - s.big_w, s.big_v:s.gam[c].shape[1] - s.big_v, s.big_v:s.gam[c].shape[1] - s.big_v]
        if o['vvp']:
            g = .5 * (g + g.transpose(0, 2, 1))
        ctx.close(d[f'g4iw_{c}'], g, 'input-copy', f'{where}: vertex of the stored input', rtol=1e-12)
    left = [f for f in r['files'] if 'Rank' in f]
    if not o['keep']:
        ctx.true(not left, 'rank-files', f'{where}: per-rank files left behind: {left}')
    ctx.saw('values_compared', n)


def audit_pairing(ctx, r, ref, s, o, parts, where):
    tol = 1e-9 * min(ref['cond'], 1e5) + 1e-8
    nk, u = s.nk, s.u
    npp = min(s.niw // 2, s.niv // 2)
    f = {}
    w = np.arange(-npp, npp)
    for c in ('dens', 'magn'):
        sg = {'dens': 1, 'magn': -1}[c]
        d1, d2 = (herm(pp_reference({c: parts[c][j]}, s.niw, s.niv, npp)[c]) for j in (0, 1))
        f[c] = d1 + (1 - sg * u * ref['chi_lam'][c][..., s.niw + w[:, None] - w[None, :]]) * d2
    pp = {'sing': 1.5 * f['magn'] - .5 * f['dens'], 'trip': .5 * f['magn'] + .5 * f['dens']}
    el = 'Eliashberg/'
    for c in pp:
        name = el + f'F_{c}_pp.npy'
        if o['keep_pp']:
            ctx.close(r[name], pp[c], 'pairing', f'{where}: pairing vertex {c}', rtol=tol)
        else:
            ctx.true(name not in r['files'], 'pairing-kept', f'{where}: {name} was to be removed')
    gk = ref['giwk_dga']
    N = gk.shape[-1] // 2
    gk = gk[..., N - npp:N + npp]
    res = r[el + 'eliashberg.npy']
    for c, sg in (('sing', 1), ('trip', -1)):
        gam = -pp[c]
        gam = .5 * (gam + sg * gam[..., ::-1])
        a, h, _ = dense(gam, gk, np.prod(nk) * s.beta)
        e = np.linalg.eigvals(a)
        scale = np.max(np.abs(e))
        e = e[np.argsort(-e.real)]
        # a vertex Hermitian up to Matsubara noise has an (almost) real spectrum; the power iteration returns the leading one
        lam, gap = complex(res[f'lambda_{c}'][0]), np.asarray(res[f'delta_{c}'][0]).reshape(-1)
        # symmetry-related gaps share the leading eigenvalue: the iteration converges to one vector of their space
        dom = e[np.argmax(np.abs(e))]
        ratio = 0
        for x in (e, e - min(dom.real, 0)):
            top = x[np.argmax(np.abs(x))]
            rest = np.abs(x[np.abs(x - top) > 1e-7 * scale])
            ratio = max(ratio, rest.max(initial=0) / max(abs(top), 1e-300))
        if ratio > .995 or scale < 1e-9:
            ctx.saw(f'eliashberg_slow_{c}')
            continue
        ctx.true(abs(lam - e[0]) < 1e-5 * scale + 1e-7, 'eliashberg', f'{where}: {c} eigenvalue {lam}, spectrum {e[:3]}')
        ctx.true(np.linalg.norm(a @ gap - lam * gap) < 2e-3 * scale * np.linalg.norm(gap), 'eliashberg', f'{where}: {c} gap is not an eigenvector')
        ctx.close(np.ravel(r[el + 'eigenvalues.txt'])[0 if c == 'sing' else 1], lam.real, 'eliashberg', 'printed eigenvalue', atol=1e-8)
        ctx.saw(f'eliashberg_pairs_{c}')


def audit_extra(ctx, r, ref, s, o, where):
    tol = 1e-9 * min(ref['cond'], 1e5) + 1e-8
    nk, nq, u = s.nk, s.nq, s.u
    from dga import brillouin_zone as bz
    from dga.config import LatticeConfig
    lat = LatticeConfig({'symmetries': SYMS[o['sym']][0], 'type': 't_tp_tpp', 'hr_input': s.hop, 'nk': nk, 'nq': nq})
    irr = [tuple(int(x) for x in q) for q in lat.q_grid.get_irrq_list()]
    flat = [int(np.ravel_multi_index(q, nq)) for q in irr]
    nw = 2 * s.niw + 1
    parts = {c: tuple(x.reshape(nq + x.shape[1:]) for x in ref['parts'][c]) for c in ('dens', 'magn')}
    full = {}
    for c in ('dens', 'magn'):
        sg = {'dens': 1, 'magn': -1}[c]
        full[c] = parts[c][0] + (1 - sg * u * ref['chi_lam'][c])[..., None, None] * parts[c][1]
        ctx.close(r[f'vrg_q_{c}.npy'], ref['V'][c][flat], 'vrg', f'{where}: three-leg vertex {c} on the irreducible momenta', rtol=tol)
        ctx.close(r[f'F_{c}.npy'], full[c], 'vertex', f'{where}: full vertex {c}', rtol=tol)
        ctx.saw('vertex_entries', full[c].size)
    if nq == nk:
        audit_pairing(ctx, r, ref, s, o, parts, where)
    # optics
    m = s.niv - o['cond']
    op = 'Optics/'
    if m > 0:
        fc = -.5 * full['dens'] - 1.5 * full['magn']
        nv = o['niw_vert'] if o['niw_vert'] >= 0 else s.niw
        wv = np.arange(-nv, nv + 1)
        wc = np.arange(0, o['cond'] + 1)
        sl = np.empty(nq + (len(wv), len(wc), 2 * m), dtype=complex)
        for j in range(len(wv)):
            for k in wc:
                for v in range(-m, m):
                    sl[..., j, k, m + v] = fc[..., s.niw + wv[j], s.niv + v, s.niv + v - k]
        if o.get('keep_fq', True):
            ctx.close(r[op + 'F_cond.npy'], sl, 'optics-vertex', f'{where}: current vertex', rtol=tol)
        else:
            ctx.true(op + 'F_cond.npy' not in r['files'], 'optics-kept', f'{where}: the current vertex was to be removed')
        va, vb = (velocity(lat.hr, nk, d) for d in o['der'])
        qs = s.shifts()
        G = ref['giwk_dga']
        N = G.shape[-1] // 2
        vert = vert_ref(G, va, vb, sl.reshape((-1,) + sl.shape[3:]), s.beta, qs, wv, wc, len(qs))
        vert = np.concatenate((np.conj(vert[1:][::-1]), vert))
        ctx.close(r[op + 'chijj_vert.npy'], vert, 'optics', f'{where}: vertex part of the conductivity', rtol=tol, atol=1e-12, scale=np.max(np.abs(vert)) + 1e-3)
        if o['bubble']:
            nb = r['niv_bubble']
            b = []
            for k in wc:
                b.append(-2 / s.beta * np.mean(va * vb * np.sum(G[..., N - nb:N + nb] * G[..., N - nb - k:N + nb - k], axis=-1)))
            b = np.array(b)
            b = np.concatenate((np.conj(b[1:][::-1]), b))
            ctx.close(r[op + 'chijj_bubble.npy'], b, 'optics', f'{where}: bubble part of the conductivity', rtol=tol, atol=1e-12, scale=np.max(np.abs(b)) + 1e-3)
        ctx.saw('conductivity_points', len(vert))
    # polynomial fits at the momenta they belong to
    sig, g = ref['siwk_dga'], ref['giwk_dga']
    for name, mat in (('Siwk_poly_cont_', sig), ('Giwk_dga_poly_cont_', g), ('Giwk_dmft_poly_cont_', ref['giwk_dmft'])):
        got = r[f'PolyFits/{name}.npy']
        h = mat.shape[-1] // 2
        x = (2 * np.arange(min(o['n_fit'], h)) + 1) * np.pi / s.beta
        y = mat[..., h:h + o['n_fit']]
        c0 = {}
        for key, data in (('re_fs', y.real), ('im_fs', -y.imag), ('slope', y.imag / x)):
            c0[key] = np.polyfit(x, data.reshape(-1, len(x)).T, o['o_fit'])[-1].reshape(nk)
        z = np.clip(1 / (1 - c0['slope']), 0, 1)
        z[z == 0] = 1
        sc = np.max(np.abs(y))
        ctx.close(got['re_fs'], c0['re_fs'], 'polyfit', f'{where}: {name} Re', rtol=1e-5, scale=sc)
        ctx.close(got['im_fs'], c0['im_fs'], 'polyfit', f'{where}: {name} Im', rtol=1e-5, scale=sc)
        near = np.abs(1 - c0['slope']) < 1e-3
        ctx.close(np.where(near, 0, got['Z']), np.where(near, 0, z), 'polyfit', f'{where}: {name} Z', atol=1e-4)


def add_derived(s, r):
    """quantities of the recomputation that only some audits need"""
    G = np.array(s.g.g_full())
    r['giwk_dmft'] = G
    nf = s.niv + s.shell
    N = G.shape[-1] // 2
    # bubble at q=0, w=0 beyond the box: free tail of the Green's function, sum over all remaining frequencies
    return r


def good_spec(rng, i, ctx, **kw):
    for _ in range(40):
        s = Spec(rng, i, ctx.thorough, **kw)
        yield s


def pick(rng, i, ctx, lam, vvp, **kw):
    """-> physical input whose recomputation is well conditioned, or None"""
    for s in good_spec(rng, i, ctx, **kw):
        try:
            ref = reference(s, lam, vvp)
        except (np.linalg.LinAlgError, AssertionError, ValueError):
            continue
        if ref is not None and ref['cond'] < 1e5 and np.isfinite(ref['cond']):
            return s, ref
    return None, None


def uniform(s, ref):
    """static uniform susceptibility: the saved one plus the tail of the bubble, summed explicitly with 1/(iv - mu0)"""
    from dga import bubble as bub
    b = bub.BubbleGenerator(wn=np.arange(-s.niw, s.niw + 1), giwk_obj=s.g, is_full_wn=True)
    t = b.get_asymptotic_correction_q(s.niv + s.shell, [(0, 0, 0)])[0, s.niw].real
    return [ref['chi_lam'][c][0, 0, 0, s.niw].real + t for c in ('dens', 'magn')]


def audit_all(ctx, runs, ref, s):
    for o, ranks, r in runs:
        where = f'{ranks} rank(s), symmetry {o["sym"]}'
        audit_base(ctx, r, ref, s, o, where)
        if o['extra']:
            audit_extra(ctx, r, ref, s, o, where)
        ctx.saw(f'runs_with_{ranks}_ranks')
    # identical physics for every number of ranks
    a = runs[0][2]
    for o, ranks, r in runs[1:]:
        for name in ('siwk_dga.npy', 'giwk_dga.npy', 'chi_dens_lam.npy', 'chi_magn_lam.npy'):
            ctx.close(r[name], a[name], 'ranks', f'{name} differs between 1 rank/{runs[0][0]["sym"]} and {ranks} ranks/{o["sym"]}', rtol=1e-9 * max(1, min(ref['cond'], 1e5) ** .5))


def niv_bubble(s, o):
    return s.niv + s.shell + 2 * s.niw - 2 * o['cond']


COARSE = (((8, 8, 1), (4, 4, 1)), ((8, 4, 1), (4, 4, 1)), ((12, 4, 1), (4, 4, 1)), ((8, 8, 1), (4, 8, 1)), ((10, 10, 1), (5, 5, 1)))


def sc_coarse(ctx, rng, i):
    """bosonic momenta on a coarser mesh than the fermionic ones"""
    k = int(rng.integers(0, len(COARSE))) if i else 1
    sc_runs(ctx, rng, i, meshes=COARSE[k], syms=list(SYMS) if COARSE[k][0][0] == COARSE[k][0][1] and COARSE[k][1][0] == COARSE[k][1][1] else ['inv', 'none'])


def sc_runs(ctx, rng, i, meshes=None, syms=tuple(SYMS)):
    extra = i % 2 == 0
    lam = ('spch', 'sp', 'none')[i % 3] if not extra else ('spch', 'none')[i // 2 % 2]
    vvp = extra or i % 4 != 3
    s, ref = pick(rng, i, ctx, lam, vvp, symmetric=True, meshes=meshes)
    if s is None:
        ctx.describe(nontrivial=False, skipped='no well conditioned input')
        ctx.true(True, 'skip')
        return
    base = options(rng, i, s, extra)
    base['lam'], base['vvp'], base['sym'] = lam, vvp, syms[0]
    ref = add_derived(s, ref)
    ref['uniform'] = uniform(s, ref)
    plans = [(dict(base), 1)]
    for _ in range(2 if not ctx.thorough else 4):
        o = dict(base)
        o['sym'] = str(rng.choice(syms))
        o['keep'] = bool(rng.integers(0, 2))
        o['bubble'] = bool(rng.integers(0, 3))
        o['section'] = bool(rng.integers(0, 2))
        o['keep_pp'] = bool(rng.integers(0, 2))
        o['keep_fq'] = o['keep'] != o['bubble']
        o['verbosity'] = int(rng.integers(0, 3))
        lim = 6 if o['sym'] == 'square' else 8
        plans.append((o, int(rng.integers(2, lim + 1))))
    figures = i == 0 and meshes is None
    ctx.describe(nontrivial=True, extra=extra, lam=lam, sym_v_vp=vvp, plans=[(o['sym'], k) for o, k in plans], cond=base['cond'],
                 niw_vert=base['niw_vert'], infer=base['infer'], figures=figures, **s.case())
    with scratch() as path:
        with ThreadPoolExecutor(3) as ex:
            jobs = [ex.submit(run, s, o, k, j, path + f'run{j}/', figures and j == 1) for j, (o, k) in enumerate(plans)]
            outs = [j.result() for j in jobs]
        for (o, _), r in zip(plans, outs):
            r['niv_bubble'] = niv_bubble(s, o)
        audit_all(ctx, [(o, k, r) for (o, k), r in zip(plans, outs)], ref, s)


def sc_limits(ctx, rng, i):
    """flat band: the local problem has to come back; repeated runs in the same folder keep the earlier results"""
    s, ref = pick(rng, i, ctx, 'none', True, flat=True)
    if s is None:
        ctx.describe(nontrivial=False, skipped='no well conditioned input')
        ctx.true(True, 'skip')
        return
    ref['uniform'] = uniform(s, ref)
    o = options(rng, 1, s, False)
    o['lam'], o['vvp'], o['infer'] = 'none', True, False
    ctx.describe(nontrivial=True, limit='atomic', ranks=(2, 3), **s.case())
    with scratch() as path:
        r1 = run(s, o, 2, 0, path)
        snap = snapshot(r1['base'])
        r2 = run(s, dict(o, sym='none', keep=False), 3, 1, path)
        after = snapshot(r1['base'])
        ctx.true(snap == after, 'overwritten', f'a second run in the same folder changed {[os.path.basename(p) for p in snap if after.get(p) != snap[p]]}')
        ctx.true(r1['base'] != r2['base'], 'overwritten', 'second run uses the same folder')
        for r, oo, k in ((r1, o, 2), (r2, dict(o, keep=False), 3)):
            audit_base(ctx, r, ref, s, oo, f'flat band, {k} ranks')
            M = len(s.siw) // 2
            nf = s.niv + s.shell
            x = r['siwk_dga.npy']
            loc = s.siw[M - s.niv:M + s.niv]
            ctx.close(x[..., s.shell:s.shell + 2 * s.niv], np.broadcast_to(loc, s.nk + loc.shape), 'atomic', 'without hopping the DGA self-energy is the DMFT one',
                      rtol=1e-9 * max(ref['cond'], 1) ** .5 + 1e-9)
            ctx.saw('flat_band_values', x.size)


SCENARIOS = [('runs', sc_runs, 6, 60), ('coarse', sc_coarse, 2, 14), ('limits', sc_limits, 1, 12)]

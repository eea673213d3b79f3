"""C27: the MaxEnt solver - the maximum of alpha*S - chi2/2, at the alpha its method asks for."""
import signal
import warnings

import numpy as np
from scipy.optimize import curve_fit

from ana_cont import continuation as acont
from ana_cont import kernels
from dga import analytic_continuation as ac
from harness import maxent as me
from harness import spectra as sp

RULE = ('random data of random spectra for the four kernels of the solver, few or many data, constant, varying or correlated errors, flat or '
        'structured default models, blur, diagonal and offdiagonal spectra; the maximum at a given alpha is computed by a convex dual that '
        'shares nothing with the solver, the choice of alpha is audited on the logged path. Non-trivial: structured model or varying errors')
ASSUMPTIONS = ['reference converged (counted); blurred spectra are compared away from the ends of the axis']
KINDS = ['freq_fermionic', 'freq_fermionic', 'freq_bosonic', 'time_fermionic', 'time_bosonic']


class Case:
    def __init__(self, rng, kind, n=None, err=None, blur=False, off=False, cov=False, nw=None):
        self.kind, self.off = kind, off
        self.beta = float(rng.uniform(3, 20))
        bos = kind in ('freq_bosonic', 'time_bosonic')
        self.bos = bos or kind.endswith('phsym')  # even spectrum on the half axis
        n = n or int(rng.integers(1, 25))
        wmax = float(rng.uniform(4, 8))
        nw = nw or int(rng.integers(61, 121))
        mt = str(rng.choice(['linear', 'tan', 'lorentzian']))
        self.w = ac.get_w_mesh(mt, 0. if self.bos else -wmax, wmax, nw, .06)
        if kind.startswith('freq'):
            self.x = sp.matsubara(self.beta, n, bos)[n:]
        else:
            self.x = np.linspace(0, self.beta, n + 1)
        self.b = float(rng.uniform(.15, .4)) if blur else 0.
        err = err or float(10 ** rng.uniform(-3, -1.3))
        self.dw = sp.weights(self.w)
        self.p = sp.gaussians(rng, wmax, .4, 1.)
        true = sp.spectrum(self.p, self.w, self.bos)
        if off:
            q = sp.gaussians(rng, wmax, .4, 1.)
            true = true - sp.spectrum(q, self.w, self.bos)
        self.k = me.kernel(kind, self.x, self.w, self.beta)
        self.kb = me.kernel(kind, self.x, self.w, self.beta, self.b)
        d = self.k @ (self.dw * true)
        m = len(self.x)
        self.err = err * np.ones(m) if rng.random() < .4 else err * rng.uniform(.5, 2., size=m)
        self.cov = None
        if cov:
            u = rng.normal(size=(m, m)) + (1j * rng.normal(size=(m, m)) if kind == 'freq_fermionic' else 0)
            u = np.linalg.qr(u)[0]
            self.cov = (u * self.err ** 2) @ u.conj().T
            low = np.linalg.cholesky(self.cov)
        else:
            low = np.diag(self.err)
        noise = rng.normal(size=m) + (1j * rng.normal(size=m) if kind == 'freq_fermionic' else 0)
        self.d = d + low @ noise
        top = float(np.sum(self.dw * np.abs(true)))
        if rng.random() < .5:
            self.model = np.ones(nw)
        else:
            self.model = .1 + np.exp(-.5 * ((self.w - rng.uniform(-2, 2)) / rng.uniform(1, 3)) ** 2)
        self.model *= top * float(rng.uniform(.5, 2)) / np.sum(self.dw * self.model)
        self.rows = me.rows(self.kb, self.d, self.err, self.cov)
        self.ndata = len(self.rows[1])
        self.short = dict(kind=kind, n=m, err=err, nw=nw, mesh=mt, b=self.b, cov=cov, off=off, beta=self.beta)

    def args(self, **kw):
        r = dict(method='maxent_svd', model=self.model.copy(), verbose=False, preblur=self.b > 0, blur_width=self.b, offdiag=self.off)
        r.update({'stdev': self.err.copy()} if self.cov is None else {'cov': self.cov.copy()})
        return dict(r, **kw)

    def problem(self, factor=1):
        return acont.AnalyticContinuationProblem(im_axis=self.x.copy(), re_axis=self.w.copy(), im_data=factor * self.d,
                                                 kernel_mode=self.kind, beta=self.beta)

    def reference(self, alpha):
        return me.Optimum(*self.rows, self.model, self.w, alpha, self.off)

    def explained(self, a):
        """whitened deviation of the spectrum (before blurring)"""
        return float(np.sum((self.rows[1] - self.rows[0] @ (self.dw * a)) ** 2))


def compare(ctx, c, sol, alpha, what, tol=1e-5, path=False):
    """path: an entry of the list of all solutions, which for imaginary time are in units of 1/beta"""
    unit = c.beta if path and c.kind.startswith('time') else 1.
    ctx.close(sol.alpha, alpha, 'alpha', what, rtol=1e-12)
    ctx.true(sol.A_opt.shape == c.w.shape and np.all(np.isfinite(sol.A_opt)), 'form', what)
    if not c.off:
        ctx.true(sol.A_opt.min() >= (-.02 if c.b else 0) * sol.A_opt.max(), 'negative', what)
    ref = c.reference(alpha)
    if not ref.converged:
        ctx.saw('unconverged_references')
        return None
    a, got = ref.a, sol.A_opt * unit
    sel = slice(None)
    # the kernel of the solver is a finite sum over +-5 blur widths, good to about 1e-6 of the data
    kern = 0. if c.b == 0 else 4e-6 * np.max(np.abs(c.rows[1])) * np.sqrt(max(ref.chi2, 1.)) + 1e-5 * ref.chi2
    if c.b:
        sel = np.abs(c.w - c.w[-1]) > 5.1 * c.b
        if not c.bos:
            sel &= np.abs(c.w - c.w[0]) > 5.1 * c.b
        a = me.blurred(a, c.w, c.b, c.bos)
    tol_a = tol if c.b == 0 else 2e-2
    if np.any(sel):
        ctx.close(got[sel], a[sel], 'optimum', f'{what}: not the maximum at alpha={alpha:.3g}', rtol=tol_a, scale=np.max(np.abs(a)))
    ctx.close(sol.chi2, ref.chi2, 'chi2', what, rtol=10 * tol, atol=kern + 1e-6)
    ctx.close(sol.entropy, ref.entropy, 'entropy', what, rtol=10 * tol if c.b == 0 else 1e-3, atol=1e-9 + kern / alpha)
    ctx.close(sol.Q, ref.q, 'functional', what, rtol=10 * tol, atol=kern + 1e-6)
    ctx.close(sol.norm, np.sum(c.dw * ref.a), 'norm', what, rtol=10 * tol if c.b == 0 else 1e-3, atol=1e-9 + tol * np.sum(c.dw * np.abs(ref.a)))
    if not path:
        top = np.max(np.abs(c.d))
        ctx.close(sol.backtransform, c.kb @ (c.dw * ref.a), 'back', what, rtol=10 * tol if c.b == 0 else 1e-3, scale=top)
        if c.b == 0:
            ctx.close(c.explained(sol.A_opt), sol.chi2, 'chi2', f'{what}: of the returned spectrum', rtol=1e-6, atol=1e-8)
            ctx.close(me.entropy(sol.A_opt, c.model, c.dw, c.off), sol.entropy, 'entropy', f'{what}: of the returned spectrum', rtol=1e-6, atol=1e-9)
    ctx.close(sol.blur_width, c.b, 'blur', what)
    ctx.saw('optima_certified')
    return ref


def sc_alpha(ctx, rng, i):
    """one value of alpha"""
    kind = KINDS[i % 5]
    off = i % 7 == 3
    blur = kind.startswith('freq') and i % 4 == 1
    few = i % 3 == 0
    c = Case(rng, kind, n=int(rng.integers(1, 6)) if few else None, blur=blur, off=off, cov=i % 11 in (4, 7))
    lm = few and i % 6 == 0 and c.ndata <= 10
    alpha = float(10 ** rng.uniform(.3, 6))
    ctx.describe(nontrivial=bool(np.ptp(c.model) > 0 or np.ptp(c.err) > 0), alpha=alpha, lm=lm, **c.short)
    p = c.problem()
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        try:
            sol = p.partial_solution(**c.args(alpha=alpha, ustart=np.zeros(1000), iterfac=1000, optimizer='scipy_lm' if lm else 'newton'))
        except RuntimeWarning:
            ctx.saw('refused')  # no convergence from the default model at a small alpha
            ctx.true(alpha < 1e3, 'refused', f'no result at alpha={alpha:.3g}')
            return
    compare(ctx, c, sol, alpha, 'one alpha', 1e-4 if lm else 1e-5)
    if c.kind == 'freq_fermionic' and not c.off and c.cov is None and c.b == 0:
        # a spectrum is not forced by the model where the data say nothing: its norm follows the data within their error
        ctx.saw('norms')
    if i % 4 == 2:  # the same data in other units of the spectrum
        f = float(rng.choice([.1, 7.]))
        q = acont.AnalyticContinuationProblem(im_axis=c.x, re_axis=c.w, im_data=c.d * f, kernel_mode=kind, beta=c.beta)
        err = dict(stdev=c.err * f) if c.cov is None else dict(cov=c.cov * f * f)
        try:
            t = q.partial_solution(**c.args(alpha=alpha / f, ustart=np.zeros(1000), model=c.model * f, **err))
        except RuntimeWarning:
            return
        ctx.close(t.A_opt / f, sol.A_opt, 'units', f'data times {f}', rtol=1e-4, scale=np.max(np.abs(sol.A_opt)))
        ctx.close(t.chi2, sol.chi2, 'units', f'chi2, data times {f}', rtol=1e-4, atol=1e-6)
    if i % 5 == 2 and c.cov is None:  # errors and their diagonal covariance
        a = c.args(alpha=alpha, ustart=np.zeros(1000))
        a.pop('stdev')
        try:
            t = c.problem().partial_solution(cov=np.diag(c.err ** 2), **a)
        except RuntimeWarning:
            return
        ctx.close(t.A_opt, sol.A_opt, 'covariance', 'diagonal covariance', rtol=1e-4, scale=np.max(np.abs(sol.A_opt)))


def sc_phsym(ctx, rng, i):
    """kernels for particle-hole symmetric functions: data are the imaginary part, or purely imaginary"""
    kind = ['freq_fermionic_phsym', 'time_fermionic_phsym'][i % 2]
    few = i % 3 == 0
    c = Case(rng, kind, n=int(rng.integers(1, 6)) if few else int(rng.integers(8, 20)), off=i % 7 == 3, cov=i % 5 == 2)
    alpha = float(10 ** rng.uniform(1.5, 6))
    factor = 1j if i % 4 == 2 else 1
    ctx.describe(nontrivial=bool(np.ptp(c.model) > 0 or np.ptp(c.err) > 0), alpha=alpha, factor=str(factor), **c.short)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        try:
            sol = c.problem(factor).partial_solution(**c.args(alpha=alpha, ustart=np.zeros(1000), iterfac=1000))
        except RuntimeWarning:
            ctx.saw('refused')
            ctx.true(alpha < 1e3, 'refused', f'no result at alpha={alpha:.3g}')
            return
        compare(ctx, c, sol, alpha, 'one alpha')
        if i % 3 == 1:
            try:
                sol, arr = c.problem(factor).solve(**c.args(alpha_determination='chi2kink', alpha_start=1e7, alpha_end=1., alpha_div=10.))
            except (RuntimeError, RuntimeWarning):
                ctx.saw('refused_chi2kink')
                return
            compare(ctx, c, sol, sol.alpha, 'chi2kink', 1e-4)
            compare(ctx, c, arr[0], arr[0].alpha, 'path', 1e-4, path=True)
    if kind.startswith('freq'):
        def mixed():
            try:
                c.problem(1 + 1j)
            except SystemExit:
                raise ValueError('exit')
        ctx.raises(mixed, 'mixed', 'data neither real nor imaginary')


def monotone(ctx, arr, what):
    o = sorted(arr, key=lambda s: s.alpha)
    al = np.array([s.alpha for s in o])
    chi = np.array([s.chi2 for s in o])
    ent = np.array([s.entropy for s in o])
    use = al > 1e-1
    al, chi, ent = al[use], chi[use], ent[use]
    d, e = np.diff(chi), np.diff(ent)
    ctx.true(np.all(d >= -1e-4 * chi[1:] - 1e-4), 'monotone', f'{what}: chi2 rises when alpha falls')
    ctx.true(np.all(e >= -1e-4 * np.abs(ent[:-1]) - 1e-6), 'monotone', f'{what}: S falls when alpha rises')
    ctx.saw('path_points', len(al))


def sc_method(ctx, rng, i):
    """the choice of alpha"""
    method = ['chi2kink', 'classic', 'historic', 'bryan'][i % 4]
    kind = KINDS[(i // 4) % 5]
    blur = kind.startswith('freq') and i // 4 % 3 == 1
    off = i // 4 % 6 == 4 and method in ('chi2kink', 'classic')
    c = Case(rng, kind, n=int(rng.integers(8, 25)), err=float(10 ** rng.uniform(-2.5, -1.5)), blur=blur, off=off, cov=i // 4 % 7 == 2)
    kw = {}
    if method == 'chi2kink':
        kw = dict(alpha_start=float(10 ** rng.uniform(7, 10)), alpha_end=float(10 ** rng.uniform(-1.5, .5)),
                  alpha_div=float(rng.uniform(4, 12)), fit_position=float(rng.uniform(1.5, 3)))
    ctx.describe(nontrivial=bool(np.ptp(c.model) > 0 or np.ptp(c.err) > 0), method=method, **c.short, **kw)
    p = c.problem()
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        try:
            sol, arr = p.solve(**c.args(alpha_determination=method, **kw))
        except (RuntimeError, RuntimeWarning) as e:
            ctx.saw('refused_' + method)
            ctx.true(method in ('historic', 'chi2kink') or c.b > 0 or kind.startswith('time') or c.off, 'refused', f'{method}: {e}')
            return
    monotone(ctx, arr, method)
    if method == 'bryan':
        al = np.array([s.alpha for s in arr])
        pr = np.array([s.probability for s in arr])
        ctx.true(np.all(pr >= 0) and np.all(np.diff(al) < 0), 'bryan', 'probabilities')
        wt = np.zeros(len(al))
        wt[1:] += -np.diff(al) / 2
        wt[:-1] += -np.diff(al) / 2
        wt = wt * pr / np.sum(wt * pr)
        unit = c.beta if kind.startswith('time') else 1.
        ctx.close(sol.A_opt, unit * sum(x * s.A_opt for x, s in zip(wt, arr)), 'bryan', 'weighted average', rtol=1e-8)
        ctx.close(sol.backtransform, sum(x * s.backtransform for x, s in zip(wt, arr)) / (c.beta if kind == 'time_bosonic' else 1.), 'bryan',
                  'back transform of the average', rtol=1e-8)
        ctx.true(pr[-1] < .0101 * pr.max() or len(arr) < 3, 'bryan', 'stopped before the probability was small')
        for s in (arr[0], arr[int(np.argmax(pr))]):
            ref = compare(ctx, c, s, s.alpha, 'bryan', path=True, tol=1e-4)
            if ref is not None:
                tr, conv = ref.bayes()
                ctx.close(s.trace, tr, 'bayes', 'number of good data', rtol=1e-3, atol=1e-6)
        if c.b == 0:
            # posterior probability up to a common factor
            t, lp = [], []
            for s in arr[::max(len(arr) // 6, 1)]:
                ref = c.reference(s.alpha)
                if ref.converged and s.probability > 0:
                    lam = np.linalg.svd(ref.k * np.sqrt(c.dw * ref.a), compute_uv=False) ** 2
                    t.append(ref.q + np.log(s.alpha) + .5 * np.sum(np.log(s.alpha / (s.alpha + lam))))
                    lp.append(np.log(s.probability))
            if len(t) > 1:
                ctx.close(np.diff(lp), np.diff(t), 'probability', 'posterior probability of alpha', atol=2e-2, rtol=1e-4)
        ctx.saw('bryan')
        return
    ref = compare(ctx, c, sol, sol.alpha, method, tol=1e-4)
    if method == 'historic':
        ctx.close(sol.chi2, float(c.ndata), 'criterion', 'chi2 is not the number of data', rtol=1e-4)
    elif method == 'classic' and ref is not None:
        tr, conv = ref.bayes()
        ctx.close(sol.convergence, 1., 'criterion', 'not converged', rtol=1e-4)
        ctx.close(conv, 1., 'criterion', 'number of good data is not -2 alpha S', rtol=2e-3)
        ctx.close(sol.trace, tr, 'bayes', 'number of good data', rtol=1e-3, atol=1e-6)
    elif method == 'chi2kink':
        n = int(np.floor(np.log(kw['alpha_start'] / kw['alpha_end']) / np.log(kw['alpha_div']) + 1e-9)) + 1
        want = kw['alpha_start'] / kw['alpha_div'] ** np.arange(n)
        got = np.array([s.alpha for s in arr])
        ctx.true(len(got) >= max(4, n - 3), 'path', f'{len(got)} of {n} values of alpha')
        hit = np.min(np.abs(np.log(got[:, None] / want)), axis=1)
        ctx.true(hit.max() < 1e-6 and np.all(np.diff(got) < 0), 'path', 'other values of alpha than asked for')
        ctx.true(np.sum(want > 10) <= np.sum(got > 9.999), 'path', 'values of alpha left out')
        x, y = np.log10(got), np.log10([s.chi2 for s in arr])
        f = lambda x, a, b, cc, dd: a + b / (1 + np.exp(-dd * (x - cc)))
        fits = []
        for k in range(3):
            try:
                q = curve_fit(f, x, y + (1e-7 * np.cos(np.arange(len(x)) * k) if k else 0), p0=(0, 5, 2, 0))[0]
                fits.append(q[2] - kw['fit_position'] / q[3])
            except Exception:
                pass
        if len(fits) == 3 and np.ptp(fits) < 1e-3:
            ctx.close(np.log10(sol.alpha), fits[0], 'criterion', 'alpha is not at the kink', atol=5e-3)
            ctx.saw('kinks')
        for s in (arr[0], arr[len(arr) // 2]):
            compare(ctx, c, s, s.alpha, 'path', path=True, tol=1e-4)
    ctx.saw(method)


def sc_kernel(ctx, rng, i):
    """kernels: definition, blur, Fourier partners"""
    beta, wmax = float(rng.uniform(2, 40)), float(rng.uniform(3, 12))
    n, nw = int(rng.integers(1, 30)), int(rng.integers(11, 90))
    kind = ['freq_fermionic', 'freq_bosonic', 'time_fermionic', 'time_bosonic'][i % 4]
    bos = kind.endswith('bosonic')
    w = ac.get_w_mesh(str(rng.choice(['linear', 'tan', 'lorentzian'])), 0. if bos else -wmax, wmax, nw, .05)
    ctx.describe(kind=kind, beta=beta, n=n, nw=nw, wmax=wmax)
    if kind.startswith('freq'):
        x = sp.matsubara(beta, n, bos)
        if i % 8 < 4:
            x = x[n:]
        k = kernels.Kernel(kind, w, x)
        ctx.close(k.matrix, me.kernel(kind, x, w, beta), 'kernel', kind, rtol=1e-9)
        ctx.close(ac.get_backtransform_kernel(w, x, kind), k.matrix, 'kernel', 'of the back transform', rtol=1e-12)
        b = min(float(10 ** rng.uniform(-3, 0)), 4 * np.pi / beta)
        k.preblur(b)
        x0 = x[x >= 0]
        ctx.close(k.matrix[x >= 0], me.kernel(kind, x0, w, beta, b), 'blurred', f'b={b:.3g}', atol=1e-5 * (1 + beta / np.pi))
        k.preblur(0.)
        ctx.close(k.matrix, k.original_matrix, 'blurred', 'no blur')
        k.preblur(b)
        wf = np.linspace(0. if bos else -wmax, wmax, 241)
        s, c0 = float(rng.uniform(.35, .6)), 0. if bos else float(rng.uniform(-.3, .3)) * wmax
        b = float(rng.uniform(.05, .4))
        k = kernels.Kernel(kind, wf, x)
        k.preblur(b)
        g = lambda s: np.exp(-.5 * ((wf - c0) / s) ** 2) / s
        ctx.close(k.blur(g(s)), g(np.hypot(s, b)), 'blur', f'Gaussian of width {s:.2f} blurred by {b:.2f}', atol=2e-3 / s)
        a = rng.random(nw)
        k = kernels.Kernel(kind, w, x)
        m = rng.normal(size=(len(x), len(x)))
        k.rotate_to_cov_eb(m)
        ctx.close(k.real_matrix() @ a, np.concatenate([(m.T @ me.kernel(kind, x, w, beta) @ a).real] +
                                                      ([(m.T @ me.kernel(kind, x, w, beta) @ a).imag] if not bos else [])),
                  'rotate', 'rotated kernel', rtol=1e-8)
    else:
        # data of the time kernel, integrated over time, are those of the frequency kernel
        t, g = np.polynomial.legendre.leggauss(400)
        tau, g = beta * (t + 1) / 2, beta * g / 2
        prob = acont.AnalyticContinuationProblem(im_axis=tau, re_axis=w, im_data=np.ones(len(tau)), kernel_mode=kind, beta=beta)
        k = kernels.Kernel(kind, prob.re_axis, prob.im_axis).matrix
        if bos:
            k = k / beta
        ctx.close(k, me.kernel(kind, tau, w, beta), 'kernel', kind, rtol=1e-8)
        m = min(n, 20)
        x = sp.matsubara(beta, m, bos)[m:]
        f = np.exp(1j * np.outer(x, tau)) @ (g[:, None] * k)
        ctx.close(f if bos else -f, me.kernel('freq_' + kind[5:], x, w, beta).astype(complex), 'fourier', kind, atol=1e-6)
    # the other kernels: particle-hole symmetric and off-diagonal susceptibilities
    wh = ac.get_w_mesh('linear' if i % 2 else 'tan', 0., wmax, nw, .05)
    x = sp.matsubara(beta, n, False)
    ctx.close(kernels.Kernel('freq_fermionic_phsym', wh, x).matrix, me.kernel('freq_fermionic_phsym', x, wh, beta), 'kernel', 'freq_fermionic_phsym', rtol=1e-9)
    x = sp.matsubara(beta, n, True)[n if i % 3 else n + 1:]
    if len(x) and wh[0] == 0:
        ws = wh[1:] if x[0] == 0 and i % 2 else wh
        with np.errstate(all='ignore'):
            got = kernels.Kernel('freq_bosonic_xyz', ws, x).matrix
        ctx.close(got, me.kernel('freq_bosonic_xyz', x, ws, beta), 'kernel', 'freq_bosonic_xyz', rtol=1e-9)
    b = beta * (10 if i % 3 == 1 else 1)
    x = np.sort(rng.uniform(0, b, size=n + 1))
    x[0], x[-1] = 0., b
    ctx.close(kernels.Kernel('time_fermionic_phsym', b * wh, x / b).matrix, me.kernel('time_fermionic_phsym', x, wh, b), 'kernel', 'time_fermionic_phsym', rtol=1e-9)
    wo = wh if i % 4 < 2 else wh[1:]  # also an axis that does not start at zero
    ctx.close(kernels.Kernel('time_bosonic', beta * wo, x / b).matrix / beta, me.kernel('time_bosonic', x / b * beta, wo, beta), 'kernel', 'time_bosonic', rtol=1e-8)
    ctx.raises(lambda: kernels.Kernel('freq_other', w, np.ones(2)), 'unknown', 'unknown kernel')
    ctx.raises(lambda: kernels.Kernel(None, w, np.ones(2)), 'unknown', 'no kernel')
    ctx.raises(lambda: ac.get_backtransform_kernel(w, np.ones(2), 'time'), 'unknown', 'unknown kernel', NotImplementedError)
    ctx.saw('kernel_entries', n * nw)


def sc_kk(ctx, rng, i):
    """Kramers-Kronig: Lorentzians, for which both parts are known, on fine meshes"""
    wmax = float(rng.uniform(8, 15))
    nw = int(rng.integers(400, 700)) + 1
    mt = ['linear', 'tan', 'lorentzian'][i % 3]
    w = ac.get_w_mesh(mt, -wmax, wmax, nw, .1)
    n = int(rng.integers(1, 4))
    z = rng.uniform(-.4, .4, size=n) * wmax - 1j * rng.uniform(.4, .9, size=n)
    a = rng.uniform(.3, 1, size=n) * (rng.choice([-1, 1], size=n) if i % 2 else 1)
    ctx.describe(wmax=wmax, nw=nw, mt=mt, n=n)
    f = np.sum(a[:, None] / (w - z[:, None]), axis=0)
    s = -f.imag / np.pi
    inner = np.abs(w) < .5 * wmax
    top = np.max(np.abs(f))
    # what is cut off outside the axis
    tail = 2.5 * np.sum(np.abs(a)) / wmax
    for kind in ('fermionic', 'general'):
        g = acont.GreensFunction(spectrum=s, wgrid=w, kind=kind).kkt()
        ctx.close(g.imag, f.imag, 'kk', 'imaginary part', rtol=1e-10)
        ctx.true(np.max(np.abs(g.real - f.real)[inner]) < .05 * top + .5 * tail, 'kk', f'{kind}: real part off by {np.max(np.abs(g.real - f.real)[inner]) / top:.3f}')
        h = ac.kkt(s, w, kind)
        ctx.close(h, g, 'kk', 'two implementations', rtol=1e-10)
    h = sp.hilbert(s, w)
    dev = np.abs(g.real - h)[2:-2]
    ctx.true(dev.max() < .1 * np.max(np.abs(h)), 'kk', f'differs from the Hilbert transform by {dev.max() / np.max(np.abs(h)):.3f}')
    # an even or odd spectrum from its positive half
    wp = ac.get_w_mesh(mt, 0., wmax, nw, .1)
    wf = np.concatenate((-wp[:0:-1], wp))
    f2 = np.sum(a[:, None] / (wf - z[:, None]), axis=0)
    for par, kinds in ((1, ('symmetric', 'fermionic_phsym')), (-1, ('antisymmetric', 'bosonic'))):
        ev = -(f2 + par * f2[::-1]).imag / np.pi
        full = sp.hilbert(ev, wf)[nw - 1:]
        for kind in kinds:
            for h in (acont.GreensFunction(spectrum=ev[nw - 1:], wgrid=wp, kind=kind).kkt(), ac.kkt(ev[nw - 1:], wp, kind)):
                ok = np.ones(nw, dtype=bool)
                ok[:15] = ok[-2:] = False  # the sum leaves out the mirror image of the point itself
                ctx.true(np.max(np.abs(h.real - full)[ok]) < .1 * np.max(np.abs(full)), 'kk-half', f'{kind}, half axis: {np.max(np.abs(h.real - full)[ok]):.3g}')
                ctx.close(h.imag, -np.pi * ev[nw - 1:], 'kk-half', 'imaginary part', rtol=1e-10)
    # forth and back: the transform of the function is the function on the imaginary axis
    beta = float(rng.uniform(5, 20))
    x = sp.matsubara(beta, 10, False)
    ctx.close(ac.transform_from_real_to_imag(g, w, x), me.kernel('freq_fermionic', x, w, beta) @ (sp.weights(w) * s), 'transform',
              'to the imaginary axis', rtol=1e-8)
    exact = np.where(x > 0, np.sum(a[:, None] / (1j * x - z[:, None]), axis=0), np.sum(a[:, None] / (1j * x - z.conj()[:, None]), axis=0))
    ctx.close(ac.transform_from_real_to_imag(g, w, x), exact, 'transform', 'exact value', atol=.02 * np.max(np.abs(exact)) + tail)
    ctx.raises(lambda: acont.GreensFunction(spectrum=s, wgrid=w, kind='other').kkt(), 'unknown', 'unknown kind', ValueError)
    ctx.raises(lambda: ac.kkt(s, w, 'other'), 'unknown', 'unknown kind', ValueError)
    ctx.saw('transforms', 4)


class Late(Exception):
    pass


def sc_hang(ctx, rng, i):
    """data that no spectrum explains within the error: an answer or an exception, but no endless search"""
    kind = KINDS[i % 5]
    method = ['historic', 'classic', 'chi2kink'][i // 5 % 3]
    c = Case(rng, kind, n=int(rng.integers(3, 12)), nw=61, err=1e-2)
    c.d = c.d + .3 * rng.normal(size=c.d.shape) * np.max(np.abs(c.d))
    ctx.describe(method=method, **c.short)

    def late(*_):
        raise Late()

    old = signal.signal(signal.SIGALRM, late)
    signal.alarm(40)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            sol, _ = c.problem().solve(**c.args(alpha_determination=method))
        if method == 'historic':
            ctx.close(sol.chi2, float(c.ndata), 'criterion', 'chi2 is not the number of data', rtol=1e-4)
        ctx.true(np.all(np.isfinite(sol.A_opt)), 'hang', 'an answer that is none')
        ctx.saw('answers')
    except (RuntimeError, RuntimeWarning, np.linalg.LinAlgError):
        ctx.saw('refusals')
        ctx.true(True, 'hang', '')
    except Late:
        ctx.true(False, 'hang', f'{method} has not ended after 40 s')
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


def sc_refuse(ctx, rng, i):
    """unknown settings are refused"""
    c = Case(rng, KINDS[i % 5], n=6, nw=31)
    ctx.describe(**c.short)
    for bad in (dict(alpha_determination='best'), dict(alpha_determination='classic', optimizer='cg')):
        ctx.raises(lambda: c.problem().solve(**c.args(**bad)), 'unknown', str(bad), ValueError)
    ctx.raises(lambda: c.problem().solve(**c.args(method='magic', alpha_determination='classic')), 'unknown', 'method', ValueError)
    ctx.raises(lambda: c.problem().partial_solution(**c.args(method='magic', alpha=1e4, ustart=np.zeros(9))), 'unknown', 'method of a partial solution', ValueError)
    ctx.raises(lambda: c.problem().solve(**c.args()), 'unknown', 'no alpha determination', KeyError)
    ctx.raises(lambda: acont.AnalyticContinuationProblem(im_axis=c.x, re_axis=c.w, im_data=c.d, kernel_mode='freq', beta=1.), 'unknown', 'kernel', ValueError)
    ctx.raises(lambda: acont.AnalyticContinuationProblem(im_axis=1j * (c.x + 1), re_axis=c.w, im_data=c.d, kernel_mode=c.kind, beta=c.beta), 'unknown',
               'complex axis', ValueError)
    x, w, d, m, e = (v.copy() for v in (c.x, c.w, c.d, c.model, c.err))
    p = acont.AnalyticContinuationProblem(im_axis=c.x, re_axis=c.w, im_data=c.d, kernel_mode=c.kind, beta=c.beta)
    p.partial_solution(method='maxent_svd', model=c.model, stdev=c.err, verbose=False, alpha=1e4, ustart=np.zeros(99))
    ctx.true(all(np.array_equal(a, b) for a, b in zip((x, w, d, m, e), (c.x, c.w, c.d, c.model, c.err))), 'input', 'input data was changed')


SCENARIOS = [('alpha', sc_alpha, 240, 4000), ('phsym', sc_phsym, 40, 600), ('method', sc_method, 80, 1200), ('kernel', sc_kernel, 80, 800), ('kk', sc_kk, 30, 300),
             ('hang', sc_hang, 15, 120), ('refuse', sc_refuse, 10, 50)]

"""Runner for the runtime-verification checks.

A check is a module harness/props/<id>.py with a list SCENARIOS of (name, function, quick_n, thorough_n).
A scenario function gets (ctx, rng, i): it generates one workload from rng / i, drives the real code in
/repo/src and feeds what it observes to an oracle through ctx.  Everything is a function of (seed, scenario, i), so
a violation is replayed by running that one case again.

Verdicts: violated (exit 1 + VIOLATION line), held on what was observed (exit 0), inconclusive (exit 3: a scenario
observed nothing, or the harness itself failed).
"""
import contextlib
import importlib
import io
import json
import os
import sys
import time
import traceback
import warnings
import zlib

import numpy as np

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
REPO_SRC = os.path.join(REPO, 'src')
EVID_DIR = os.path.join(VERIF, 'evidence')
REPLAY_DIR = os.path.join(VERIF, 'replays')
KNOWN_FILE = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')


class Violation(Exception):
    def __init__(self, key, msg):
        super().__init__(f'{key}: {msg}')
        self.key = key
        self.msg = msg


class Inconclusive(Exception):
    pass


def jsonable(x, depth=0):
    if isinstance(x, dict):
        return {str(k): jsonable(v, depth + 1) for k, v in x.items()}
    if isinstance(x, (list, tuple, set)):
        return [jsonable(v, depth + 1) for v in x]
    if isinstance(x, np.ndarray):
        if x.size > 24:
            return f'array{x.shape}'
        return jsonable(x.tolist(), depth + 1)
    if isinstance(x, (np.integer,)):
        return int(x)
    if isinstance(x, (np.floating,)):
        return float(x)
    if isinstance(x, (complex, np.complexfloating)):
        return [float(x.real), float(x.imag)]
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    return str(x)


class Ctx:
    """Observation record of one check run."""

    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.evaluations = 0  # workloads executed
        self.oracle_checks = 0  # comparisons made by monitors
        self.observed = {}  # counters of what the monitors saw
        self.sigs = set()
        self.trivial = 0
        self.samples = []
        self.case = None
        self.soft = []  # violations recorded without aborting the case

    @property
    def thorough(self):
        return self.tier == 'thorough'

    # ---- what the workload is
    def describe(self, nontrivial=True, **kw):
        """Register the generated case; the signature decides distinctness."""
        self.case = jsonable(kw)
        if nontrivial:
            self.sigs.add((self._scen, json.dumps(self.case, sort_keys=True)))
        else:
            self.trivial += 1
        if self._scen not in [s['scenario'] for s in self.samples] and len(self.samples) < 12:
            self.samples.append({'scenario': self._scen, 'case': self.case})

    def saw(self, what, n=1):
        self.observed[what] = self.observed.get(what, 0) + int(n)

    # ---- oracles
    def true(self, cond, key, msg='', **data):
        self.oracle_checks += 1
        if not bool(cond):
            raise Violation(key, f'{msg} {jsonable(data) if data else ""}')

    def equal(self, a, b, key, msg=''):
        self.oracle_checks += 1
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape:
            raise Violation(key, f'{msg} shape {a.shape} != expected {b.shape}')
        if not np.array_equal(a, b):
            bad = np.argwhere(a != b)
            j = tuple(bad[0]) if a.ndim else ()
            raise Violation(key, f'{msg} {len(bad)} of {a.size} entries differ, first at {tuple(int(x) for x in j)}: '
                                 f'{a[j]} != expected {b[j]}')

    def close(self, a, b, key, msg='', rtol=1e-8, atol=1e-10, scale=None):
        """|a-b| <= atol + rtol*scale with scale = max|b| by default (norm-wise)."""
        self.oracle_checks += 1
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape:
            raise Violation(key, f'{msg} shape {a.shape} != expected {b.shape}')
        if a.size == 0:
            return
        if scale is None:
            scale = float(np.max(np.abs(b)))
        d = np.abs(a - b)
        if not np.all(np.isfinite(d)):
            j = tuple(np.argwhere(~np.isfinite(d))[0]) if a.ndim else ()
            raise Violation(key, f'{msg} non-finite at {tuple(int(x) for x in j)}: {a[j]} vs expected {b[j]}')
        dm = float(np.max(d))
        if dm > atol + rtol * scale:
            j = np.unravel_index(int(np.argmax(d)), d.shape) if a.ndim else ()
            raise Violation(key, f'{msg} deviates by {dm:.3e} (allowed {atol + rtol * scale:.1e}) '
                                 f'at {tuple(int(x) for x in j)}: {a[j]} vs expected {b[j]}')

    def raises(self, fn, key, msg='', exc=Exception):
        self.oracle_checks += 1
        try:
            fn()
        except exc:
            return
        raise Violation(key, msg + ' accepted silently')


def load_known():
    out = {}
    if os.path.exists(KNOWN_FILE):
        for line in open(KNOWN_FILE):
            line = line.strip()
            if line.startswith('finding:'):
                parts = dict(p.split('=', 1) for p in line.split()[1:3])
                out[(parts['property'], parts['key'])] = line.split(' ', 3)[3] if line.count(' ') >= 3 else ''
    return out


def from_repo(tb):
    """True when the exception left code of the repository (innermost frames may be numpy's)."""
    for fr in reversed(traceback.extract_tb(tb)):
        fn = os.path.abspath(fr.filename)
        if fn.startswith(os.path.abspath(REPO_SRC)):
            return True
        if fn.startswith(VERIF):
            return False
    return False


def unprocessable(e):
    if isinstance(e, TypeError):
        return 'argument' not in str(e)
    return isinstance(e, (ValueError, IndexError, KeyError, ArithmeticError, OSError, np.linalg.LinAlgError))


def rng_for(seed, scen, i):
    return np.random.default_rng([seed, zlib.crc32(scen.encode()), i])


def run_case(ctx, name, fn, i):
    """-> None or (key, message)"""
    ctx._scen = name
    ctx.case = None
    rng = rng_for(ctx.seed, name, i)
    buf = io.StringIO()
    try:
        with warnings.catch_warnings(), contextlib.redirect_stdout(buf):
            warnings.simplefilter('ignore')
            old = np.seterr(all='ignore')
            try:
                fn(ctx, rng, i)
            finally:
                np.seterr(**old)
                import matplotlib.pyplot as plt
                plt.close('all')
    except Violation as v:
        return v.key, v.msg
    except Inconclusive:
        raise
    except (MemoryError, KeyboardInterrupt):
        raise
    except BaseException as e:  # an exception escaping the code under test on a valid input is itself a violation
        if isinstance(e, SystemExit) or from_repo(e.__traceback__):
            tail = traceback.extract_tb(e.__traceback__)[-1]
            return 'exception', f'{type(e).__name__}: {e} at {os.path.basename(tail.filename)}:{tail.name}'
        if unprocessable(e):  # the result came back, but not in a form the oracle can read (shape, missing entry, file)
            tail = traceback.extract_tb(e.__traceback__)[-1]
            return 'unprocessable', f'{type(e).__name__}: {e} at {os.path.basename(tail.filename)}:{tail.lineno}'
        raise
    finally:
        ctx.evaluations += 1
    return None


def main(argv=None):
    argv = sys.argv[1:] if argv is None else argv
    prop = argv[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in argv:
        tier = argv[argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    sys.path.insert(0, REPO_SRC)
    import dga
    if not os.path.abspath(dga.__file__).startswith(os.path.abspath(REPO_SRC)):
        print('harness error: dga not imported from', REPO_SRC)
        return 3
    mod = importlib.import_module(f'harness.props.{prop}')
    if '--replay' in argv:
        rp = json.load(open(argv[argv.index('--replay') + 1]))
        ctx = Ctx(prop, rp['tier'], rp['seed'])
        fn = {s[0]: s[1] for s in mod.SCENARIOS}[rp['scenario']]
        res = run_case(ctx, rp['scenario'], fn, rp['index'])
        print('replayed', rp['scenario'], rp['index'], '->', res, ctx.case)
        return 1 if res else 0
    only = argv[argv.index('--only') + 1] if '--only' in argv else None
    ctx = Ctx(prop, tier, seed)
    known = load_known()
    budget = float(os.environ.get('VERIF_BUDGET', '300' if tier == 'quick' else '3000'))
    found, known_hit, code = [], {}, 0
    per_scen = {}
    errors = []
    for name, fn, nq, nt in mod.SCENARIOS:
        if only and only != name:
            continue
        n = nt if tier == 'thorough' else nq
        done = 0
        ts = time.time()
        nviol = 0
        for i in range(n):
            if done > 0 and time.time() - t0 > budget:
                break
            before = ctx.oracle_checks
            try:
                res = run_case(ctx, name, fn, i)
            except Exception:
                errors.append(f'{name}[{i}]: ' + traceback.format_exc())
                break
            done += 1
            if res is None and ctx.oracle_checks == before:
                errors.append(f'{name}[{i}]: no monitor was reached')
                break
            if res is not None:
                if (prop, res[0]) in known:
                    known_hit[res[0]] = known_hit.get(res[0], 0) + 1
                    continue
                nviol += 1
                found.append({'property': prop, 'tier': tier, 'seed': seed, 'scenario': name, 'index': i,
                              'key': res[0], 'message': res[1], 'case': ctx.case})
                if nviol >= 2:
                    break
        per_scen[name] = {'cases': done, 'wall_s': round(time.time() - ts, 2)}
        if len(found) >= 6:
            break
    if hasattr(mod, 'finish'):
        mod.finish(ctx)
    for key, cnt in known_hit.items():
        print(f'KNOWN-FINDING: property={prop} {known[(prop, key)]} (key={key}, seen {cnt}x)')
    os.makedirs(EVID_DIR, exist_ok=True)
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration',
          'coverage': {'evaluations': ctx.evaluations, 'distinct_nontrivial': len(ctx.sigs),
                       'rule': mod.RULE, 'samples': ctx.samples,
                       'oracle_checks': ctx.oracle_checks, 'observed': ctx.observed, 'scenarios': per_scen},
          'assumptions': getattr(mod, 'ASSUMPTIONS', []),
          'wall_s': round(time.time() - t0, 2), 'violations': len(found)}
    with open(os.path.join(EVID_DIR, f'{prop}.json'), 'w') as fh:
        json.dump(ev, fh, indent=1)
    for f in found:
        os.makedirs(REPLAY_DIR, exist_ok=True)
        path = os.path.join(REPLAY_DIR, f'{prop}_{f["scenario"]}_{f["index"]}.json')
        json.dump(f, open(path, 'w'), indent=1)
        print(f'VIOLATION property={prop} replay={path} :: [{f["scenario"]}#{f["index"]}] {f["key"]}: '
              f'{" ".join(f["message"].split())[:600]} case={json.dumps(f["case"])[:500]}')
    for e in errors:
        print('harness error:', e, file=sys.stderr)
    if found:
        return 1
    if errors or ctx.oracle_checks == 0:
        print(f'INCONCLUSIVE property={prop}')
        return 3
    print(f'held property={prop} tier={tier} seed={seed} evaluations={ctx.evaluations} distinct={len(ctx.sigs)} '
          f'oracle_checks={ctx.oracle_checks} wall={time.time() - t0:.1f}s')
    return 0


if __name__ == '__main__':
    from harness import core  # one copy of the exception classes, also for modules that import them
    sys.exit(core.main())

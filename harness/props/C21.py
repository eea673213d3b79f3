"""C21: output of a run: fresh folders, faithful round trips of data and settings, ordered log of the root process."""
import json
import os

import numpy as np
from dga import config, dga_io, loggers, util
from harness.env import FakeComm, scratch
from harness.mpi import run_ranks
from ruamel.yaml import YAML

RULE = ('random directory trees (files and folders with the names the code would choose next), repeated runs on one folder, '
        'random arrays / dictionaries / numbers saved and loaded, random settings dumped and re-read, and 1-6 real MPI processes '
        'creating folders and logging with random delays; before/after snapshots of the tree are compared. Non-trivial: '
        'at least one name is already taken')


def snapshot(base):
    d = {}
    for root, ds, fs in os.walk(base):
        for x in ds:
            d[os.path.relpath(os.path.join(root, x), base)] = None
        for x in fs:
            p = os.path.join(root, x)
            d[os.path.relpath(p, base)] = (os.stat(p).st_mtime_ns, open(p, 'rb').read())
    return d


def untouched(ctx, before, after, new):
    """everything that was there is still there, unchanged, and only `new` was added"""
    for k, v in before.items():
        ctx.true(k in after and after[k] == v, 'overwritten', f'{k} was changed or removed')
    added = sorted(set(after) - set(before))
    ctx.true(added == sorted(new), 'added', f'added {added}, expected {sorted(new)}')
    ctx.saw('files_compared', len(before))


def populate(rng, base, stem, ext, frac):
    taken = set()
    for k in range(int(rng.integers(0, 7))):
        nm = stem + (f'_{k}' if k else '') + ext
        if rng.random() < frac:
            taken.add(nm)
            if rng.random() < .5:
                os.makedirs(os.path.join(base, nm))
                open(os.path.join(base, nm, 'mark'), 'w').write(str(rng.random()))
            else:
                open(os.path.join(base, nm), 'w').write(str(rng.random()))
    return taken


def sc_unique(ctx, rng, i):
    stem = str(rng.choice(['LDGA_spch_Nk256_Nq256_wc10_vc12_vs5', 'run', 'MaxEnt', 'a b', 'x_1']))
    ext = str(rng.choice(['', '', '', '.dat', '.5']))
    with scratch() as base:
        sub = ['', 'in.put/', 'a/b/'][i % 3]
        os.makedirs(base + sub, exist_ok=True)
        taken = populate(rng, base + sub, stem, ext, float(rng.uniform(.3, 1)))
        ctx.describe(nontrivial=bool(taken), stem=stem, ext=ext, taken=sorted(taken), sub=sub, i=i % 5)
        names = []
        comm = [None, FakeComm(0, 1)][i % 2]
        for rep in range(4):
            before = snapshot(base)
            if i % 5 == 0:
                p = util.uniquify(base + sub + stem + ext)
                untouched(ctx, before, snapshot(base), [])
                os.mkdir(p)
            elif i % 5 == 1:
                p = dga_io.set_output_path(base + sub + stem + ext, comm)
            else:
                o = config.OutputConfig()
                p = o.set_output_path(base + sub + stem + ext, comm)
                ctx.true(o.output_path == p, 'path', f'{p} {o.output_path}')
            ctx.true(p.endswith('/'), 'path', f'{p} does not end with a separator')
            ctx.true(os.path.dirname(p.rstrip('/')) == (base + sub).rstrip('/'), 'path', f'{p} is not next to the requested name')
            rel = os.path.relpath(p, base)
            ctx.true(rel not in before and rel not in names, 'taken', f'{rel} was already there')
            # first free name of the series
            k = 0
            while os.path.join(sub, stem + (f'_{k}' if k else '') + ext) in before:
                k += 1
            ctx.true(rel == os.path.join(sub, stem + (f'_{k}' if k else '') + ext), 'series', f'{rel}, first free number is {k}')
            untouched(ctx, before, snapshot(base), [rel])
            names.append(rel)
            open(p + 'result', 'w').write(rel)
        # processes that are not root create nothing and adopt the path of root
        before = snapshot(base)

        class Other(FakeComm):
            def bcast(self, x, root=0):
                return base + 'from_root/'
        o = config.OutputConfig()
        ctx.true(o.set_output_path(base + sub + stem + ext, Other(2, 3)) == base + 'from_root/', 'bcast', str(o.output_path))
        dga_io.set_output_path(base + sub + stem + ext, FakeComm(1, 3))
        untouched(ctx, before, snapshot(base), [])
    ctx.saw('folders', len(names))


def rand_value(rng, depth=0):
    k = int(rng.integers(0, 9 if depth < 2 else 7))
    if k == 0:
        return int(rng.integers(-10 ** 6, 10 ** 6))
    if k == 1:
        return float(rng.normal() * 10. ** rng.integers(-12, 12))
    if k == 2:
        return bool(rng.integers(0, 2))
    if k == 3:
        return str(rng.choice(['d-wave', 'none', 'yes', '1e-3', 'null', '3', '', 'a: b', "it's"]))
    if k == 4:
        return None
    if k == 5:
        return [float(x) for x in rng.normal(size=int(rng.integers(0, 4)))]
    if k == 6:
        return int(rng.integers(-1, 2))
    if k == 7:
        return {f'k{j}': rand_value(rng, depth + 1) for j in range(int(rng.integers(0, 4)))}
    return [rand_value(rng, depth + 1) for _ in range(int(rng.integers(0, 4)))]


def same(a, b):
    if isinstance(a, dict):
        return isinstance(b, dict) and set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, np.ndarray):
        return isinstance(b, np.ndarray) and a.dtype == b.dtype and a.shape == b.shape and np.array_equal(a, b)
    if isinstance(a, bool) or a is None or isinstance(a, str):
        return type(b) is type(a) and a == b or (isinstance(a, str) and isinstance(b, str) and a == b)
    if isinstance(b, (bool, str, list, dict)) or b is None:
        return False
    return a == b or (isinstance(a, float) and abs(a - b) <= 1e-13 * abs(a))  # the yaml writer may round the last digit


def sc_data(ctx, rng, i):
    o = config.OutputConfig()
    n = int(rng.integers(3, 9))
    with scratch() as path:
        o.output_path = path if i % 2 else path.rstrip('/')
        items = {}
        for j in range(n):
            k = int(rng.integers(0, 6))
            shape = tuple(int(x) for x in rng.integers(1, 4, size=int(rng.integers(0, 5))))
            if k == 0:
                v = rng.normal(size=shape) + 1j * rng.normal(size=shape)
            elif k == 1:
                v = np.asarray(rng.integers(-9, 9, size=shape), dtype=rng.choice(['int64', 'int32', 'float32', 'bool']))
            elif k == 2:
                v = float(rng.normal())
            elif k == 3:
                v = {'a': rng.normal(size=3), 'b': {'c': int(rng.integers(0, 9))}, 'd': None, 1: 'x'}
            elif k == 4:
                v = rng.normal(size=(1,) * int(rng.integers(1, 4)))
            else:
                v = complex(rng.normal(), rng.normal())
            if isinstance(v, np.ndarray) and v.ndim == 0:
                v = v.item()
            items[f'n{j}'] = v
        ctx.describe(kinds=[str(type(v).__name__) + str(np.shape(v)) for v in items.values()], i=i)
        for k, v in items.items():
            o.save_data(v, k)
        ctx.true(sorted(os.listdir(path)) == sorted(k + '.npy' for k in items), 'files', str(os.listdir(path)))
        for k, v in items.items():
            w = o.load_data(k)
            ctx.true(same(v, w) if not np.isscalar(v) else v == w, 'round-trip', f'{k}: saved {v!r}, loaded {w!r}')
        k = str(rng.choice(list(items)))
        o.save_data(items[k], k)  # saving again replaces
        v2 = rng.normal(size=(2, 1))
        o.save_data(v2, k)
        ctx.equal(o.load_data(k), v2, 'replace', k)
        before = snapshot(path)
        o.clean_data(k)
        after = snapshot(path)
        ctx.true(set(before) - set(after) == {k + '.npy'} and all(after[f] == before[f] for f in after), 'clean', f'{k}')
        o.clean_data(k)
        o.clean_data('never_there')
        ctx.true(snapshot(path) == after, 'clean', 'cleaning something that is not there')
    ctx.saw('items', n)


def sc_yaml(ctx, rng, i):
    """settings written next to the results are the settings that were used"""
    kind = ['eliash', 'optics', 'box', 'debug', 'output'][i % 5]
    extra = {f'x{j}': rand_value(rng) for j in range(int(rng.integers(0, 5)))}
    conf = {'eliash': {'n_eig': int(rng.integers(1, 4)), 'k_sym': str(rng.choice(['random', 'd-wave', 'p-wave-x'])), 'eps': float(10. ** rng.integers(-9, -2))},
            'optics': {'niw_cond': int(rng.integers(-1, 9)), 'do_bubble': bool(rng.integers(0, 2)), 'max_ent': {'nwr': 501, 'bw': [.1, .2], 'wmax': 1.5}},
            'box': {'niw_core': 4, 'niv_core': 5, 'niv_shell': int(rng.integers(0, 9))}, 'debug': {'keep_rank_files': bool(rng.integers(0, 2))}, 'output': {}}[kind]
    conf.update(extra)
    ctx.describe(kind=kind, conf=conf)
    with scratch() as path:
        with open(path + 'in.yaml', 'w') as fh:
            YAML().dump(conf, fh)
        loaded = YAML().load(open(path + 'in.yaml'))  # carries the attributes of the yaml reader
        src = loaded if i % 2 else conf
        src = src if src is not None else {}
        if kind == 'eliash':
            c = config.EliashbergConfig(src)
        elif kind == 'optics':
            c = config.OpticsConfig(src)
        else:
            base = {'box': config.BoxSizes, 'debug': config.DebugConfig, 'output': config.ConfigBase}[kind]
            c = config.OutputConfig()
            inner = base(src) if kind != 'output' else base()
            if kind == 'output':
                inner.update_dict(**src)
            c.inner = inner
        c.output_path = path
        flat = {k: v for k, v in c.__dict__.items() if not k.startswith('_')}
        if 'inner' in flat:
            flat['inner'] = {k: v for k, v in c.inner.__dict__.items() if not k.startswith('_')}
            for k, v in conf.items():
                ctx.true(same(v, flat['inner'][k]), 'taken', f'{k}: {v!r} became {flat["inner"][k]!r}')
        else:
            for k, v in conf.items():
                ctx.true(same(v, flat[k]), 'taken', f'{k}: {v!r} became {flat[k]!r}')
        c.to_yaml('out')
        back = YAML(typ='safe').load(open(path + 'out.yaml'))
        for k, v in flat.items():
            ctx.true(k in back and same(v, back[k]), 'yaml', f'{k}: was {v!r}, file has {back.get(k)!r}')
        ctx.true(set(back) == set(flat), 'yaml', f'{set(back) ^ set(flat)}')
        # the copy of the configuration file
        config.save_config_file(src, path.rstrip('/'))
        back = YAML(typ='safe').load(open(path + 'dga_config.yaml'))
        ctx.true(same(conf, back if back is not None else {}), 'config', f'{conf} became {back}')
    ctx.saw('settings', len(flat))


def sc_logger(ctx, rng, i):
    size = int(rng.integers(1, 6))
    msgs = [f'message {j} ' + str(rng.choice(['', 'é', '100%', ':'])) for j in range(int(rng.integers(1, 30)))]
    ctx.describe(nontrivial=size > 1, ranks=size, n=len(msgs))
    with scratch() as path:
        before = int(i % 2)
        if before:
            open(path + 'dga.log', 'w').write('log of an earlier run in this very folder\n')
        others = [loggers.MpiLogger(path + 'dga.log', FakeComm(r, size), path) for r in range(1, size)]
        ctx.true(os.path.exists(path + 'dga.log') == bool(before), 'root-only', 'another process created the log')
        lg = loggers.MpiLogger(path + 'dga.log', FakeComm(0, size), path)
        want = []
        for m in msgs:
            for o in [lg] + others:
                kind = int(rng.integers(0, 4))
                if kind == 0:
                    o.log_message(m)
                elif kind == 1:
                    o.log_event(m)
                elif kind == 2:
                    o.log_event(message=m)
                else:
                    o.log_cpu_time(task=m)
                if o is lg:
                    want.append(m)
        a = np.zeros(int(rng.integers(1, 50)), dtype=rng.choice(['complex128', 'float32']))
        ne = int(rng.integers(1, 5))
        for o in [lg] + others:
            o.log_memory_usage('obj', a, n_exists=ne)
        lines = open(path + 'dga.log', encoding='utf-8').read().split('\n')
        ctx.true(lines[-1] == '' and len(lines) == len(want) + 3, 'once', f'{len(lines)} lines for {len(want)} messages')
        for ln, m in zip(lines[1:], want):
            ctx.true(ln.endswith(' : ' + m), 'order', f'{ln!r} expected {m!r}')
        ctx.true(lines[-2].endswith(f'obj uses (GB): {a.nbytes * 1e-9 * ne:.6f}'), 'memory', lines[-2])
        ctx.true(lines[0].count(':') == 3, 'header', lines[0])
    ctx.close(util.mem(a), a.nbytes * 1e-9, 'memory', 'size of an array')
    ctx.saw('messages', len(want))


def sc_clock(ctx, rng, i):
    """elapsed times in the log: total since the start, and since the last event"""
    import re
    import time
    from unittest import mock
    real, now = time.time, [0.]
    t0 = real()
    gaps = [float(x) for x in rng.choice([.2, 1, 7, 59.8, 61, 3599, 3725.3, 90061, 200000], size=int(rng.integers(1, 12)))]
    ctx.describe(gaps=gaps)
    sec = lambda txt: sum(int(d) * 86400 for d in re.findall(r'(\d+) day', txt)) + sum(int(x) * f for x, f in zip(txt.split()[-1].split(':')[::-1], (1, 60, 3600)))
    clock = lambda: t0 + now[0]
    with scratch() as path, mock.patch('time.time', clock), mock.patch('time.perf_counter', clock), mock.patch('time.monotonic', clock):
        lg = loggers.MpiLogger(path + 'dga.log', FakeComm(0, 2), path)
        want, last = [], 0.
        for j, g in enumerate(gaps):
            now[0] += g
            if rng.random() < .3:
                lg.log_message('in between')
            elif rng.random() < .1:
                lg.rt.tot_time()
            else:
                lg.log_cpu_time(f'task {j}') if j % 2 else lg.log_event(f'task {j}')
                want.append((f'task {j}', now[0], now[0] - last))
                last = now[0]
        lines = [ln for ln in open(path + 'dga.log', encoding='utf-8').read().split('\n')[1:] if ' : task' in ln]
    ctx.true(len(lines) == len(want), 'once', f'{len(lines)} events for {len(want)}')
    for ln, (m, tot, task) in zip(lines, want):
        col = ln.split(' : ')
        ctx.true(len(col) == 4 and col[3] == m and re.fullmatch(r'\d\d:\d\d:\d\d', col[0]), 'columns', ln)
        ctx.true(abs(sec(col[1]) - tot) <= 1.01 and abs(sec(col[2]) - task) <= 1.01, 'times', f'{ln!r}: {tot} s since the start, {task} s since the last event')
        ctx.saw('events')
    ctx.true(True, 'done')


def sc_mpi(ctx, rng, i):
    size = i % 6 + 1
    with scratch() as base:
        inp, out = base + 'in/', base + 'out/'
        os.makedirs(inp), os.makedirs(out)
        cases = []
        for c in range(5 if ctx.thorough else 3):
            conf = {'lattice': {'symmetries': 'two_dimensional_square', 'type': 't_tp_tpp', 'hr_input': [1, 0, 0], 'nk': [6, 6, 1]},
                    'box_sizes': {'niw_core': 2, 'niv_core': int(rng.integers(2, 4)), 'niv_shell': 0}, 'dmft_input': {'input_path': inp}}
            if rng.random() < .5:
                conf['lattice']['nq'] = [[3, 3, 1], [2, 2, 1]][int(rng.integers(0, 2))] if size <= 3 else [6, 6, 1]
            if rng.random() < .5:
                conf['poly_fitting'] = {'n_fit': 3, 'o_fit': 2}
            cases.append({'conf': conf, 'messages': int(rng.integers(1, 7)), 'delays': [float(x) for x in rng.choice([0, 0, .001, .005, .02], size=7)]})
        ctx.describe(nontrivial=size > 1, ranks=size, cases=[(c['conf']['box_sizes']['niv_core'], c['messages'], 'poly_fitting' in c['conf']) for c in cases])
        with open(out + 'spec.json', 'w') as fh:
            json.dump({'cases': cases, 'out': out, 'base': inp}, fh)
        run_ranks(size, ['-m', 'harness.io_worker', out + 'spec.json'], out, 100)
        logs = [json.load(open(f'{out}log_{r}.json')) for r in range(size)]
        seen = set()
        for c, case in enumerate(cases):
            recs = [lg[c] for lg in logs]
            r0 = recs[0]
            for r, rec in enumerate(recs):
                for k in ('out', 'eliash', 'optics'):
                    ctx.true(rec[k] == r0[k], 'agree', f'rank {r} uses {rec[k]}, root {r0[k]}')
                ctx.true(all(rec['exists']), 'exists', f'rank {r}: folders missing after creation: {rec}')
            bs = case['conf']['box_sizes']
            nq = int(np.prod(case['conf']['lattice'].get('nq', [6, 6, 1])))
            name = f'LDGA_spch_Nk36_Nq{nq}_wc2_vc{bs["niv_core"]}_vs0'
            top = os.path.relpath(r0['out'], inp)
            ctx.true(top == name or top.startswith(name + '_'), 'name', f'{top}')
            ctx.true(top not in seen and top not in r0['before'], 'fresh', f'{top} was used before')
            seen.add(top)
            new = {top, top + '/Plots', top + '/Eliashberg', top + '/Optics'}
            if 'poly_fitting' in case['conf']:
                new.add(top + '/PolyFits')
                ctx.true(r0['poly'].rstrip('/').endswith('PolyFits'), 'poly', str(r0['poly']))
            ctx.true(set(r0['after']) - set(r0['before']) == new, 'added', f'{sorted(set(r0["after"]) - set(r0["before"]))} expected {sorted(new)}')
            lines = open(r0['out'] + 'dga.log', encoding='utf-8').read().strip('\n').split('\n')[1:]
            ctx.true([x[x.index('<'):] for x in lines if '<' in x] == [f'<{m} rank 0>' for m in range(case['messages'])] and len(lines) == case['messages'],
                     'log', f'{lines}')
            ctx.equal(np.load(r0['out'] + 'mark.npy'), [c], 'mark', 'result of an earlier run replaced')
            ctx.saw('runs')
        ctx.saw('mpi_processes', size)


SCENARIOS = [('clock', sc_clock, 12, 120), ('unique', sc_unique, 60, 800), ('data', sc_data, 40, 500), ('yaml', sc_yaml, 60, 800), ('logger', sc_logger, 20, 300),
             ('mpi', sc_mpi, 6, 60)]

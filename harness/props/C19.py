"""C19: distribution of work over MPI processes (real mpirun, random delays between collectives)."""
import json
import os

import numpy as np
from dga import mpi_aux
from harness.env import FakeComm, scratch
from harness.mpi import run_ranks
from harness.mpi_worker import block

RULE = ('each case starts 1-8 real MPI processes which run several random task lists (fewer, equal, more tasks than ranks; '
        'int/float/complex blocks with 0-3 trailing axes; any root) with random delays before each collective; every rank logs '
        'what it got and an offline checker audits the logs: exactly-once, order, values, files. Non-trivial: >1 rank')


def partition_ok(ctx, n, size, parts, sizes):
    flat = [t for p in parts for t in p]
    ctx.equal(np.array(flat), np.arange(n), 'exactly-once', f'{n} tasks on {size} ranks')
    ctx.equal(np.array([len(p) for p in parts]), np.array(sizes), 'sizes')
    ctx.true(max(sizes) - min(sizes) <= 1, 'balance', f'unbalanced {sizes}')


def sc_partition(ctx, rng, i):
    """every rank of a simulated communicator sees its part of the same ordered partition"""
    size = int(rng.integers(1, 65))
    n = int(rng.choice([rng.integers(0, size + 1), rng.integers(1, 400), size * rng.integers(1, 6)]))
    ctx.describe(nontrivial=size > 1, ntasks=n, ranks=size)
    ds = [mpi_aux.MpiDistributor(ntasks=n, comm=FakeComm(r, size)) for r in range(size)]
    for d in ds:
        ctx.equal(d.sizes, ds[0].sizes, 'sizes', 'ranks disagree about the partition')
        ctx.true(d.my_size == len(d.my_tasks) and d.mpi_size == size and d.is_root == (d.my_rank == 0), 'self', 'my_size/root')
        ctx.equal(np.arange(n)[d.my_slice], d.my_tasks, 'slice')
    partition_ok(ctx, n, size, [list(d.my_tasks) for d in ds], list(ds[0].sizes))
    ctx.saw('tasks', n)


def sc_mpi(ctx, rng, i):
    size = i % 8 + 1
    ncase = 16 if ctx.thorough else 8
    cases = []
    for c in range(ncase):
        n = int(rng.choice([rng.integers(1, size + 1), rng.integers(size, 4 * size + 2), rng.integers(1, 120)]))
        tail = [int(x) for x in rng.integers(1, 4, size=int(rng.integers(0, 4)))]
        cases.append({'ntasks': n, 'tail': tail, 'dtype': str(rng.choice(['complex128', 'float64', 'int64', 'complex64', 'float32'])),
                      'root': int(rng.integers(0, size)), 'everyone': bool(rng.integers(0, 2)),
                      'factory': bool(rng.integers(0, 2)), 'again': bool(rng.integers(0, 2)), 'slash': bool(rng.integers(0, 2)), 'name': str(rng.choice(['', 'Qiw', 'Q_'])),
                      'other': int(rng.integers(1, 50)), 'delete': sorted({int(x) for x in rng.integers(0, size, size=int(rng.integers(0, size + 1)))}),
                      'delays': [float(x) for x in rng.choice([0, 0, 0, .001, .004, .01], size=11)]})
    ctx.describe(nontrivial=size > 1, ranks=size, ntasks=[c['ntasks'] for c in cases], dtypes=[c['dtype'] for c in cases])
    with scratch() as out:
        out = out.rstrip('/')
        spec = os.path.join(out, 'spec.json')
        json.dump({'cases': cases, 'out': out}, open(spec, 'w'))
        run_ranks(size, ['-m', 'harness.mpi_worker', spec], out, 120)
        logs = [json.load(open(os.path.join(out, f'log_{r}.json'))) for r in range(size)]
        for c, case in enumerate(cases):
            recs = [lg[c] for lg in logs]
            n = case['ntasks']
            full = block(case, np.arange(n))
            where = f'case {c} ({n} tasks, {size} ranks)'
            partition_ok(ctx, n, size, [r['tasks'] for r in recs], recs[0]['sizes'])
            ctx.equal(np.array([t for r in recs for t in r['other']]), np.arange(case['other']), 'exactly-once', 'second distributor ' + where)
            names = sorted(case['name'] + f'Rank{r:05d}.hdf5' for r in range(size))
            total = np.array([full.sum(axis=0)]).ravel()
            for r, rec in enumerate(recs):
                ctx.true(rec['rank'] == r and rec['size'] == size and rec['root'] == (r == 0) and rec['ntasks'] == n, 'self', where)
                ctx.true(rec['my_size'] == len(rec['tasks']) and rec['sizes'] == recs[0]['sizes'], 'sizes', where)
                ctx.equal(np.arange(n)[slice(*rec['slice'])], np.array(rec['tasks'], dtype=int), 'slice', where)
                ctx.true(rec['bcast'] == {'case': c, 'root': case['root'], 'x': [1, 2.5, 'a'], 'a': [j * (case['root'] + 1) for j in range(4)]},
                         'bcast', f'{where} rank {r}: {rec["bcast"]}')
                a = np.load(os.path.join(out, f'arr_{c}_{r}.npz'))
                ctx.true(a['keep'][0], 'alias', 'input of the collectives modified')
                ctx.equal(a['allgather'], full, 'allgather', f'{where} rank {r}')
                ctx.true(a['allgather'].dtype == full.dtype, 'dtype', f'{a["allgather"].dtype}')
                if r == case['root']:
                    ctx.equal(a['gather'], full, 'gather', f'{where} root {r}')
                ctx.equal(a['scatter'], full[rec['tasks']], 'scatter', f'{where} rank {r}')
                ctx.true(a['scatter'].dtype == full.dtype, 'dtype', 'scatter')
                ctx.equal(a['other'], np.arange(case['other'])[:, None] * np.ones((1, 2)), 'allgather', 'second distributor')
                ctx.close(a['allreduce'], full * (size * (size + 1) // 2), 'allreduce', where, rtol=1e-5)
                if n:
                    ctx.close(a['reduce_own'].ravel(), total, 'allreduce', 'sum over ranks of the tasks', rtol=1e-4)
                ctx.true(rec['keys0'] == [] and rec['keys1'] == ['tasks'], 'file', f'{where}: file contents {rec["keys0"]} {rec["keys1"]}')
                ctx.true(rec['closed'], 'file', 'file left open after the context')
                ctx.true(rec['fname'] == case['name'] + f'Rank{r:05d}.hdf5', 'file', f'rank {r} wrote {rec["fname"]}')
                ctx.true(rec['files'] == names, 'file', f'{where}: {rec["files"]}')
                ctx.equal(np.array(rec['seen']), np.arange(n), 'file', f'{where}: tasks in the rank files')
                ctx.equal(np.concatenate([a[f'file{q}'] for q in range(size)]), full, 'file', 'data of the rank files in rank order')
                left = sorted(set(names) - {case['name'] + f'Rank{q:05d}.hdf5' for q in case['delete']})
                ctx.true(rec['left'] == left, 'delete', f'{where}: {rec["left"]} expected {left}')
                ctx.true(rec['end'] == [], 'delete', f'{where}: {rec["end"]}')
                ctx.saw('collectives', 7)
            ctx.saw('tasks', n)
        ctx.saw('mpi_processes', size)


SCENARIOS = [('partition', sc_partition, 60, 1000), ('mpi', sc_mpi, 16, 160)]

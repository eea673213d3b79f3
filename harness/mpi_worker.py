"""One rank of the MPI workload of C19: runs every case of a JSON list and records what it observed."""
import json
import os
import sys
import time
import traceback

import numpy as np


def block(case, tasks):
    """the array a set of tasks produces; every element encodes (task, position)"""
    tail = tuple(case['tail'])
    m = int(np.prod(tail)) if tail else 1
    x = np.asarray(tasks)[:, None] * 1000 + np.arange(m)[None, :] + 1
    if case['dtype'].startswith('complex'):
        x = x + 1j * (0.25 - x)
    elif case['dtype'].startswith('float'):
        x = x + 0.125
    return x.astype(case['dtype']).reshape((len(tasks),) + tail)


def run(case, c, comm, out, fdir, mpi_aux):
    import h5py
    rank, size = comm.Get_rank(), comm.Get_size()
    delays = case['delays']

    def wait(j):
        d = delays[(rank * 7 + j) % len(delays)]
        if d:
            time.sleep(d)
    make = mpi_aux.create_distributor if case['factory'] else mpi_aux.MpiDistributor
    d = make(ntasks=case['ntasks'], comm=comm, output_path=fdir + ('/' if case['slash'] else ''), name=case['name'])
    other = mpi_aux.MpiDistributor(ntasks=case['other'], comm=comm)  # two distributors live at the same time
    root = case['root'] % size
    rec = {'rank': int(d.my_rank), 'size': int(d.mpi_size), 'root': bool(d.is_root), 'ntasks': int(d.ntasks),
           'sizes': [int(x) for x in d.sizes], 'tasks': [int(x) for x in d.my_tasks], 'my_size': int(d.my_size),
           'slice': [int(d.my_slice.start), int(d.my_slice.stop)], 'other': [int(x) for x in other.my_tasks]}
    mine = block(case, np.array(rec['tasks'], dtype=int))
    keep = mine.copy()
    arr = {}
    wait(0)
    arr['allgather'] = d.allgather(mine)
    wait(1)
    g = d.gather(mine, root=root)
    if rank == root:
        arr['gather'] = g
    wait(2)
    full = block(case, np.arange(case['ntasks']))
    arr['scatter'] = d.scatter(full if rank == root or case['everyone'] else None, root=root)
    wait(3)
    arr['other'] = other.allgather(np.array(rec['other'], dtype=float)[:, None] * np.ones((1, 2)))
    payload = {'case': c, 'root': root, 'x': [1, 2.5, 'a'], 'a': np.arange(4) * (root + 1)}
    got = d.bcast(payload if rank == root else None, root=root)
    rec['bcast'] = {'case': got['case'], 'root': got['root'], 'x': got['x'], 'a': [int(v) for v in got['a']]}
    wait(4)
    arr['allreduce'] = d.allreduce(full * (rank + 1))
    if case['ntasks']:
        arr['reduce_own'] = d.allreduce(np.asarray(mine.sum(axis=0)) if np.ndim(mine.sum(axis=0)) else np.array([mine.sum()]))
    arr['keep'] = np.array([np.array_equal(mine, keep)])
    # the rank's own file: empty at first, contents survive closing and re-opening, closed outside the context
    with d as f:
        rec['keys0'] = sorted(f.keys())
        f['tasks'] = np.array(rec['tasks'], dtype=int)
        rec['fname'] = os.path.basename(f.filename)
    rec['closed'] = not bool(d.file)
    wait(5)
    if case.get('again'):  # an existing file is continued, not replaced
        d = make(ntasks=case['ntasks'], comm=comm, output_path=fdir + ('/' if case['slash'] else ''), name=case['name'])
    with d as f:
        rec['keys1'] = sorted(f.keys())
        f['data'] = mine
    comm.Barrier()
    rec['files'] = sorted(os.listdir(fdir))
    seen = []
    for r in range(size):  # every rank can read every file while nobody writes
        with h5py.File(os.path.join(fdir, case['name'] + f'Rank{r:05d}.hdf5'), 'r') as f:
            seen += [int(x) for x in f['tasks'][()]]
            arr[f'file{r}'] = f['data'][()]
    rec['seen'] = seen
    comm.Barrier()
    if rank in case['delete']:
        d.delete_file()
    comm.Barrier()
    rec['left'] = sorted(os.listdir(fdir))
    comm.Barrier()
    if rank not in case['delete']:
        d.delete_file()
    d.delete_file()  # deleting twice is harmless
    comm.Barrier()
    rec['end'] = sorted(os.listdir(fdir))
    comm.Barrier()
    np.savez(os.path.join(out, f'arr_{c}_{rank}.npz'), **arr)
    return rec


def main():
    spec = json.load(open(sys.argv[1]))
    from mpi4py import MPI
    comm = MPI.COMM_WORLD
    rank = comm.Get_rank()
    try:
        from dga import mpi_aux
        log = []
        for c, case in enumerate(spec['cases']):
            fdir = os.path.join(spec['out'], f'files_{c}')
            if rank == 0:
                os.makedirs(fdir, exist_ok=True)
            comm.Barrier()
            log.append(run(case, c, comm, spec['out'], fdir, mpi_aux))
            with open(os.path.join(spec['out'], f'log_{rank}.json'), 'w') as fh:
                json.dump(log, fh)
    except BaseException:
        with open(os.path.join(spec['out'], f'error_{rank:03d}'), 'w') as fh:
            fh.write(traceback.format_exc())
        time.sleep(.3)
        comm.Abort(1)


if __name__ == '__main__':
    main()

"""One rank of the distributed continuation of C25."""
import contextlib
import io
import os
import sys
import traceback
import warnings

import numpy as np


def main(d):
    from mpi4py import MPI
    from dga import analytic_continuation as ac
    from dga import mpi_aux
    comm = MPI.COMM_WORLD
    try:
        warnings.simplefilter('ignore')
        par = np.load(d + 'par.npy', allow_pickle=True).item()
        mat = np.load(d + 'in.npy') if comm.rank == 0 else None
        nk = comm.bcast(len(mat) if comm.rank == 0 else None, root=0)
        dist = mpi_aux.MpiDistributor(ntasks=nk, comm=comm, output_path=d, name='cont')
        m = ac.MaxEnt(par['beta'], 'freq_bosonic' if par['bos'] else 'freq_fermionic', comm=comm, **par['s'])
        with contextlib.redirect_stdout(io.StringIO()):
            r = ac.mpi_ana_cont(mat, m, dist, 'x')
        if comm.rank == 0:
            np.save(d + 'out.npy', r)
        dist.delete_file()
        open(d + f'ended_{comm.rank}', 'w').close()
    except BaseException:
        open(os.path.join(d, f'error_{comm.rank}'), 'w').write(traceback.format_exc())
        comm.Abort(1)


if __name__ == '__main__':
    main(sys.argv[1])

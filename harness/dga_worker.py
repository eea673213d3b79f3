"""One rank of a real DGA run: the production entry point with figures muted (argv: folder holding dga_config.yaml, seed, [figures])."""
import contextlib
import os
import sys
import time
import traceback

import numpy as np


def main():
    argv = sys.argv[1:]
    path = argv[0]
    seed = int(sys.argv[2]) if len(sys.argv) > 2 else 0
    from mpi4py import MPI
    rank = MPI.COMM_WORLD.Get_rank()
    try:
        from harness.env import no_plots
        from dga import dga_main
        np.random.seed(seed + rank)
        np.seterr(all='ignore')
        sys.argv = ['dga_main.py', '-c', 'dga_config.yaml', '-p', path]
        with no_plots() if 'figures' not in argv else contextlib.nullcontext():
            dga_main.main()
    except BaseException:
        with open(os.path.join(path, f'error_{rank:03d}'), 'w') as fh:
            fh.write(traceback.format_exc())
        time.sleep(.3)
        MPI.COMM_WORLD.Abort(1)


if __name__ == '__main__':
    main()

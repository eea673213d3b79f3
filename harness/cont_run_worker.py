"""One rank of the production continuation program on a finished run folder (argv: folder, [figures])."""
import contextlib
import os
import sys
import time
import traceback

import numpy as np


def main():
    path = sys.argv[1]
    from mpi4py import MPI
    rank = MPI.COMM_WORLD.Get_rank()
    try:
        from harness.env import no_plots
        from dga import dga_max_ent
        np.seterr(all='ignore')
        with no_plots() if 'figures' not in sys.argv else contextlib.nullcontext():
            dga_max_ent.main(path)
    except BaseException:
        with open(os.path.join(path, f'error_{rank:03d}'), 'w') as fh:
            fh.write(traceback.format_exc())
        time.sleep(.3)
        MPI.COMM_WORLD.Abort(1)


if __name__ == '__main__':
    main()

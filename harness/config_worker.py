"""One rank of the MPI workload of C22: every process reads the same command line (argv: spec.json -c file -p path)."""
import json
import os
import sys
import time
import traceback

import numpy as np


def plain(x):
    if isinstance(x, (np.floating, np.integer, np.bool_)):
        return x.item()
    if isinstance(x, np.ndarray):
        return x.tolist()
    if isinstance(x, dict):
        return {str(k): plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    if hasattr(x, '__dict__') and type(x).__module__.startswith('dga.config'):
        return {k: plain(v) for k, v in x.__dict__.items() if k not in ('comm', 'logger')}
    return x if isinstance(x, (str, int, float, bool, type(None))) else type(x).__name__


def main():
    spec = json.load(open(sys.argv[1]))
    sys.argv = ['dga_main'] + sys.argv[2:]
    from mpi4py import MPI
    comm = MPI.COMM_WORLD
    rank = comm.Get_rank()
    try:
        from dga import config
        rec = {}
        time.sleep(spec['delays'][rank % len(spec['delays'])])
        try:
            cfg, conf = config.parse_config_file(comm)
            rec = {'cfg': plain(cfg), 'conf': plain(conf), 'nk_irr': int(cfg.lattice.k_grid.nk_irr), 'irr': plain(cfg.lattice.k_grid.irrk_ind)}
        except ValueError as err:
            rec['error'] = str(err)
        with open(os.path.join(spec['out'], f'log_{rank}.json'), 'w') as fh:
            json.dump(rec, fh)
    except BaseException:
        with open(os.path.join(spec['out'], f'error_{rank:03d}'), 'w') as fh:
            fh.write(traceback.format_exc())
        time.sleep(.3)
        comm.Abort(1)


if __name__ == '__main__':
    main()

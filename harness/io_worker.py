"""One rank of the MPI workload of C21: folders and log of several runs started on the same input folder (argv: spec.json)."""
import json
import os
import sys
import time
import traceback


def tree(base):
    return sorted(os.path.relpath(os.path.join(r, d), base) for r, ds, _ in os.walk(base) for d in ds)


def main():
    spec = json.load(open(sys.argv[1]))
    from mpi4py import MPI
    comm = MPI.COMM_WORLD
    rank = comm.Get_rank()
    try:
        from dga import config
        log = []
        for c, case in enumerate(spec['cases']):
            d = case['delays']

            def wait(j):
                time.sleep(d[(rank * 5 + j) % len(d)])
            cfg = config.DgaConfig(case['conf'], comm=comm)
            wait(0)
            before = tree(spec['base'])
            comm.Barrier()
            wait(1)
            cfg.create_folders()
            rec = {'out': cfg.output_path, 'eliash': cfg.eliash.output_path, 'optics': cfg.optics.output_path,
                   'exists': [os.path.isdir(p) for p in (cfg.output_path, cfg.eliash.output_path, cfg.optics.output_path)]}
            if rank == 0:
                rec['pdir'], rec['poly'] = cfg.pdir, cfg.poly_fit_dir
                rec['exists'] += [os.path.isdir(p) for p in (cfg.pdir, cfg.poly_fit_dir) if p]
            wait(2)
            cfg.create_logger()
            comm.Barrier()
            for m in range(case['messages']):
                wait(m)
                [cfg.logger.log_message, cfg.logger.log_event, cfg.logger.log_cpu_time][m % 3](f'<{m} rank {rank}>')
            comm.Barrier()
            rec['before'], rec['after'] = before, tree(spec['base'])
            if rank == 0:
                cfg.save_data([c], 'mark')
            log.append(rec)
            comm.Barrier()
        with open(os.path.join(spec['out'], f'log_{rank}.json'), 'w') as fh:
            json.dump(log, fh)
    except BaseException:
        with open(os.path.join(spec['out'], f'error_{rank:03d}'), 'w') as fh:
            fh.write(traceback.format_exc())
        time.sleep(.3)
        comm.Abort(1)


if __name__ == '__main__':
    main()

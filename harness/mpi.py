"""Launching real MPI processes: every rank runs a worker module and leaves a log in a scratch folder."""
import glob
import os
import signal
import subprocess
import sys

from harness.core import Violation


def mpirun(n, argv, timeout, env=None, cwd=None):
    """-> (rc, output).  A run that does not end is killed as a group and reported as a hang."""
    cmd = ['mpirun', '-n', str(n), sys.executable] + argv
    e = dict(os.environ)
    e.update(env or {})
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=e, cwd=cwd, start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGTERM)
        try:
            p.communicate(timeout=5)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.communicate()
        raise Violation('hang', f'{n} ranks did not finish within {timeout} s')
    return p.returncode, out.decode(errors='replace')


def run_ranks(n, argv, logdir, timeout, env=None, cwd=None):
    """Runs the worker; a rank's exception (written to logdir/error_<rank>) is a violation."""
    rc, out = mpirun(n, argv, timeout, env, cwd)
    errs = sorted(glob.glob(os.path.join(logdir, 'error_*')))
    if errs:
        raise Violation('exception', f'{n} ranks: ' + open(errs[0]).read()[-900:])
    if rc != 0:
        raise Violation('exception', f'mpirun -n {n} ended with {rc}: {out[-900:]}')
    return out

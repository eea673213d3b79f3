"""Stand-ins for the surroundings of the code under test: simulated MPI ranks, scratch output folders, muted plots."""
import contextlib
import os
import shutil
import tempfile
from types import SimpleNamespace

import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt


class FakeComm:
    """One rank of a communicator; enough for code that only asks who it is (no collectives)."""

    def __init__(self, rank=0, size=1):
        self.rank, self.size = rank, size

    def Get_rank(self):
        return self.rank

    def Get_size(self):
        return self.size

    def bcast(self, x, root=0):
        assert self.size == 1
        return x

    def barrier(self):
        pass

    Barrier = barrier


class Log:
    def __getattr__(self, name):
        return lambda *a, **k: None


@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix='verif_dga_')
    try:
        yield d + '/'
    finally:
        shutil.rmtree(d, ignore_errors=True)


@contextlib.contextmanager
def no_plots():
    """Figures are built but not rendered to disk (rendering is not what is checked and takes most of the time)."""
    save = matplotlib.figure.Figure.savefig
    tight = matplotlib.figure.Figure.tight_layout
    matplotlib.figure.Figure.savefig = lambda *a, **k: None
    matplotlib.figure.Figure.tight_layout = lambda *a, **k: None
    import dga.plotting
    import dga.local_four_point
    muted = []
    for mod in (dga.plotting, dga.local_four_point):
        for name in dir(mod):
            if name.startswith('plot_') and callable(getattr(mod, name)):
                muted.append((mod, name, getattr(mod, name)))
                setattr(mod, name, lambda *a, **k: None)
    try:
        yield
    finally:
        for mod, name, fn in muted:
            setattr(mod, name, fn)
        matplotlib.figure.Figure.savefig = save
        matplotlib.figure.Figure.tight_layout = tight
        plt.close('all')


def out_cfg(path):
    from dga import config
    o = config.OutputConfig()
    o.output_path = path
    os.makedirs(path, exist_ok=True)
    return o

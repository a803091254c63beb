"""Builds the native kernels from /repo's working tree into a scratch directory and imports
dynaphopy from /repo with those builds.  Nothing is written below /repo."""
import atexit
import importlib.machinery
import importlib.util
import os
import shutil
import subprocess
import sys
import sysconfig
import tempfile

REPO = os.environ.get('VERIF_REPO', '/repo')
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

EXT = {'dynaphopy.power_spectrum.correlation': 'c/correlation.c',
       'dynaphopy.power_spectrum.mem': 'c/mem.c',
       'dynaphopy.displacements': 'c/displacements.c'}

_scratch = None
_owner = None


class BuildError(Exception):
    pass


def scratch():
    """Private scratch directory of this check, removed at exit by the process that made it."""
    global _scratch, _owner
    if _scratch is None:
        base = '/dev/shm' if os.path.isdir('/dev/shm') and os.access('/dev/shm', os.W_OK) else None
        _scratch = tempfile.mkdtemp(prefix='dsim.', dir=base)
        _owner = os.getpid()
        atexit.register(cleanup)
    return _scratch


def cleanup():
    if _scratch and os.getpid() == _owner:
        shutil.rmtree(_scratch, ignore_errors=True)


def include_flags():
    import numpy
    return ['-I' + sysconfig.get_paths()['include'], '-I' + numpy.get_include(), '-I' + os.path.join(REPO, 'c')]


def build_plain():
    """The kernels as shipped: same language level and OpenMP flag as setup.py."""
    out = {}
    procs = []
    d = os.path.join(scratch(), 'plain')
    os.makedirs(d, exist_ok=True)
    for name, src in EXT.items():
        so = os.path.join(d, name.split('.')[-1] + '.so')
        cmd = ['gcc', '-shared', '-fPIC', '-O2', '-std=c99', '-fopenmp', '-w'] + include_flags() + \
              [os.path.join(REPO, src), '-o', so, '-lm']
        procs.append((name, so, subprocess.Popen(cmd, stderr=subprocess.PIPE)))
    for name, so, p in procs:
        err = p.communicate()[1]
        if p.returncode:
            raise BuildError(err.decode(errors='replace'))
        out[name] = so
    return out


class SeamLoader(importlib.machinery.ExtensionFileLoader):
    """Loads a kernel module and puts its functions behind the seam of sim/faults.py."""

    def exec_module(self, module):
        super().exec_module(module)
        from sim import faults
        for n in dir(module):
            f = getattr(module, n)
            if callable(f) and not n.startswith('_') and not isinstance(f, type):
                setattr(module, n, faults.SEAM.wrap('kernel', n, f))


class Finder:
    def __init__(self, table, seams=False):
        self.table = table
        self.seams = seams

    def find_spec(self, name, path=None, target=None):
        if name in self.table:
            loader = (SeamLoader if self.seams else importlib.machinery.ExtensionFileLoader)(name, self.table[name])
            return importlib.util.spec_from_file_location(name, self.table[name], loader=loader)
        return None


def setup_env():
    os.environ.setdefault('OMP_NUM_THREADS', '1')
    os.environ.setdefault('OPENBLAS_NUM_THREADS', '1')
    os.environ['MPLBACKEND'] = 'Agg'
    mpl = os.path.join(scratch(), 'mpl')
    os.makedirs(mpl, exist_ok=True)
    os.environ['MPLCONFIGDIR'] = mpl
    sys.dont_write_bytecode = True


def boot(native=True, seams=False, table=None):
    """Import dynaphopy from REPO with freshly built kernels."""
    setup_env()
    if native:
        sys.meta_path.insert(0, Finder(table or build_plain(), seams))
    sys.path.insert(0, REPO)
    import warnings
    warnings.filterwarnings('ignore')
    if seams:
        from sim import faults
        faults.install()
    import dynaphopy
    got = os.path.realpath(dynaphopy.__file__)
    want = os.path.realpath(os.path.join(REPO, 'dynaphopy', '__init__.py'))
    if got != want:
        raise BuildError('imported %s instead of %s' % (got, want))
    return dynaphopy

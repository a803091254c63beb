"""The calls the code makes to its environment, as one seam: pass-through, counted, failing when told."""
import builtins
import errno
import functools
import io
import os
import sys


class Seam:
    def __init__(self):
        self.active = False
        self.depth = 0
        self.trace = None
        self.target = None       # index of the call that fails
        self.when = 'before'
        self.make = None
        self.fired = None
        self.group = None        # only calls of this group count (None: all)
        self.n = 0

    def start(self, group=None, target=None, when='before', make=None):
        self.active, self.depth, self.n, self.fired = True, 0, 0, None
        self.group, self.target, self.when, self.make = group, target, when, make
        self.trace = []

    def stop(self):
        self.active = False

    def call(self, group, name, fn, a, k):
        if not self.active or self.depth:
            return fn(*a, **k)
        mine = self.group is None or self.group == group
        i = self.n
        if mine:
            self.n += 1
            self.trace.append('%s.%s' % (group, name))
        hit = mine and self.target == i
        if hit and self.when == 'before':
            self.fired = '%s.%s' % (group, name)
            raise self.make()
        self.depth += 1
        try:
            res = fn(*a, **k)
        finally:
            self.depth -= 1
        if hit and self.when == 'after':
            self.fired = '%s.%s (after)' % (group, name)
            if name == 'File.__init__':
                a[0].close()   # the caller never gets the handle
            raise self.make()
        return res

    def wrap(self, group, name, fn):
        seam = self

        @functools.wraps(fn)
        def f(*a, **k):
            if not seam.active:
                return fn(*a, **k)
            return seam.call(group, name, fn, a, k)
        return f

    def patch(self, owner, name, group):
        fn = owner.__dict__.get(name) if isinstance(owner, type) else getattr(owner, name, None)
        if callable(fn):
            setattr(owner, name, self.wrap(group, '%s.%s' % (getattr(owner, '__name__', '?').split('.')[-1], name), fn))


SEAM = Seam()


class Entries:
    """Entries into the functions of the code under test, as places where an interrupt or lack of memory can strike. The session class
    and the settings (where a restoration may be under way) and the removal of temporary files are left out."""
    TOOL = 4

    def __init__(self):
        self.ready = False
        self.trace = None
        self.target = None
        self.fired = None
        self.make = None
        self.counts = {}
        self.names = {}

    def name(self, code):
        n = self.names.get(code)
        if n is None:
            f = code.co_filename
            ok = '/repo/dynaphopy/' in f and f != '/repo/dynaphopy/__init__.py' and not f.endswith('/parameters.py') and 'remove' not in code.co_name \
                and code.co_name not in ('__del__', '__exit__', '__enter__', '<module>') and not code.co_flags & 0x2a0
            n = self.names[code] = (os.path.basename(f)[:-3] if os.path.basename(f) != '__init__.py' else os.path.basename(os.path.dirname(f))) + '.' + code.co_qualname if ok else ''
        return n

    def enter(self, code, offset):
        n = self.name(code)
        if not n:
            return sys.monitoring.DISABLE
        if self.counts is None or SEAM.depth:
            return None
        i = self.counts.get(n, 0)
        self.counts[n] = i + 1
        if self.target == (n, i):
            self.target = None
            self.fired = 'code.%s entered for the %dth time' % (n, i + 1)
            raise self.make()
        return None

    def start(self, target=None, make=None):
        m = sys.monitoring
        if not self.ready:
            m.use_tool_id(self.TOOL, 'faults')
            m.register_callback(self.TOOL, m.events.PY_START, self.enter)
            self.ready = True
        self.counts, self.target, self.make, self.fired = {}, target, make, None
        m.restart_events()
        m.set_events(self.TOOL, m.events.PY_START)

    def stop(self):
        sys.monitoring.set_events(self.TOOL, 0)
        counts, self.counts = self.counts, None
        return counts


ENTRIES = Entries()


class Terminal(io.StringIO):
    """Standard output whose writes can fail."""

    def write(self, s):
        return SEAM.call('terminal', 'write', super().write, (s,), {})


class OutFile:
    """A file opened for writing; writes and the closing are calls to the environment."""

    def __init__(self, f):
        self.__dict__['f'] = f

    def __getattr__(self, n):
        v = getattr(self.f, n)
        return SEAM.wrap('file', n, v) if n in ('write', 'writelines', 'flush') else v

    def __enter__(self):
        self.f.__enter__()
        return self

    def __exit__(self, *a):
        if a[0] is None:
            try:
                SEAM.call('file', 'close', lambda: None, (), {})
            except BaseException:
                self.f.__exit__(*a)
                raise
        return self.f.__exit__(*a)

    def close(self):
        try:
            SEAM.call('file', 'close', lambda: None, (), {})
        finally:
            self.f.close()

    def __iter__(self):
        return iter(self.f)


def install():
    """Before the code under test is imported: it may import functions by name."""
    import numpy as np
    import phonopy
    import phonopy.file_IO
    import phonopy.harmonic.dynamical_matrix
    import phonopy.harmonic.dynmat_to_fc
    import phonopy.structure.symmetry
    import scipy.integrate
    import scipy.optimize
    import scipy.signal
    import h5py
    import matplotlib.pyplot as plt
    import pyfftw
    for n in ('__init__', 'run_mesh', 'run_total_dos', 'run_projected_dos', 'run_band_structure', 'run_qpoints', 'symmetrize_force_constants', 'produce_force_constants',
              'get_frequencies_with_eigenvectors', 'get_frequencies', 'get_dynamical_matrix_at_q', 'run_thermal_properties', 'get_mesh_dict', 'get_total_dos_dict'):
        SEAM.patch(phonopy.Phonopy, n, 'phonopy')
    SEAM.patch(phonopy.structure.symmetry.Symmetry, '__init__', 'phonopy')
    for n in ('__init__', 'run'):
        SEAM.patch(phonopy.harmonic.dynmat_to_fc.DynmatToForceConstants, n, 'phonopy')
    for n in ('parse_BORN', 'parse_FORCE_SETS', 'parse_FORCE_CONSTANTS', 'write_FORCE_CONSTANTS'):
        SEAM.patch(phonopy.file_IO, n, 'phonopy')
    for n in ('fft', 'ifft', 'fftfreq'):
        SEAM.patch(np.fft, n, 'numeric')
    for n in ('correlate', 'savetxt', 'linspace'):
        SEAM.patch(np, n, 'numeric')
    for n in ('eigh', 'inv', 'norm'):
        SEAM.patch(np.linalg, n, 'numeric')
    for n in ('curve_fit', 'minimize_scalar'):
        SEAM.patch(scipy.optimize, n, 'numeric')
    for n in ('quad', 'simpson'):
        SEAM.patch(scipy.integrate, n, 'numeric')
    SEAM.patch(scipy.signal, 'find_peaks_cwt', 'numeric')
    SEAM.patch(pyfftw, 'FFTW', 'numeric')
    for n in ('figure', 'plot', 'subplots', 'hist', 'bar', 'legend', 'suptitle', 'title', 'xlabel', 'ylabel', 'rcParams'):
        SEAM.patch(plt, n, 'plot')
    SEAM.patch(h5py.File, '__init__', 'file')
    SEAM.patch(h5py.Group, 'create_dataset', 'file')
    real_open = builtins.open

    def open_(file, mode='r', *a, **k):
        if SEAM.active and not SEAM.depth and isinstance(file, str) and any(c in mode for c in 'wax+'):
            return OutFile(SEAM.call('file', 'open', real_open, (file, mode) + a, k))
        return real_open(file, mode, *a, **k)
    builtins.open = open_


def maker(kind):
    return {'interrupt': lambda: KeyboardInterrupt('simulated interrupt'), 'memory': lambda: MemoryError('simulated lack of memory'),
            'os': lambda: OSError(errno.ENOSPC, 'simulated device failure'), 'runtime': lambda: RuntimeError('simulated library failure')}[kind]

"""Runs the command line programs of the repository, each time in a process of its own."""
import io
import os
import pickle
import runpy
import signal
import sys

import numpy as np

from sim import boot, crystals


class Ended:
    def __init__(self, status, text, exc=''):
        self.status, self.text, self.exc = status, text, exc

    @property
    def ok(self):
        return self.status == 0

    def __repr__(self):
        return '%s %s%s' % ('signal' if self.status < 0 else 'status', abs(self.status), ' (' + self.exc + ')' if self.exc else '')


def write_inputs(case, folder='.', fc_name='FORCE_CONSTANTS'):
    """POSCAR, FORCE_CONSTANTS and the input file of one crystal."""
    from phonopy.file_IO import write_FORCE_CONSTANTS
    c = crystals.CRYSTALS[case['crystal']]
    els = list(c['el'])
    kinds = []
    for e in els:
        if not kinds or kinds[-1][0] != e:
            kinds.append([e, 0])
        kinds[-1][1] += 1
    with open(os.path.join(folder, 'POSCAR'), 'w') as f:
        f.write('synthetic\n   1.0\n')
        for r in np.array(c['cell']):
            f.write(' %.15f %.15f %.15f\n' % tuple(r))
        f.write(' '.join(k[0] for k in kinds) + '\n' + ' '.join(str(k[1]) for k in kinds) + '\nDirect\n')
        for p in c['pos']:
            f.write(' %.15f %.15f %.15f\n' % tuple(p))
    write_FORCE_CONSTANTS(crystals.force_constants(case['crystal']), filename=os.path.join(folder, fc_name))
    pm = np.identity(3) if c['pm'] is None else np.array(c['pm'])
    with open(os.path.join(folder, 'input'), 'w') as f:
        f.write('STRUCTURE FILE POSCAR\nPOSCAR\n\nFORCE CONSTANTS\n%s\n\nPRIMITIVE MATRIX\n' % fc_name)
        for r in pm:
            f.write(' %.10f %.10f %.10f\n' % tuple(r))
        f.write('\nSUPERCELL MATRIX\n')
        for r in np.diag(c['fc']):
            f.write(' %d %d %d\n' % tuple(r))
        f.write('\nBANDS\n0.0, 0.0, 0.0    0.5, 0.0, 0.0\n0.5, 0.0, 0.0    0.5, 0.5, 0.0\n')
        if case.get('mesh'):
            f.write('\nMESH PHONOPY\n%d %d %d\n' % tuple(case['mesh']))


def finish():
    """What the end of a process does: exit functions, and the HDF5 library writes what it still holds."""
    import atexit
    import ctypes
    atexit._run_exitfuncs()
    with open('/proc/self/maps') as f:
        for l in f:
            name = l.split()[-1]
            if os.path.basename(name).startswith('libhdf5') and '_hl' not in name:
                ctypes.CDLL(name).H5close()
                break


def call(script, argv, before=None, after=None, timeout=200):
    """Run /repo/scripts/<script> argv; 'before' runs in the new process first, the value of 'after' comes back."""
    r, w = os.pipe()
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        out = io.StringIO()
        status, exc, extra = 0, '', None
        try:
            os.close(r)
            signal.alarm(timeout)
            sys.stdout = sys.stderr = out
            if before is not None:
                before()
            sys.argv = [script] + [str(a) for a in argv]
            try:
                runpy.run_path(os.path.join(boot.REPO, 'scripts', script), run_name='__main__')
            except SystemExit as e:
                status = 0 if e.code is None else (e.code if isinstance(e.code, int) else 1)
            except BaseException as e:
                status, exc = 1, '%s: %s' % (type(e).__name__, str(e)[:300])
            if after is not None:
                extra = after()
            finish()
            data = pickle.dumps((status, out.getvalue()[-400000:], exc, extra))
            with os.fdopen(w, 'wb') as f:
                f.write(data)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        data = f.read()
    _, st = os.waitpid(pid, 0)
    if not data:
        e = Ended(-os.WTERMSIG(st) if os.WIFSIGNALED(st) else 99, '', 'process ended without result')
        e.extra = None
        return e
    status, text, exc, extra = pickle.loads(data)
    e = Ended(status, text, exc)
    e.extra = extra
    return e

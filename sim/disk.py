"""The simulated disk (sim/disk.c, preloaded): builds it, loads it before anything else, drives it."""
import ctypes
import errno
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
KINDS = ('open', 'write', 'trunc', 'close', 'sync', 'rename', 'unlink')
NONE, ERR, SHORT, EINTR, CRASH, TORN, FULL = range(7)
NAMES = ('none', 'error', 'short write', 'interrupted call', 'crash before the call', 'crash in the middle of the write', 'disk full')
CRASH_STATUS = 137


def ensure():
    """Start this program again with the disk preloaded (system calls of h5py, numpy and Python all pass it)."""
    if os.environ.get('DSIM_DISK') == '1':
        os.environ.pop('LD_PRELOAD', None)     # programs started from here use the real disk
        d = os.environ.pop('DSIM_DISK_DIR', '')
        os.environ.pop('DSIM_DISK')
        shutil.rmtree(d, ignore_errors=True)   # it stays mapped
        global lib
        lib = ctypes.CDLL(None)
        for n in ('dsim_count', 'dsim_fired', 'dsim_size'):
            getattr(lib, n).restype = ctypes.c_long
        return
    base = '/dev/shm' if os.path.isdir('/dev/shm') and os.access('/dev/shm', os.W_OK) else None
    d = tempfile.mkdtemp(prefix='dsim-disk.', dir=base)
    so = os.path.join(d, 'disk.so')
    subprocess.run(['gcc', '-shared', '-fPIC', '-O1', '-w', os.path.join(HERE, 'disk.c'), '-o', so, '-ldl'], check=True)
    env = dict(os.environ, LD_PRELOAD=so, DSIM_DISK='1', DSIM_DISK_DIR=d)
    sys.stdout.flush()
    os.execve(sys.executable, [sys.executable] + list(sys.orig_argv[1:]), env)


lib = None


class Fault:
    """One plan of the disk."""

    def __init__(self, action=NONE, target=-1, arg=0, err=errno.EIO, sticky=False, mask=-1, capacity=0):
        self.__dict__.update(locals())

    def arm(self, folder):
        lib.dsim_arm(os.path.realpath(folder).encode(), self.action, ctypes.c_long(self.target), ctypes.c_long(self.arg), self.err, int(self.sticky), self.mask,
                     ctypes.c_long(self.capacity))


def heal():
    """The disk works again; system calls are still counted."""
    lib.dsim_heal()


def disarm():
    lib.dsim_disarm()


def count():
    return lib.dsim_count()


def fired():
    return lib.dsim_fired()


def trace():
    return [(KINDS[lib.dsim_kind(ctypes.c_long(i))], lib.dsim_size(ctypes.c_long(i))) for i in range(min(count(), 200000))]

"""The simulated native layer: the kernels compiled from /repo with instrumented memory accesses and linked against sim/native.c."""
import ctypes
import os
import subprocess
import sys

from sim import boot

lib = None
KINDS = ('free', 'malloc', 'numpy')
POLICIES = ('random', 'priorities', 'conflicts', 'sequential', 'round robin')
CONTENTS = ('zeros', 'NaN', 'random bits', '3.7e30', 'bytes AA', 'plausible numbers', '-0.001')
WRAP = ('malloc', 'calloc', 'realloc', 'free', 'posix_memalign', 'aligned_alloc', 'memcpy', 'memmove', 'memset')


def build():
    """{module name: shared object} of the instrumented kernels; loads the runtime."""
    global lib
    d = os.path.join(boot.scratch(), 'native')
    os.makedirs(d, exist_ok=True)
    rt = os.path.join(d, 'libnat.so')
    subprocess.run(['gcc', '-shared', '-fPIC', '-O2', '-w', os.path.join(os.path.dirname(os.path.abspath(__file__)), 'native.c'), '-o', rt], check=True)
    procs, out = [], {}
    for name, src in boot.EXT.items():
        so = os.path.join(d, name.split('.')[-1] + '.so')
        omp = [] if name.endswith('displacements') else ['-fopenmp']
        # compiled with the instrumentation, linked without its runtime
        obj = so[:-3] + '.o'
        flags = ['-fPIC', '-O1', '-fstack-protector-all', '-fno-builtin-malloc', '-std=c99', '-w', '-fsanitize=thread'] + omp
        cmd = 'set -e; "$@"; gcc -shared %s -o %s %s -L%s -lnat -Wl,-rpath,%s -lm' % (obj, so, ' '.join('-Wl,--wrap=' + w for w in WRAP), d, d)
        procs.append((name, so, subprocess.Popen(['bash', '-c', cmd, 'cc', 'gcc', '-c'] + flags + boot.include_flags() + [os.path.join(boot.REPO, src), '-o', obj],
                                                 stderr=subprocess.PIPE)))
    for name, so, p in procs:
        err = p.communicate()[1]
        if p.returncode:
            raise boot.BuildError(err.decode(errors='replace'))
        out[name] = so
    lib = ctypes.CDLL(rt)
    lib.nat_stat.restype = lib.nat_failed.restype = lib.nat_big.restype = ctypes.c_long
    lib.nat_hash.restype = ctypes.c_uint64
    lib.nat_message.restype = ctypes.c_char_p
    lib.nat_heap.argtypes = [ctypes.c_int, ctypes.c_uint64]
    lib.nat_plan.argtypes = [ctypes.c_size_t, ctypes.c_long, ctypes.c_long]
    lib.nat_schedule.argtypes = [ctypes.c_int, ctypes.c_int, ctypes.c_double, ctypes.c_uint64, ctypes.c_long]
    return out


_api = None


def _handlers():
    """PyDataMem_SetHandler through numpy's table of functions (NPY_API 305)."""
    global _api
    if _api is None:
        try:
            from numpy._core import _multiarray_umath as m
        except ImportError:
            from numpy.core import _multiarray_umath as m
        get = ctypes.pythonapi.PyCapsule_GetPointer
        get.restype, get.argtypes = ctypes.c_void_p, [ctypes.py_object, ctypes.c_char_p]
        table = ctypes.cast(get(m._ARRAY_API, None), ctypes.POINTER(ctypes.c_void_p))
        new = ctypes.pythonapi.PyCapsule_New
        new.restype, new.argtypes = ctypes.py_object, [ctypes.c_void_p, ctypes.c_char_p, ctypes.c_void_p]
        capsule = new(ctypes.addressof(ctypes.c_char.in_dll(lib, 'nat_handler')), b'mem_handler', None)
        _api = ctypes.PYFUNCTYPE(ctypes.py_object, ctypes.py_object)(table[304]), capsule
    return _api


class numpy_memory:
    """Within: numpy arrays live in simulated memory (1: guarded and accounted, 2: seeded contents only)."""

    def __init__(self, mode):
        self.mode = mode

    def __enter__(self):
        lib.nat_numpy(self.mode)
        f, capsule = _handlers()
        self.old = f(capsule)

    def __exit__(self, *a):
        _handlers()[0](self.old)


def heap(mode, seed):
    lib.nat_heap(mode, seed)


def plan(minimum=None, at=-1, count=0):
    lib.nat_plan(ctypes.c_size_t(-1).value if minimum is None else minimum, at, count)


def schedule(threads=1, policy=3, p=0.0, seed=0, span=0, granted=0):
    """granted: how many threads a region really gets of those asked for (0: all)."""
    lib.nat_schedule(threads, policy, p, seed, span)
    lib.nat_granted(granted)


def stats():
    return {n: lib.nat_stat(i) for i, n in enumerate(('blocks', 'arrays', 'block bytes', 'array bytes', 'violations', 'switches', 'accesses', 'regions', 'allocations', 'conflicts', 'filled'))}


def problem():
    lib.nat_scan()
    return lib.nat_message().decode() if lib.nat_stat(4) else None


def check_handler():
    """The handler is really in use."""
    import numpy as np
    before = lib.nat_stat(1)
    with numpy_memory(1):
        a = np.empty(10)
        return lib.nat_stat(1) == before + 1

"""Calls of the native kernels (and of the Python functions directly above them), generated and executed."""
import gc
import os
import signal
import sys

import numpy as np

from sim import crystals, native, readers
from sim import session as S

KERNELS = ('mem', 'corr', 'disp')
LAYOUTS = ('C', 'C', 'C', 'strided', 'reversed', 'column', 'readonly', 'list', 'bigendian', 'unaligned')
DTYPES = ('c16', 'c16', 'c16', 'c8', 'f8', 'f4', 'i8')
DATA = ('normal', 'normal', 'normal', 'normal', 'real', 'waves', 'zero', 'large', 'constant')
BAD = ('complex frequency', 'text', 'none', 'ragged', 'object', 'method', 'missing', 'unknown', 'text number', 'scalar', 'scalar', 'dimensions', 'dimensions', 'length', 'range', 'range')


def gen_call(rng, kinds=KERNELS, bad=0.0, small=False, functions=False):
    k = rng.choice(kinds)
    c = {'k': k, 'seed': rng.randrange(10 ** 6), 'data': rng.choice(DATA), 'dtype': rng.choice(DTYPES), 'layout': rng.choice(LAYOUTS), 'flayout': rng.choice(LAYOUTS)}
    c['n'] = rng.choice([2, 3, 5, 12, 25, 40]) if small else rng.choice([0, 1, 2, 3, 7, 20, 33, 64, 100])
    if k == 'disp':
        c['dim'] = rng.choice([3, 3, 3, 3, 2])
        c['cell'] = rng.choice(['cubic', 'general', 'negative', 'thin'])
        c['bad'] = rng.choice([b for b in BAD if b != 'method']) if rng.random() < bad else None
        return c
    c['nf'] = rng.choice([0, 1, 2, 3, 5, 8, 13, 21])
    c['dt'] = rng.choice([.02, .001, .5])
    if k == 'mem':
        c['coefficients'] = rng.choice([0, 1, 2, 3, 6, 10, 25, 60, 150, None])
    else:
        c['step'] = rng.choice([1, 1, 2, 3, 7, 10, 50, None])
        c['method'] = rng.choice([0, 1, 1, None])
    if functions and rng.random() < .25:
        c['function'] = True
        c['columns'] = rng.choice([1, 2, 5])
        c['n'] = max(c['n'], 20)
        c['nf'] = max(c['nf'], 3)
        if k == 'mem':
            c['coefficients'] = rng.choice([2, 5, 9])
    c['bad'] = rng.choice(BAD) if rng.random() < bad and not c.get('function') else None
    return c


def widen(rng, c, p=.05):
    """Now and then many data or frequencies: buffers are chosen in other ways."""
    if rng.random() >= p:
        return
    if c['k'] == 'disp':
        c['n'] = rng.choice([257, 600, 1025, 5000])
    elif rng.random() < .5:
        c['nf'], c['n'] = rng.choice([129, 257, 1030]), max(5, min(c['n'], 40))
        c['columns'] = 1
        if c['k'] == 'mem':
            c['coefficients'] = min(c['coefficients'] or 38, 40)
    else:
        c['n'], c['nf'] = rng.choice([257, 600, 1025, 3000]), min(c['nf'], 40)
        c['columns'] = 1
        if c['k'] == 'mem':
            c['coefficients'] = min(c['coefficients'] or 38, 40)
        else:
            c['step'] = c['n'] // 2


def laid_out(a, layout):
    if layout == 'list':
        return a.tolist()
    if layout == 'strided':
        b = np.empty((2 * len(a),) + a.shape[1:], dtype=a.dtype)
        b[:] = 7
        b[::2] = a
        return b[::2]
    if layout == 'reversed':
        return a[::-1].copy()[::-1]
    if layout == 'column':
        b = np.full(a.shape + (3,), 5, dtype=a.dtype)
        b[..., 1] = a
        return b[..., 1]
    if layout == 'bigendian':
        return a.astype(a.dtype.newbyteorder('>'))
    if layout == 'unaligned':
        b = np.zeros(a.nbytes + 1, dtype=np.uint8)[1:].view(a.dtype)
        b = b.reshape(a.shape)
        b[...] = a
        return b
    b = np.array(a)
    if layout == 'readonly':
        b.setflags(write=False)
    return b


def series(c, shape):
    r = np.random.RandomState(c['seed'] % (2 ** 31))
    d = c['data']
    if d == 'zero':
        v = np.zeros(shape, dtype=complex)
    elif d == 'constant':
        v = np.full(shape, 0.75 + 0.5j)
    elif d == 'waves':
        t = np.arange(shape[0]).reshape((-1,) + (1,) * (len(shape) - 1))
        v = np.zeros(shape, dtype=complex) + np.cos(.3 * t) + 1j * np.sin(.7 * t) + .01 * r.normal(size=shape)
    else:
        v = r.normal(size=shape) + 1j * r.normal(size=shape)
        if d == 'large':
            v = v * 1e5
    if c['dtype'] in ('f8', 'f4', 'i8') or d == 'real':
        v = v.real
    if c['dtype'] == 'i8':
        return np.round(v * 10).astype('i8')
    return v.astype({'c16': complex, 'c8': 'c8', 'f8': float, 'f4': 'f4'}[c['dtype']] if d != 'real' else ('f8' if c['dtype'] in ('c16', 'f8') else 'f4'))


def inputs(c):
    """(arguments, keywords) of a call."""
    bad = c.get('bad')
    r = np.random.RandomState((c['seed'] + 5) % (2 ** 31))
    if c['k'] == 'disp':
        dim = c['dim']
        cell = {'cubic': np.eye(dim) * 6., 'general': np.eye(dim) * 6 + r.uniform(-1, 1, (dim, dim)), 'negative': -np.eye(dim) * 4 + r.uniform(-.5, .5, (dim, dim)),
                'thin': np.diag([30., .8, 9.][:dim])}[c['cell']]
        t = series(c, (c['n'], dim))
        args = {'trajectory': laid_out(t, c['layout']), 'positions': laid_out(r.uniform(0, 6, dim), c['flayout']), 'cell': laid_out(cell, 'C' if c['flayout'] == 'list' else c['flayout'])}
        first, second = 'positions', 'trajectory'
        if c['n'] == 0:
            args['trajectory'] = np.zeros((0, dim), dtype=t.dtype)
    else:
        v = series(c, (c['n'],))
        args = {'frequency': laid_out(np.linspace(0.1, 20, c['nf']), c['flayout']), 'velocity': laid_out(v, c['layout']), 'time_step': c['dt']}
        for n, a in (('coefficients', 'coefficients'), ('step', 'step'), ('method', 'integration_method')):
            if c.get(n) is not None:
                args[a] = c[n]
        first, second = 'frequency', 'velocity'
    if bad == 'complex frequency':
        args[first] = np.array(args[first]) + 1j
    elif bad == 'text':
        args[second] = 'not numbers'
    elif bad == 'none':
        args[second] = None
    elif bad == 'ragged':
        args[second] = [[1, 2], [3]]
    elif bad == 'object':
        args[second] = np.array([object(), 1], dtype=object)
    elif bad == 'method':
        if c['k'] == 'corr':
            args['integration_method'] = 2 if c['seed'] % 2 else -1
        else:
            args['time_step'] = 'soon'
    elif bad == 'missing':
        args.pop(second if c['seed'] % 2 else first)
    elif bad == 'unknown':
        args['extra'] = 1
    elif bad == 'scalar':
        args[(first, second, 'cell' if c['k'] == 'disp' else first)[c['seed'] % 3]] = (0.5, np.array(2.0), np.array(1))[c['seed'] // 3 % 3]
    elif bad == 'dimensions':
        k = (first, second, 'cell' if c['k'] == 'disp' else second)[c['seed'] % 3]
        a = np.array(args[k])
        args[k] = a[None] if c['seed'] // 3 % 2 else (a[0] if a.ndim > 1 and len(a) else a[..., None])
    elif bad == 'length':
        if c['k'] == 'disp':
            k = (first, second, 'cell')[c['seed'] % 3]
            a = np.array(args[k])
            args[k] = a[..., :-1] if c['seed'] // 3 % 2 else np.concatenate([a, a], axis=-1)
    elif bad == 'range':
        if c['k'] == 'corr':
            args['step'] = (0, -1, -7)[c['seed'] % 3]
        elif c['k'] == 'mem':
            args['coefficients'] = (-1, -2, -50)[c['seed'] % 3]
    elif bad == 'text number':
        args['time_step' if c['k'] != 'disp' else 'cell'] = 'many'
    return args


def kernel(name):
    if name == 'mem':
        from dynaphopy.power_spectrum import mem
        return mem.mem
    if name == 'corr':
        from dynaphopy.power_spectrum import correlation
        return correlation.correlation_par
    from dynaphopy.displacements import atomic_displacements
    return atomic_displacements


class Failed:
    def __init__(self, e):
        self.kind = type(e).__name__
        self.text = str(e)[:200]

    def __str__(self):
        return 'raises %s (%s)' % (self.kind, self.text)


class Died:
    def __init__(self, text):
        self.text = text

    def __str__(self):
        return self.text


def apart(fn):
    """fn() in a process of its own, forked now; the result, or Died."""
    r, w = os.pipe()
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            signal.alarm(120)
            S.Oracle.send(w, fn())
        finally:
            os._exit(0)
    os.close(w)
    got = S.Oracle.recv(r)
    os.close(r)
    _, st = os.waitpid(pid, 0)
    if got is None:
        return Died('the process died with %s' % ('signal %d' % os.WTERMSIG(st) if os.WIFSIGNALED(st) else 'status %d' % os.WEXITSTATUS(st)))
    return got


class Call:
    """A call prepared: the inputs exist, the kernel can be run any number of times."""

    def __init__(self, c):
        self.c = c
        if c.get('function'):
            self.prepare_function(c)
        else:
            self.args = inputs(c)
            f = kernel(c['k'])
            self.run = lambda: f(**self.args)

    def prepare_function(self, c):
        from dynaphopy import power_spectrum as ps
        from dynaphopy.parameters import Parameters
        p = Parameters()
        p.silent = True
        p.frequency_range = np.linspace(0.1, 20, c['nf'])
        if c.get('coefficients') is not None:
            p.number_of_coefficients_mem = c['coefficients']
        p.correlation_function_step = c.get('step') or 10
        p.integration_method = c['method'] if c.get('method') is not None else 1
        vq = np.array(series(dict(c, dtype='c16'), (c['n'], c['columns'])), dtype=complex)
        dyn = crystals.dynamics('sc', (1, 1, 1), c['n'], c['dt'], 3, give=('velocity',))
        dyn.get_time_step_average()
        self.args = {'vq': vq}
        f = ps.get_mem_power_spectra if c['k'] == 'mem' else ps.get_fourier_direct_power_spectra
        self.run = lambda: f(vq, dyn, p)

    def __call__(self):
        native.lib.nat_begin()
        try:
            with readers.quiet(), np.errstate(all='ignore'):
                return self.run()
        except Exception as e:
            return Failed(e)
        except SystemExit as e:
            return Failed(e)
        finally:
            native.lib.nat_end()

    def image(self):
        """The inputs, for the comparison afterwards."""
        return {k: (v.dtype.str, v.tobytes()) if isinstance(v, np.ndarray) and v.dtype != object else repr(v) for k, v in self.args.items()}

    def arrays(self):
        return [v for v in self.args.values() if isinstance(v, np.ndarray)]


def difference(got, want, rtol=0.0):
    if isinstance(got, Failed) or isinstance(want, Failed):
        if isinstance(got, Failed) and isinstance(want, Failed):
            return None if got.kind == want.kind else '%s instead of %s' % (got, want)
        return '%s instead of %s' % (got if isinstance(got, Failed) else 'a result', want if isinstance(want, Failed) else 'a result')
    got, want = np.asarray(got), np.asarray(want)
    if got.shape != want.shape or got.dtype != want.dtype:
        return 'result is %s %s instead of %s %s' % (got.dtype, got.shape, want.dtype, want.shape)
    if np.array_equal(got, want, equal_nan=True):
        return None
    with np.errstate(all='ignore'):
        ok = np.isclose(got, want, rtol=rtol, atol=rtol * 1e-3 * (np.abs(want[np.isfinite(want)]).max() if np.isfinite(want).any() else 0), equal_nan=True)
    if ok.all():
        return None
    k = tuple(np.argwhere(~ok)[0])
    return 'element %s of %s is %r instead of %r (%d elements differ)' % (list(map(int, k)), list(got.shape), got[k], want[k], int((~ok).sum()))


def boot_kernels():
    from sim import boot
    boot.setup_env()
    boot.boot(table=native.build())
    import dynaphopy.power_spectrum  # noqa
    if not native.check_handler():
        raise RuntimeError('array memory is not simulated')
    gc.collect()

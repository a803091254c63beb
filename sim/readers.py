"""Drives the real trajectory readers over a simulated (torn, growing) trajectory file."""
import builtins
import contextlib
import io
import mmap as mmap_module
import os
import sys

import numpy as np

from sim import boot, crystals, mdfiles

READER_KINDS = {'xdatcar': 'read_VASP_XDATCAR', 'lammps_pos': 'read_lammps_trajectory',
                'lammps_vel': 'read_lammps_trajectory', 'outcar': 'read_vasp_trajectory'}
CELLS = [('sc', (1, 1, 1)), ('sc', (2, 1, 1)), ('ortho', (1, 1, 1)), ('ortho', (1, 2, 1)), ('hex', (1, 1, 1)), ('hex', (2, 1, 1)),
         ('tri', (1, 1, 1)), ('tri', (1, 1, 2)), ('cscl', (1, 1, 1)), ('ortho', (2, 2, 1))]


@contextlib.contextmanager
def quiet():
    old = sys.stdout
    sys.stdout = io.StringIO()
    try:
        yield sys.stdout
    finally:
        sys.stdout = old


class Writer:
    """The process writing the trajectory: appends the next chunk when the reader touches the file for the n-th time (open, map, read)."""

    def __init__(self, path, data, cut, chunks, out):
        self.path = os.path.abspath(path)
        self.data = data
        self.size = cut
        self.chunks = sorted([list(c) for c in chunks], key=lambda c: c[0])
        self.out = out
        self.touches = 0
        self.fault_at = None
        self.fired = False
        with open(self.path, 'wb') as f:
            f.write(data[:cut])

    def is_mine(self, target):
        try:
            if isinstance(target, int):
                return os.path.samestat(os.fstat(target), os.stat(self.path))
            return os.path.abspath(os.fspath(target)) == self.path
        except (OSError, TypeError, ValueError):
            return False

    def step(self, what, faulty=False):
        self.touches += 1
        while self.chunks and self.chunks[0][0] <= self.touches:
            n = self.chunks.pop(0)[1]
            if n > 0 and self.size < len(self.data):
                new = min(len(self.data), self.size + n)
                with self.real_open(self.path, 'ab') as f:
                    f.write(self.data[self.size:new])
                self.out.note('writer +%d bytes at touch %d, %s' % (new - self.size, self.touches, what))
                self.out.count('fault:file grew while being read')
                self.size = new
        if faulty:
            self.opens += 1
            if self.fault_at is not None and self.opens == self.fault_at:
                self.fired = True
                self.out.count('fault:read error')
                raise OSError(5, 'simulated I/O error')

    @contextlib.contextmanager
    def installed(self):
        self.real_open = builtins.open
        real_map = mmap_module.mmap
        me = self
        self.opens = 0

        class Raw(io.FileIO):
            def readinto(self, b):
                me.step('read')
                return super().readinto(b)

            def readall(self):
                me.step('read')
                return super().readall()

        def open_(file, mode='r', *a, **k):
            if not me.is_mine(file):
                return me.real_open(file, mode, *a, **k)
            me.step('open', True)
            if a or set(k) - {'encoding', 'errors', 'newline'} or not set(mode) <= set('rbt+'):
                return me.real_open(file, mode, *a, **k)
            raw = Raw(file, mode.replace('b', '').replace('t', ''))
            f = io.BufferedRandom(raw) if '+' in mode else io.BufferedReader(raw)
            return f if 'b' in mode else io.TextIOWrapper(f, **k)

        class Map(real_map):
            def __new__(cls, fd, *a, **k):
                mine = fd != -1 and me.is_mine(fd)
                if mine:
                    me.step('map', True)
                m = real_map.__new__(cls, fd, *a, **k)
                m.mine = mine
                return m

        def touching(name):
            real = getattr(real_map, name)

            def f(m, *a, **k):
                if m.mine:
                    me.step(name)
                return real(m, *a, **k)
            return f
        for name in ('readline', 'read', 'find', 'rfind', 'seek', 'size', 'tell', '__getitem__', '__len__'):
            setattr(Map, name, touching(name))
        builtins.open = open_
        mmap_module.mmap = Map
        try:
            yield self
        finally:
            builtins.open = self.real_open
            mmap_module.mmap = real_map


def make_file(case):
    rng = np.random.RandomState(case['seed'] % (2 ** 31))
    n = len(crystals.lattice(case['crystal'], case['dims']))
    perm = rng.permutation(n) if case.get('perm') else None
    f = mdfiles.build(case['kind'], case['crystal'], tuple(case['dims']), case['frames'], case['seed'], style=case.get('style', 0),
                      dt=case.get('dt', 0.002), every=case.get('every', 1), start=case.get('start', 0), perm=perm,
                      trailing=case.get('trailing', False), nl=case.get('nl', '\n'))
    return f, perm


def make_structure(case, forces=False):
    s = crystals.structure(case['crystal'], forces=forces)
    rot = None
    if case.get('rot') and case['kind'].startswith('lammps'):
        rot = mdfiles.rotation(case['seed'])
        s.set_cell(np.dot(np.array(crystals.CRYSTALS[case['crystal']]['cell'], dtype=float), rot))
    return s, rot


def call_reader(path, case, structure, f, perm, memmap, route=None):
    """The public reading functions, as scripts/dynaphopy uses them."""
    import dynaphopy.interface.iofile as iofile
    import dynaphopy.interface.iofile.trajectory_parsers as tp
    route = route or case.get('route', 'direct')
    fn = getattr(tp, READER_KINDS[case['kind']])
    if route == 'detect':
        fn = iofile.get_trajectory_parser(path)
        if fn is None:
            raise ValueError('format not recognised')
    kw = {}
    if case.get('first') is not None:
        kw['initial_cut'] = case['first']
    if case.get('last_step') is not None:
        kw['end_cut'] = case['last_step']
    if case.get('tail') is not None:
        kw['last_steps'] = case['tail']
    return fn(path, structure=structure, time_step=f.time_step, memmap=memmap,
              template=None if perm is None else np.array(perm), **kw)


def delivered(dyn, kind):
    """What the reader gives to the calculation: frames, time, energy."""
    frames = dyn.velocity if kind == 'lammps_vel' else dyn.trajectory
    frames = np.array(frames)
    energy = dyn.get_energy() if kind == 'outcar' else None
    return frames, np.array(dyn.get_time(), dtype=float), None if energy is None else np.array(energy, dtype=float)


def expected(f, rot, count, first, last_step, tail):
    """Reference model: the window over the first `count` frames of the file."""
    idx = list(range(count))[(first or 1) - 1:]
    if last_step is not None:
        idx = [i for i in idx if i < last_step]
    if tail is not None:
        idx = idx[-tail:]
    vals = np.array([f.frames[i]['values'] for i in idx]) if idx else np.zeros((0,) + f.frames[0]['values'].shape)
    if rot is not None and len(idx):
        vals = np.dot(vals, rot)
    t = np.array([f.frames[i]['time'] for i in idx])
    e = np.array([f.frames[i]['energy'] for i in idx]) if f.kind == 'outcar' else None
    return vals, t, e


def compare(got, exp, kind):
    """None or a description of the first disagreement."""
    gv, gt, ge = got
    ev, et, ee = exp
    if gv.shape != ev.shape:
        if len(ev) == 0 and len(gv) == 0:
            pass
        else:
            return 'frames delivered %s, expected %s' % (gv.shape, ev.shape)
    if len(gt) != len(et):
        return 'time axis has %d entries for %d frames' % (len(gt), len(ev))
    if len(ev) == 0:
        return None
    if not np.allclose(gv, ev, rtol=1e-9, atol=1e-8):
        d = np.abs(gv - ev).reshape(len(ev), -1).max(axis=1)
        i = int(np.argmax(~(d < 1e-8)))
        return 'frame %d of the window is not the frame of the file (largest difference %.3e)' % (i, d[i])
    if kind == 'outcar':
        ok = np.allclose(np.diff(gt), np.diff(et), rtol=1e-6, atol=1e-9)
    else:
        ok = np.allclose(gt, et, rtol=1e-6, atol=1e-9)
    if not ok:
        return 'time axis %s..., expected %s...' % (gt[:4], et[:4])
    if ee is not None and (ge is None or len(ge) != len(ee) or not np.allclose(ge, ee, rtol=1e-9, atol=1e-8)):
        return 'energies %s, expected %s' % (None if ge is None else ge[:4], ee[:4])
    return None


def workdir():
    d = os.path.join(boot.scratch(), 'run.%d' % os.getpid())
    os.makedirs(d, exist_ok=True)
    return d


def drop_workdir(pid):
    import shutil
    shutil.rmtree(os.path.join(boot.scratch(), 'run.%d' % pid), ignore_errors=True)

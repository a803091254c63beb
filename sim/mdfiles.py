"""Synthetic trajectory files (the 'writer' process of the simulation) and the reference model of
what a reader may deliver from any prefix of them.

A file is built as a list of frames; for each frame we know
    start        first byte of the frame
    full         byte after which the frame is certainly complete (its last line has its newline)
    tokens       byte after which every token of the frame is literally present
    values       the numbers exactly as they stand in the text
    time, energy
"""
import numpy as np

from sim import crystals

FORMATS = ('xdatcar', 'lammps_pos', 'lammps_vel', 'outcar')


class MDFile:
    def __init__(self):
        self.data = b''
        self.frames = []
        self.header_end = 0
        self.time_step = None       # argument to give to the reader (None: the file tells)
        self.dt = None              # time between consecutive frames
        self.kind = None

    def complete(self, nbytes):
        return sum(1 for f in self.frames if f['full'] <= nbytes)

    def possible(self, nbytes):
        return sum(1 for f in self.frames if f['tokens'] <= nbytes)


def _fmt(style, x):
    if style == 0:
        return '%12.8f' % x
    if style == 1:
        return '%16.10f' % x
    if style == 2:
        return '%.7g' % x
    return '%.9e' % x


def build(kind, crystal, dims, nframes, seed, style=0, dt=0.002, every=1, start=0, perm=None, trailing=False, rot=False, nl='\n'):
    """Build a whole trajectory file.  perm[i] = supercell index of the atom stored at file row i."""
    rng = np.random.RandomState(seed % (2 ** 31))
    out = MDFile()
    out.kind = kind
    u, v = crystals.displacements(crystal, dims, nframes, dt * every, seed)
    cell = crystals.supercell(crystal, dims)
    pos = crystals.wrapped(crystal, dims, u)
    n = pos.shape[1]
    order = np.arange(n) if perm is None else np.array(perm)
    buf = []
    size = 0

    def put(s):
        nonlocal size
        b = s.encode()
        buf.append(b)
        size += len(b)

    tail = ' ' if trailing else ''
    els = crystals.elements(crystal, dims)
    if kind == 'xdatcar':
        put('synthetic system' + nl + '           1' + nl)
        for row in cell:
            put(' %12.8f %12.8f %12.8f' % tuple(row) + nl)
        names = crystals.CRYSTALS[crystal]['el']
        per = int(np.prod(dims))
        put('   ' + '  '.join(names) + nl)
        put('  ' + '  '.join(str(per) for _ in names) + nl)
        out.header_end = size
        inv = np.linalg.inv(cell)
        for k in range(nframes):
            fr = {'start': size}
            stamp = start + 1 + k * every
            put('Direct configuration=%6d' % stamp + nl)
            vals = []
            rows = np.dot(pos[k], inv)[order]
            for r, row in enumerate(rows):
                toks = [_fmt(style, x) for x in row]
                put('  ' + ' '.join(toks))
                if r == n - 1:
                    fr['tokens'] = size
                put(tail + nl)
                vals.append([float(t) for t in toks])
            fr['full'] = size
            sv = np.zeros((n, 3))
            sv[order] = np.array(vals)
            fr['values'] = np.dot(sv, np.array([[float('%12.8f' % x) for x in row] for row in cell]))
            fr['time'] = stamp * dt
            out.frames.append(fr)
        out.time_step = dt
    elif kind in ('lammps_pos', 'lammps_vel'):
        triclinic = abs(cell[1, 0]) + abs(cell[2, 0]) + abs(cell[2, 1]) > 1e-9
        xy, xz, yz = cell[1, 0], cell[2, 0], cell[2, 1]
        lo = np.round(rng.uniform(-1, 1, 3), 3) if style == 1 else np.zeros(3)
        hi = lo + np.diag(cell)
        src = pos if kind == 'lammps_pos' else v
        for k in range(nframes):
            fr = {'start': size}
            stamp = start + k * every
            put('ITEM: TIMESTEP' + nl + '%d' % stamp + nl + 'ITEM: NUMBER OF ATOMS' + nl + '%d' % n + nl)
            if triclinic:
                put('ITEM: BOX BOUNDS xy xz yz pp pp pp' + nl)
                put('%.12f %.12f %.12f' % (lo[0] + min(0, xy, xz, xy + xz), hi[0] + max(0, xy, xz, xy + xz), xy) + nl)
                put('%.12f %.12f %.12f' % (lo[1] + min(0, yz), hi[1] + max(0, yz), xz) + nl)
                put('%.12f %.12f %.12f' % (lo[2], hi[2], yz) + nl)
            else:
                put('ITEM: BOX BOUNDS pp pp pp' + nl)
                for j in range(3):
                    put('%.12f %.12f' % (lo[j], hi[j]) + nl)
            put('ITEM: ATOMS ' + ('x y z' if kind == 'lammps_pos' else 'vx vy vz') + tail + nl)
            if k == 0:
                out.header_end = size
            vals = []
            for r, row in enumerate(src[k][order]):
                toks = [_fmt(style, x) for x in row]
                put('  ' + ' '.join(toks))
                if r == n - 1:
                    fr['tokens'] = size
                put(tail + nl)
                vals.append([float(t) for t in toks])
            fr['full'] = size
            sv = np.zeros((n, 3))
            sv[order] = np.array(vals)
            fr['values'] = sv
            fr['time'] = stamp * dt
            out.frames.append(fr)
        out.time_step = dt
    elif kind == 'outcar':
        names = crystals.CRYSTALS[crystal]['el']
        per = int(np.prod(dims))
        put(' vasp.5.synthetic' + nl)
        put('   POMASS = ' + ''.join('%6.2f' % 20.0 for _ in names) + nl)
        put('   number of dos      NEDOS =    301   number of ions     NIONS =  %5d' % n + nl)
        put('   ions per type =   ' + ' '.join('%6d' % per for _ in names) + nl)
        put('   POTIM  = %.4f    time-step for ionic-motion' % (dt * every * 1000) + nl)
        put('      direct lattice vectors                 reciprocal lattice vectors' + nl)
        rec = np.linalg.inv(cell).T
        for j in range(3):
            put('   %12.8f %12.8f %12.8f  ' % tuple(cell[j]) + '  %12.8f %12.8f %12.8f' % tuple(rec[j]) + nl)
        put(nl)
        put(' position of ions in cartesian coordinates  (Angst):' + nl)
        for row in pos[0][order]:
            put('   %11.8f  %11.8f  %11.8f' % tuple(row) + nl)
        put('  positions in direct lattice' + nl + nl)
        out.header_end = size
        e0 = -45.0
        for k in range(nframes):
            for it in range(2):
                put('  energy without entropy =      %14.8f  energy(sigma->0) =      %14.8f' % (e0 - 9 + it - k, e0 - 9 + it - k) + nl)
            fr = {'start': size}
            put(' POSITION                                       TOTAL-FORCE (eV/Angst)' + nl)
            put(' ' + '-' * 83 + nl)
            vals = []
            for row in pos[k][order]:
                toks = ['%12.5f' % x for x in row]
                put('  ' + ' '.join(toks) + '     %12.6f %12.6f %12.6f' % tuple(-row * 0.01) + nl)
                vals.append([float(t) for t in toks])
            put(' ' + '-' * 83 + nl)
            put('    total drift:                                0.000000      0.000000      0.000000' + nl + nl)
            put('  FREE ENERGIE OF THE ION-ELECTRON SYSTEM (eV)' + nl)
            e = round(e0 - 0.37 * k + 0.01 * (k % 7), 8)
            put('  free  energy   TOTEN  =  %18.8f eV' % e + nl + nl)
            put('  energy  without entropy=  %16.8f  energy(sigma->0) =  %16.8f' % (e, e))
            fr['tokens'] = size
            put(nl)
            fr['full'] = size
            put(nl + ' d Force = 0.0000000E+00[ 0.000E+00, 0.000E+00]  d Energy = 0.5313663E-03-0.531E-03' + nl)
            sv = np.zeros((n, 3))
            sv[order] = np.array(vals)
            fr['values'] = sv
            fr['energy'] = e
            fr['time'] = k * float('%.4f' % (dt * every * 1000)) * 1e-3
            out.frames.append(fr)
        out.time_step = None
    else:
        raise ValueError(kind)
    out.dt = dt * every
    out.data = b''.join(buf)
    return out


def rotation(seed):
    rng = np.random.RandomState(seed % (2 ** 31))
    q, r = np.linalg.qr(rng.normal(size=(3, 3)))
    q = q * np.sign(np.diag(r))
    if np.linalg.det(q) < 0:
        q[:, 0] *= -1
    return q

"""A simulated molecular dynamics engine with the programming interface of the 'lammps' Python module.

The engine owns the physical atoms (in DynaPhoPy's lattice order: physical atom p), gives each an
identity number (any permutation, possibly with gaps of numbering not used by the engine: no), keeps them in
storage slots in any order and re-orders the slots whenever it runs.  Pointers handed out read the
engine's memory as it is when they are read; after a reallocation an old pointer reads freed memory.
Everything is a pure function of the configuration (one dictionary) and of the commands."""
import sys
import types

import numpy as np

from sim import crystals

CONFIG = None       # set before the code under test imports 'lammps'
LAST = []           # engines created, newest last


class EngineError(Exception):
    pass


class Pointer:
    """What extract_atom returns: a raw view of engine memory."""

    def __init__(self, engine, name):
        self.engine, self.name, self.generation = engine, name, engine.generation

    def __getitem__(self, i):
        return self.engine.read(self.name, i, self.generation)

    def __len__(self):
        raise TypeError('pointer has no length')


class Row:
    def __init__(self, v):
        self.v = v

    def __getitem__(self, k):
        if not 0 <= k < 3:
            return -7.7e77
        return float(self.v[k])


class lammps:
    def __init__(self, name='', cmdargs=None, ptr=None, comm=None):
        c = self.c = dict(CONFIG)
        self.log = []
        self.calls = 0
        self.rng = np.random.RandomState(c['seed'] % (2 ** 31))
        self.dims = None
        self.dt = 0.001
        self.steps = 0
        self.created = None        # temperature of the velocities, None: all zero
        self.thermostat = None
        self.relaxing = 0
        self.energy_variable = False
        self.ran = False
        self.closed = False
        self.generation = 0
        self.cmdargs = list(cmdargs or [])
        LAST.append(self)

    # ------------------------------------------------------------------------------ commands
    def _tick(self, what):
        if self.closed:
            raise EngineError('engine used after close')
        n = self.calls
        self.calls += 1
        self.log.append(what)
        if self.c.get('err_at') is not None and n == self.c['err_at']:
            self.c['fired'] = CONFIG['fired'] = what
            raise EngineError('ERROR: simulated engine error')

    def file(self, name):
        self._tick('file')
        with open(name) as f:
            f.read()
        self.dims = tuple(self.c['base'])
        self.created = self.c['file_velocities']

    def command(self, cmd):
        self._tick(cmd)
        w = cmd.split()
        if not w:
            return
        if w[0] == 'timestep':
            self.dt = float(w[1])
        elif w[0] == 'replicate':
            if self.dims is None or self.ran:
                raise EngineError('replicate before simulation box is defined')
            self.dims = tuple(int(a) * b for a, b in zip(w[1:4], self.dims))
        elif w[0] == 'fix':
            if 'temp' in w:
                i = w.index('temp')
                self.thermostat = (float(w[i + 1]), float(w[i + 2]), float(w[i + 3]))
        elif w[0] == 'velocity':
            if w[2] == 'create':
                self.created = float(w[3])
                int(w[4])
            elif w[2] == 'scale':
                if self.created is None:
                    raise EngineError('attempting to rescale a 0.0 temperature')
                self.created = float(w[3])
            else:
                raise EngineError('unknown velocity style ' + w[2])
        elif w[0] == 'variable':
            self.energy_variable = w[2:] == ['equal', 'pe'] and w[1]
        elif w[0] == 'run':
            n = int(w[1])
            if self.dims is None:
                raise EngineError('run before simulation box is defined')
            self._setup()
            self.steps += n
            self._rearrange()
            self.ran = True
        elif w[0] in ('reset_timestep', 'unfix', 'thermo', 'thermo_style', 'minimize'):
            raise EngineError('command not simulated: ' + cmd)
        else:
            raise EngineError('unknown command ' + cmd)

    def _setup(self):
        if self.ran:
            return
        c = self.c
        self.sites = crystals.lattice(c['crystal'], self.dims)
        self.cell = crystals.supercell(c['crystal'], self.dims)
        n = self.n = len(self.sites)
        r = np.random.RandomState((c['seed'] * 31 + 7) % (2 ** 31))
        self.freq = r.uniform(1, 9, size=6)
        self.amp = r.normal(size=(6, n, 3)) * 0.02
        self.ph = r.uniform(0, 2 * np.pi, size=(6, n, 3))
        if c['numbering'] == 'lattice':
            self.ident = np.arange(n) + 1
        elif c['numbering'] == 'cell':     # replicate: all atoms of one cell, then the next cell
            nc = n // len(crystals.CRYSTALS[c['crystal']]['el'])
            k = np.arange(n)
            self.ident = (k % nc) * (n // nc) + k // nc + 1
        else:
            self.ident = r.permutation(n) + 1
        self.slots = np.arange(n)
        self.image = np.zeros((n, 3))

    def _rearrange(self):
        c = self.c
        how = c['reorder']
        if not self.ran:
            self.slots = {'none': np.argsort(self.ident)}.get(how, None)
            if self.slots is None:
                self.slots = self.rng.permutation(self.n) if c['first_shuffled'] else np.argsort(self.ident)
        elif how == 'always' or (how == 'sometimes' and self.rng.rand() < .4):
            self.slots = self.rng.permutation(self.n)
        elif how == 'swap':
            a, b = self.rng.randint(self.n, size=2)
            self.slots = self.slots.copy()
            self.slots[[a, b]] = self.slots[[b, a]]
        elif how == 'rotate':
            self.slots = np.roll(self.slots, 1)
        if c['realloc'] and self.rng.rand() < c['realloc']:
            self.generation += 1
        if not self.ran or self.rng.rand() < c['rewrap']:
            f = np.dot(self.position(self.steps) - self.lo(), np.linalg.inv(self.cell))
            self.image = -np.floor(f)

    # -------------------------------------------------------------------------------- physics
    def lo(self):
        return np.dot(np.array(self.c['origin']), np.diag(np.diag(self.cell)))

    def heat(self, created=None, thermostat=None):
        t = self.thermostat[0] if self.thermostat is not None else self.created
        return 0.0 if t is None else np.sqrt(max(t, 0) / 300.)

    def displacement(self, step):
        arg = 2 * np.pi * self.freq[:, None, None] * step * self.dt + self.ph
        u = np.cos(arg)
        if self.c['perfect_start']:
            u = u - np.cos(self.ph)
        return np.sum(self.amp * u, axis=0) * self.heat()

    def position(self, step):
        return self.sites + self.displacement(step)

    def velocity(self, step):
        arg = 2 * np.pi * self.freq[:, None, None] * step * self.dt + self.ph
        return -np.sum(self.amp * 2 * np.pi * self.freq[:, None, None] * np.sin(arg), axis=0) * self.heat()

    def pe(self, step):
        return -3.5 * self.n + 0.001 * step + 0.1 * np.sin(0.37 * step)

    # -------------------------------------------------------------------------------- queries
    def read(self, name, i, generation):
        n = self.n
        if generation != self.generation:
            return -987654321 if name == 'id' else Row([9.9e99] * 3)
        if i < 0 or i >= n + self.c['ghosts']:
            return 10 ** 9 if name == 'id' else Row([-9.9e99] * 3)
        p = self.slots[i] if i < n else self.slots[(i * 7) % n]
        if name == 'id':
            return int(self.ident[p])
        if name == 'x':
            x = self.position(self.steps)[p] + np.dot(self.image[p], self.cell)
            return Row(x if i < n else x + self.cell[0])
        if name == 'v':
            return Row(self.velocity(self.steps)[p])
        raise EngineError('unknown property')

    def extract_atom(self, name, kind=None):
        self._tick('extract_atom ' + name)
        if not self.ran:
            raise EngineError('atoms before setup')
        return Pointer(self, name)

    def gather_atoms(self, name, kind, count):
        self._tick('gather_atoms ' + name)
        self._setup()
        if name == 'v' and self.created is None:
            return [0.0] * (self.n * count)
        src = {'v': self.velocity, 'x': self.position}[name](self.steps)
        if name == 'v' and self.heat() == 0:
            src = src * 0
        out = np.zeros((self.n, 3))
        out[self.ident - 1] = src
        return list(out.reshape(-1))

    def get_natoms(self):
        self._tick('get_natoms')
        self._setup()
        return self.n

    def extract_global(self, name, *kind):
        self._tick('extract_global ' + name)
        self._setup()
        if name == 'natoms':
            return self.n
        api = self.c['api']
        if api == 'box':
            raise UnboundLocalError("local variable 'ptr' referenced before assignment")
        if api == 'typed' and not kind:
            raise TypeError("extract_global() missing 1 required positional argument: 'type'")
        lo = self.lo()
        v = {'boxxlo': lo[0], 'boxylo': lo[1], 'boxzlo': lo[2], 'boxxhi': lo[0] + self.cell[0, 0], 'boxyhi': lo[1] + self.cell[1, 1],
             'boxzhi': lo[2] + self.cell[2, 2], 'xy': self.cell[1, 0], 'xz': self.cell[2, 0], 'yz': self.cell[2, 1]}
        return float(v[name])

    def extract_box(self):
        self._tick('extract_box')
        self._setup()
        lo = self.lo()
        return ([float(a) for a in lo], [float(a) for a in lo + np.diag(self.cell)], float(self.cell[1, 0]), float(self.cell[2, 1]), float(self.cell[2, 0]), [1, 1, 1], 0)

    def extract_variable(self, name, group=None, kind=0):
        self._tick('extract_variable ' + name)
        if self.energy_variable != name:
            return None
        return float(self.pe(self.steps))

    def extract_compute(self, *a):
        raise EngineError('not simulated')

    def close(self):
        self._tick('close')
        self.closed = True


def install(config):
    """Make 'import lammps' give the simulated engine."""
    global CONFIG
    CONFIG = dict(config, fired=None)
    del LAST[:]
    m = types.ModuleType('lammps')
    m.lammps = lammps
    sys.modules['lammps'] = m

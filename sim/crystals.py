"""Small synthetic crystals with spring force constants, and synthetic MD data over them.
Everything is a pure function of its arguments and of an explicit numpy generator."""
import numpy as np

CRYSTALS = {
    # name: cell, scaled positions, elements, primitive matrix, fc supercell, springs cutoff, k
    'sc': dict(cell=np.diag([3.0, 3.0, 3.0]), pos=[[0, 0, 0]], el=['Cu'], pm=None, fc=(2, 2, 2), k=1.2, cut=3.1),
    'cscl': dict(cell=np.diag([3.2, 3.2, 3.2]), pos=[[0, 0, 0], [.5, .5, .5]], el=['Na', 'Cl'], pm=None, fc=(2, 2, 2), k=1.1, cut=3.3),
    'bcc': dict(cell=np.diag([2.9, 2.9, 2.9]), pos=[[0, 0, 0], [.5, .5, .5]], el=['Fe', 'Fe'],
                pm=np.array([[-.5, .5, .5], [.5, -.5, .5], [.5, .5, -.5]]), fc=(1, 1, 1), k=1.3, cut=3.0),
    'ortho': dict(cell=np.diag([3.1, 3.7, 4.4]), pos=[[0, 0, 0], [.5, .5, .45]], el=['Mg', 'O'], pm=None, fc=(2, 1, 1), k=1.0, cut=3.9),
    'hex': dict(cell=np.array([[3.2, 0, 0], [-1.6, 1.6 * 3 ** .5, 0], [0, 0, 5.1]]), pos=[[1 / 3., 2 / 3., 0.01], [2 / 3., 1 / 3., .5]],
                el=['Ga', 'N'], pm=None, fc=(2, 2, 1), k=1.4, cut=3.6),
    'tri': dict(cell=np.array([[3.3, 0, 0], [.4, 3.5, 0], [.3, -.2, 3.9]]), pos=[[0, 0, 0], [.48, .53, .51]], el=['Si', 'C'], pm=None, fc=(1, 2, 1), k=1.5, cut=3.8),
    # kin: the elements of another crystal in another cell, or its cell described otherwise
    'sct': dict(cell=np.diag([3.0, 3.0, 3.6]), pos=[[0, 0, 0]], el=['Cu'], pm=None, fc=(2, 2, 2), k=1.2, cut=3.7),
    'cslt': dict(cell=np.diag([3.2, 3.2, 3.6]), pos=[[0, 0, 0], [.5, .5, .5]], el=['Na', 'Cl'], pm=None, fc=(2, 2, 1), k=1.1, cut=3.7),
    'bccp': dict(cell=np.diag([2.9, 2.9, 2.9]), pos=[[0, 0, 0], [.5, .5, .5]], el=['Fe', 'Fe'], pm=None, fc=(1, 1, 1), k=1.3, cut=3.0),
}
KIN = {'sc': 'sct', 'cscl': 'cslt', 'bcc': 'bccp', 'sct': 'sc', 'cslt': 'cscl', 'bccp': 'bcc'}
_fc_cache = {}


def force_constants(name, scale=1.0):
    """Spring force constants in phonopy's supercell order."""
    key = (name, scale)
    if key in _fc_cache:
        return _fc_cache[key].copy()
    from phonopy import Phonopy
    from phonopy.structure.atoms import PhonopyAtoms
    c = CRYSTALS[name]
    ph = Phonopy(PhonopyAtoms(symbols=c['el'], scaled_positions=c['pos'], cell=c['cell']), np.diag(c['fc']),
                 primitive_matrix=c['pm'], log_level=0)
    sc = ph.supercell
    cell, sp = sc.cell, sc.scaled_positions
    n = len(sp)
    fc = np.zeros((n, n, 3, 3))
    import itertools
    images = list(itertools.product((-2, -1, 0, 1, 2), repeat=3))
    for i in range(n):
        for j in range(n):
            for im in images:
                d = np.dot(sp[j] + np.array(im) - sp[i], cell)
                r = np.linalg.norm(d)
                if 1e-6 < r < c['cut']:
                    u = d / r
                    phi = c['k'] * scale * (np.outer(u, u) + 0.25 * np.eye(3)) * (2.5 / r) ** 2
                    fc[i, j] -= phi
                    fc[i, i] += phi
    _fc_cache[key] = fc
    return fc.copy()


def structure(name, scale=1.0, forces=True):
    from dynaphopy.atoms import Structure
    from dynaphopy.interface.phonopy_link import ForceConstants
    c = CRYSTALS[name]
    s = Structure(cell=np.array(c['cell']), scaled_positions=np.array(c['pos'], dtype=float), atomic_elements=list(c['el']))
    s.set_primitive_matrix(np.identity(3) if c['pm'] is None else np.array(c['pm']))
    if forces:
        s.set_force_constants(ForceConstants(force_constants(name, scale), supercell=np.diag(c['fc'])))
    return s


def lattice(name, dims):
    """Supercell lattice sites in DynaPhoPy's documented order (cell atom, then x fastest)."""
    c = CRYSTALS[name]
    pos = np.dot(np.array(c['pos'], dtype=float), c['cell'])
    out = []
    for k in range(len(pos)):
        for z in range(dims[2]):
            for y in range(dims[1]):
                for x in range(dims[0]):
                    out.append(pos[k] + np.dot(np.array([x, y, z]), c['cell']))
    return np.array(out)


def supercell(name, dims):
    return np.dot(np.diagflat(dims), CRYSTALS[name]['cell'])


def elements(name, dims):
    return [e for e in CRYSTALS[name]['el'] for _ in range(int(np.prod(dims)))]


def displacements(name, dims, nsteps, dt, seed, amplitude=0.06):
    """Smooth multi-mode displacements u(t) and their exact velocities, (nsteps, natoms, 3)."""
    rng = np.random.RandomState(seed % (2 ** 31))
    na = len(lattice(name, dims))
    t = np.arange(nsteps) * dt
    u = np.zeros((nsteps, na, 3))
    v = np.zeros((nsteps, na, 3))
    for f in rng.uniform(1.0, 9.0, size=9):
        w = 2 * np.pi * f
        a = rng.normal(size=(na, 3)) * amplitude / 3
        ph = rng.uniform(0, 2 * np.pi, size=(na, 3))
        arg = w * t[:, None, None] + ph[None]
        u += a[None] * np.cos(arg)
        v -= a[None] * w * np.sin(arg)
    v += rng.normal(size=v.shape) * 0.02
    return u, v


def wrapped(name, dims, u):
    """Periodic positions wrapped into the supercell."""
    cell = supercell(name, dims)
    frac = np.dot(lattice(name, dims)[None] + u, np.linalg.inv(cell))
    frac = frac - np.floor(frac)
    return np.dot(frac, cell)


def dynamics(name, dims, nsteps, dt, seed, memmap=False, give=('trajectory',), struct=None, energy=False):
    from dynaphopy.dynamics import Dynamics
    u, v = displacements(name, dims, nsteps, dt, seed)
    kw = {}
    if 'trajectory' in give:
        kw['trajectory'] = wrapped(name, dims, u).astype(complex)
    if 'velocity' in give:
        kw['velocity'] = v.astype(complex)
    if energy:
        kw['energy'] = np.arange(nsteps, dtype=float)
    return Dynamics(structure=struct if struct is not None else structure(name), time=np.arange(nsteps) * dt,
                    supercell=supercell(name, dims), memmap=memmap, **kw)

"""Trajectory sources of a simulated run: arrays, files of every format, saved hdf5 data, generated data."""
import os

import numpy as np

from sim import crystals, mdfiles, readers

TEXT = ('xdatcar', 'lammps_pos', 'lammps_vel', 'outcar')
H5 = ('h5_pos', 'h5_vel', 'h5_both')
ARRAYS = ('a_pos', 'a_vel', 'a_both')
ALL = TEXT + H5 + ARRAYS + ('generated',)


def has_positions(src):
    return src['kind'] not in ('lammps_vel', 'h5_vel', 'a_vel')


def data(src):
    dims = tuple(src['dims'])
    u, v = crystals.displacements(src['crystal'], dims, src['frames'], src['dt'], src['seed'])
    t = np.arange(src['frames']) * src['dt']
    return crystals.wrapped(src['crystal'], dims, u).astype(complex), v.astype(complex), t


def prepare(src, path):
    """Write the source file (if the source is a file)."""
    if src['kind'] in TEXT:
        f, perm = readers.make_file(src)
        with open(path, 'wb') as o:
            o.write(f.data)
    elif src['kind'] in H5:
        import dynaphopy.interface.iofile as iofile
        pos, vel, t = data(src)
        kw = {}
        if src['kind'] != 'h5_vel':
            kw['trajectory'] = pos
        if src['kind'] != 'h5_pos':
            kw['velocity'] = vel
        iofile.save_data_hdf5(path, t, np.array(src['dims']), **kw)


def open_source(src, path, memmap, structure=None):
    """The trajectory, read as a user reads it."""
    import dynaphopy.interface.iofile as iofile
    from dynaphopy.dynamics import Dynamics
    s = structure if structure is not None else crystals.structure(src['crystal'])
    k = src['kind']
    if k in TEXT:
        f, perm = readers.make_file(src)
        return readers.call_reader(path, src, s, f, perm, memmap)
    if k in H5:
        kw = {}
        if src.get('first') is not None:
            kw['initial_cut'] = src['first']
        if src.get('last_step') is not None:
            kw['final_cut'] = src['last_step']
        return iofile.initialize_from_hdf5_file(path, s, memmap=memmap, **kw)
    if k == 'generated':
        return iofile.generate_test_trajectory(s, supercell=tuple(src['dims']), total_time=src['frames'] * src['dt'] - src['dt'] / 2, time_step=src['dt'],
                                               temperature=300, silent=True, memmap=memmap, minimum_frequency=0.1)
    pos, vel, t = data(src)
    kw = {}
    if k != 'a_vel':
        kw['trajectory'] = pos
    if k != 'a_pos':
        kw['velocity'] = vel
    return Dynamics(structure=s, time=t, energy=-10. - 0.01 * np.arange(src['frames']), supercell=crystals.supercell(src['crystal'], tuple(src['dims'])), memmap=memmap, **kw)


def gen(rng, cells, frames, window=True, kinds=ALL):
    crystal, dims = rng.choice(cells)
    nf = rng.choice(frames)
    src = {'kind': rng.choice(kinds), 'crystal': crystal, 'dims': list(dims), 'frames': nf, 'dt': 0.02, 'seed': rng.randrange(10 ** 6), 'style': rng.choice([1, 3]),
           'perm': rng.random() < .25, 'trailing': rng.random() < .2, 'rot': False, 'every': 1, 'start': 0, 'route': rng.choice(['direct', 'detect']), 'nl': '\n'}
    if src['kind'] in TEXT + H5:
        # memory mapped reading needs the last step
        src['last_step'] = rng.choice([nf, nf, nf + 3, rng.randrange(nf // 2 + 1, nf + 1)]) if window else nf
        if window and rng.random() < .5:
            src['first'] = rng.choice([1, 2, rng.randrange(1, nf // 2)])
        if window and src['kind'] in TEXT and rng.random() < .35:
            src['tail'] = rng.choice([nf + 2, nf, rng.randrange(2, nf)])
    return src

"""C07: reading windows and crops select exactly the requested steps, with matching per-step data."""
import os

import numpy as np

from sim import boot, crystals, readers
from sim.core import Outcome, shrink_list

HDF5 = ('h5_pos', 'h5_vel', 'h5_both', 'h5_vc')


class Check:
    prop = 'C07'
    level = 'exploration'
    quick_runs = 6000
    batch = 400
    rule = ('one run = one trajectory source (4 text formats, 4 hdf5 contents), a window (first, last, keep-last), memory mode, optional growth of '
            'the file while it is read, then a random history of crops and of computations of derived per-step data through the trajectory or a '
            'session; after every step all per-step data are compared with the reference window. Non-trivial: the window or a crop selects a proper part')
    state_measure = '(format, memory mode, window shape, crop/derive pattern, growth)'
    real = ['all trajectory readers', 'iofile.initialize_from_hdf5_file', 'iofile.save_data_hdf5', 'dynamics.Dynamics', 'Quasiparticle.crop_trajectory', 'h5py']
    stub = ['the simulation code writing the file (sim/mdfiles.py)', 'open/mmap of the trajectory file (pass-through seam that lets the writer run)']
    assumptions = ['derived velocities and displacements of a window are those a trajectory holding only these steps gives']

    def boot(self):
        boot.boot()
        import h5py  # noqa
        import dynaphopy.interface.iofile.trajectory_parsers  # noqa

    def gen(self, rng, index, tier):
        kind = rng.choice(['xdatcar', 'lammps_pos', 'lammps_vel', 'outcar', 'xdatcar', 'lammps_pos'] + list(HDF5))
        crystal, dims = rng.choice(readers.CELLS)
        nf = rng.choice([2, 3, 4, 5, 7, 12])
        case = {'kind': kind, 'crystal': crystal, 'dims': list(dims), 'frames': nf, 'seed': rng.randrange(10 ** 6), 'style': rng.randrange(4),
                'perm': rng.random() < .3, 'trailing': rng.random() < .3, 'rot': rng.random() < .25, 'every': rng.choice([1, 1, 2, 5]),
                'start': rng.choice([0, 0, 10000]), 'route': rng.choice(['direct', 'detect']), 'memmap': rng.random() < .4, 'grow': [],
                'nl': '\n'}
        w = rng.random()
        if w < .8:
            case['first'] = rng.choice([None, 1, 2, rng.randrange(1, nf + 1), rng.randrange(1, nf + 1)])
        if w < .9 or case['memmap']:
            lo = case.get('first') or 1
            case['last_step'] = rng.choice([nf, nf + 1, nf + 4, rng.randrange(lo, nf + 3), rng.randrange(lo, nf + 1)])
        if kind not in HDF5:
            if rng.random() < .3:
                case['tail'] = rng.randrange(1, nf + 2)
            if rng.random() < .2:
                case['grow'] = [[rng.choice([1, 2, 3, rng.randrange(1, 12), rng.randrange(1, 120)]), rng.choice([5, 300, 2000])] for _ in range(rng.randrange(1, 5))]
                case['hold'] = rng.randrange(1, nf)      # frames still to be written when reading starts
        ops = []
        if rng.random() < .7:
            for _ in range(rng.randrange(1, 6)):
                ops.append(rng.choice([['crop', rng.randrange(1, nf + 2)], ['crop', rng.randrange(1, nf + 1)], ['scrop', rng.randrange(1, nf + 1)],
                                       ['touch', rng.choice(['velocity', 'relative', 'mass', 'mean', 'meanavg', 'positions', 'average'])],
                                       ['touch', rng.choice(['velocity', 'relative', 'mass', 'mean', 'meanavg', 'positions', 'average'])],
                                       ['crop', None]]))
        case['ops'] = ops
        return case

    # -------------------------------------------------------------------------------- reference
    def source_h5(self, case, out):
        """Save with the real code, keep what was saved as the reference."""
        import dynaphopy.interface.iofile as iofile
        dims = tuple(case['dims'])
        u, v = crystals.displacements(case['crystal'], dims, case['frames'], 0.002 * case['every'], case['seed'])
        pos = crystals.wrapped(case['crystal'], dims, u).astype(complex)
        t = (case['start'] + np.arange(case['frames']) * case['every']) * 0.002
        kw = {}
        if case['kind'] in ('h5_pos', 'h5_both'):
            kw['trajectory'] = pos
        if case['kind'] in ('h5_vel', 'h5_both'):
            kw['velocity'] = v.astype(complex)
        if case['kind'] == 'h5_vc':
            kw['vc'] = (v[:, :2] + 1j * u[:, :2]).astype(complex)
            kw['reduced_q_vector'] = np.array([0.5, 0, 0])
        iofile.save_data_hdf5('traj.h5', t, np.array(dims), **kw)
        return kw, t

    def run(self, case):
        out = Outcome()
        os.chdir(readers.workdir())
        os.environ.pop('DYNAPHOPY_TEMPDIR', None)
        first, last, tail = case.get('first'), case.get('last_step'), case.get('tail')
        nf = case['frames']
        with readers.quiet():
            structure, rot = readers.make_structure(case)
        ref = {}
        err = dyn = vc = None
        options = None
        w = None
        try:
            with readers.quiet():
                if case['kind'] in HDF5:
                    import dynaphopy.interface.iofile as iofile
                    kw, t = self.source_h5(case, out)
                    kwargs = {}
                    if first is not None:
                        kwargs['initial_cut'] = first
                    if last is not None:
                        kwargs['final_cut'] = last
                    dyn = iofile.initialize_from_hdf5_file('traj.h5', structure, memmap=case['memmap'], **kwargs)
                    if case['kind'] == 'h5_vc':
                        vc, q, dyn = dyn
                    idx = [i for i in range(nf) if i >= (first or 1) - 1 and (last is None or i < last)]
                    options = [{'pos': kw['trajectory'][idx] if 'trajectory' in kw else None, 'vel': kw['velocity'][idx] if 'velocity' in kw else None,
                                'vc': kw['vc'][idx] if 'vc' in kw else None, 'time': t[idx], 'energy': None}]
                else:
                    f, perm = readers.make_file(case)
                    cut = len(f.data)
                    if case['grow']:
                        cut = f.frames[max(0, nf - case['hold'])]['start']
                    w = readers.Writer('traj.dat', f.data, cut, case['grow'], out)
                    with w.installed():
                        dyn = readers.call_reader('traj.dat', case, structure, f, perm, case['memmap'])
                    options = []
                    for c in range(f.complete(cut), f.possible(w.size) + 1):
                        vals, t, e = readers.expected(f, rot, c, first, last, tail)
                        options.append({'pos': None if case['kind'] == 'lammps_vel' else vals, 'vel': vals if case['kind'] == 'lammps_vel' else None,
                                        'vc': None, 'time': t, 'energy': e})
        except Exception as e:
            err = '%s: %s' % (type(e).__name__, e)
        except SystemExit:
            err = 'exit'
        if options is None:
            # the reader failed: only acceptable when no step of the window is in the file
            need = len(readers.expected(f, rot, f.complete(cut), first, last, tail)[0]) if case['kind'] not in HDF5 else 1
            if need:
                out.fail('read-failed', '%s, window %s: %s' % (case['kind'], (first, last, tail), err), 'read')
            return out
        if err:
            out.fail('read-failed', '%s, window %s: %s' % (case['kind'], (first, last, tail), err), 'read')
            return out
        # choose the option (how much of a growing file was seen) by the number of steps delivered
        try:
            with readers.quiet():
                n = len(vc) if vc is not None else len(dyn.velocity if options[0]['pos'] is None else dyn.trajectory)
        except Exception as e:
            if min(len(o['time']) for o in options) == 0:
                return out       # an empty window may be an error when it is used
            out.fail('read-failed', '%s, window %s: %s: %s' % (case['kind'], (first, last, tail), type(e).__name__, e), 'read')
            return out
        match = [o for o in options if len(o['time']) == n]
        if not match:
            out.fail('wrong-steps', '%s (%s), window %s: %d steps delivered, expected %s' %
                     (case['kind'], 'mapped' if case['memmap'] else 'in memory', (first, last, tail), n, [len(o['time']) for o in options]), 'read')
            return out
        if n == 0:
            return out
        model = None
        for o in match:
            trial = Outcome()
            self.verify(case, dyn, vc, o, structure, trial, 'read')
            if trial.violation is None:
                model = o
                break
        if model is None:
            out.fail(trial.violation['class'], trial.violation['detail'], 'read')
            return out
        out.nontrivial = len(model['time']) < nf or any(o[0] == 'crop' for o in case['ops'])
        out.states.add('%s|%s|%s|%s|%s|%s' % (case['kind'], case['memmap'], first is not None and first > 1,
                       None if last is None else ('beyond' if last > nf else 'in'), tail is not None,
                       '.'.join(o[0][0] + (str(o[1])[0] if o[0] == 'touch' else '') for o in case['ops'][:4])))
        session = None
        for k, (op, arg) in enumerate(case['ops']):
            if out.violation:
                break
            at = 'op %d %s %s' % (k, op, arg)
            try:
                with readers.quiet():
                    if op == 'touch':
                        if vc is None:
                            self.touch(dyn, arg, model, out)
                    elif vc is not None or op == 'scrop':
                        if session is None:
                            import dynaphopy
                            session = dynaphopy.Quasiparticle(dyn, last_steps=arg, vc=vc)
                        else:
                            session.crop_trajectory(arg)
                        if vc is not None:
                            vc = session.get_vc()
                    else:
                        dyn.crop_trajectory(arg)
            except Exception as e:
                if len(model['time']) < 2 or (arg == 1):
                    # velocities cannot be obtained from a single position
                    out.count('probe:single step')
                    return out
                out.fail('crop-failed', '%s (%s): %s: %s: %s' % (case['kind'], 'mapped' if case['memmap'] else 'in memory', at, type(e).__name__, e), at)
                break
            if op != 'touch' and arg:
                model = {k2: (None if v is None else v[-arg:]) for k2, v in model.items()}
            out.note(at, len(model['time']))
            out.steps += 1
            self.verify(case, dyn, vc, model, structure, out, at)
        if not out.violation and vc is None and len(model['time']) >= 2:
            for what in ('velocity', 'relative', 'mass', 'mean', 'meanavg', 'positions'):
                try:
                    with readers.quiet():
                        self.touch(dyn, what, model, out)
                except Exception as e:
                    out.fail('derived-failed', '%s: %s: %s' % (what, type(e).__name__, e), 'end')
        return out

    def verify(self, case, dyn, vc, model, structure, out, at):
        where = '%s (%s) %s' % (case['kind'], 'mapped' if case['memmap'] else 'in memory', at)
        n = len(model['time'])
        with readers.quiet():
            t = np.array(dyn.get_time(), dtype=float)
            got = {'pos': None if model['pos'] is None else np.array(dyn.trajectory), 'vel': None if model['vel'] is None else np.array(dyn.velocity), 'vc': vc}
        if vc is not None and at != 'read':
            # a session restarted from projected velocities crops these only
            pass
        elif len(t) != n:
            out.fail('wrong-time-axis', '%s: %d times for %d steps' % (where, len(t), n), at)
            return
        elif case['kind'] == 'outcar':
            if n > 1 and not np.allclose(np.diff(t), np.diff(model['time']), rtol=1e-6, atol=1e-9):
                out.fail('wrong-time-axis', '%s: spacing %s expected %s' % (where, np.diff(t)[:3], np.diff(model['time'])[:3]), at)
        elif not np.allclose(t, model['time'], rtol=1e-6, atol=1e-9):
            out.fail('wrong-time-axis', '%s: times %s expected %s' % (where, t[:4], model['time'][:4]), at)
        for k in ('pos', 'vel', 'vc'):
            if model[k] is None:
                continue
            if np.shape(got[k]) != np.shape(model[k]):
                out.fail('wrong-steps', '%s: %s has shape %s expected %s' % (where, k, np.shape(got[k]), np.shape(model[k])), at)
            elif not np.allclose(got[k], model[k], rtol=1e-9, atol=1e-8):
                out.fail('wrong-steps', '%s: %s are not those of the requested steps' % (where, k), at)
        if model['energy'] is not None:
            e = np.array(dyn.get_energy(), dtype=float)
            if len(e) != n or not np.allclose(e, model['energy'], rtol=1e-9, atol=1e-7):
                out.fail('wrong-steps', '%s: energies %s expected %s' % (where, e[:4], model['energy'][:4]), at)

    def touch(self, dyn, what, model, out):
        """Compute derived per-step data and compare with a fresh in-memory trajectory holding only the window."""
        from dynaphopy.dynamics import Dynamics
        if model['pos'] is None and what not in ('velocity', 'mass'):
            return
        if len(model['time']) < 2:
            return
        fresh = Dynamics(structure=dyn.structure, trajectory=None if model['pos'] is None else np.array(model['pos'], dtype=complex),
                         velocity=None if model['vel'] is None else np.array(model['vel'], dtype=complex),
                         time=np.array(model['time']), supercell=dyn.get_supercell())
        fn = {'velocity': lambda d: d.velocity, 'relative': lambda d: d.get_relative_trajectory(), 'mass': lambda d: d.get_velocity_mass_average(),
              'mean': lambda d: d.get_mean_displacement_matrix(), 'meanavg': lambda d: d.get_mean_displacement_matrix(use_average_positions=True),
              'positions': lambda d: d.trajectory, 'average': lambda d: d.average_positions()}[what]
        a, b = np.array(fn(dyn)), np.array(fn(fresh))
        if a.shape != b.shape or not np.allclose(a, b, rtol=1e-6, atol=1e-6):
            out.fail('derived-wrong', '%s does not belong to the requested steps: shape %s expected %s' % (what, a.shape, b.shape), what)

    def after_child(self, pid):
        readers.drop_workdir(pid)

    def shrink(self, case):
        for ops in shrink_list(case['ops']):
            yield dict(case, ops=ops)
        if case['grow']:
            yield dict(case, grow=[])
        for k in ('tail', 'first', 'last_step'):
            if case.get(k) is not None and not (k == 'last_step' and case['memmap']):
                yield dict(case, **{k: None})
        for k in ('perm', 'trailing', 'rot', 'memmap'):
            if case[k]:
                yield dict(case, **{k: False})
        for k, v in (('style', 0), ('every', 1), ('start', 0), ('route', 'direct'), ('crystal', 'sc'), ('dims', [1, 1, 1])):
            if case[k] != v and not (k == 'dims' and case['kind'] == 'h5_vc'):
                yield dict(case, **{k: v})
        if case['frames'] > 2:
            yield dict(case, frames=case['frames'] - 1)


CHECK = Check()

"""C13: trajectories produced by driving a molecular dynamics engine follow each physical atom."""
import contextlib
import io
import os

import numpy as np

from sim import cli, crystals, engine, readers
from sim import session as S
from sim.core import Outcome

CELLS = [('sc', (2, 1, 1)), ('sc', (2, 2, 1)), ('sc', (2, 2, 2)), ('sc', (3, 2, 1)), ('cscl', (1, 1, 1)), ('cscl', (2, 1, 2)), ('cscl', (2, 2, 2)), ('bcc', (1, 1, 1)), ('bcc', (2, 1, 1)),
         ('bcc', (2, 2, 2)), ('bcc', (3, 2, 2)), ('ortho', (2, 2, 1)), ('ortho', (1, 3, 2)), ('hex', (2, 2, 1)), ('hex', (1, 1, 2)), ('hex', (3, 2, 1)), ('tri', (1, 1, 2)), ('tri', (2, 2, 2)),
         ('tri', (1, 2, 1))]


class Check:
    prop = 'C13'
    level = 'exploration'
    quick_runs = 4000
    batch = 128
    rule = ('one run = one engine configuration (crystal, box origin, atom numbering, initial storage order, seeded re-ordering/reallocation/re-wrapping policy, interface variant, an '
            'optional engine error at one call) and one request (duration, step, sampling, relaxation, temperature, velocity only, memory mapping; function or command line). '
            'Non-trivial: the engine re-ordered its storage or failed')
    state_measure = '(crystal, supercell, numbering, re-ordering policy, start, interface variant, route, options)'
    real = ['interface/lammps_link.py', 'iofile.get_correct_arrangement', 'dynamics.Dynamics', 'scripts/dynaphopy --run_lammps']
    stub = ['the lammps module (sim/engine.py)']
    assumptions = ['the engine re-orders atoms only while it runs', 'atoms move by less than half a cell from their site',
                   'one process of the engine (no domain decomposition)']

    def boot(self):
        S.boot_session()

    def gen(self, rng, index, tier):
        crystal, dims = rng.choice(CELLS)
        # the engine input file may already hold a multiple of the unit cell
        base = [rng.choice([d for d in (1, 2, 3) if n % d == 0]) if rng.random() < .3 else 1 for n in dims]
        dt = rng.choice([0.001, 0.002, 0.0005, 0.01, 0.1])
        sampling = rng.choice([1, 1, 1, 2, 5])
        n = rng.randrange(1, 26)
        total = rng.choice([round(n * dt * sampling, 10), round(n * dt * sampling, 10), (n + rng.choice([.25, .5, .75])) * dt * sampling])
        relax = rng.choice([0, 0, 1, rng.randrange(1, 40)])
        cfg = {'crystal': crystal, 'base': base, 'seed': rng.randrange(10 ** 6), 'numbering': rng.choice(['lattice', 'cell', 'any', 'any']),
               'reorder': rng.choice(['none', 'always', 'sometimes', 'swap', 'rotate']), 'first_shuffled': rng.random() < .6, 'realloc': rng.choice([0, .3, 1]),
               'rewrap': rng.choice([0, .5, 1]), 'ghosts': rng.choice([0, 9]), 'api': rng.choice(['new', 'typed', 'box']),
               'origin': rng.choice([[0, 0, 0], [0, 0, 0], [-.5, -.5, -.5], [-.25, 0, .1]]), 'perfect_start': rng.random() < .5,
               'file_velocities': rng.choice([None, None, 250.0])}
        case = {'engine': cfg, 'dims': list(dims), 'dt': dt, 'total': total, 'relax': round(relax * dt, 10), 'sampling': sampling, 'temperature': rng.choice([None, None, 150.0, 600.0]),
                'velocity_only': rng.random() < .2, 'memmap': rng.random() < .2, 'log': rng.random() < .3, 'thermostat_mass': rng.choice([None, 0.25]),
                'route': 'cli' if rng.random() < .12 else 'call', 'err_at': rng.randrange(0, 60) if rng.random() < .1 else None, 'analyse': rng.random() < .15}
        return case

    # ---------------------------------------------------------------------------------- expected
    def expected(self, case, eng):
        """What any engine client must obtain, from the configuration and the request alone."""
        cfg = case['engine']
        t = case['temperature'] if case['temperature'] is not None else (cfg['file_velocities'] if cfg['file_velocities'] is not None else 100.0)
        q = case['total'] / case['dt'] / case['sampling']
        n = int(np.floor(q + 1e-6))
        first = int(np.floor(case['relax'] / case['dt'] + 1e-6))
        return t, n, first

    def run(self, case):
        out = Outcome()
        d = readers.workdir()
        os.chdir(d)
        os.environ.pop('DYNAPHOPY_TEMPDIR', None)
        open('in.engine', 'w').write('units metal\n')
        cfg = case['engine']
        dims = tuple(case['dims'])
        rep = tuple(a // b for a, b in zip(dims, cfg['base']))
        engine.install(dict(cfg, err_at=case['err_at']))
        res = {}

        def collect(dyn):
            res['time'] = np.array(dyn.get_time())
            res['energy'] = np.array(dyn.get_energy())
            res['velocity'] = np.array(dyn.velocity)
            res['positions'] = None if case['velocity_only'] else np.array(dyn.trajectory)
            res['supercell'] = np.array(dyn.get_supercell())

        if case['route'] == 'cli':
            cli.write_inputs({'crystal': cfg['crystal']})
            argv = ['input', '--run_lammps', 'in.engine', repr(case['total']), repr(case['dt']), repr(case['relax']), '--dim'] + [str(x) for x in rep] + ['-sv', 'saved.h5', '--silent']
            if case['temperature'] is not None:
                argv += ['--temperature', repr(case['temperature'])]
            if case['velocity_only']:
                argv += ['--velocity_only']
            if case['memmap']:
                argv += ['--memmap']
            sampling = 1

            def after():
                e = engine.LAST[-1]
                return {'log': e.log, 'steps': e.steps, 'fired': engine.CONFIG['fired'], 'closed': e.closed, 'thermostat': e.thermostat, 'created': e.created, 'dt': e.dt}
            got = cli.call('dynaphopy', argv, after=after)
            info = got.extra
            err = None if got.ok else str(got)
            if got.ok and os.path.exists('saved.h5'):
                import h5py
                with h5py.File('saved.h5', 'r') as f:
                    res = {'time': f['time'][:], 'velocity': f['velocity'][:], 'positions': f['trajectory'][:] if 'trajectory' in f else None, 'energy': None, 'supercell': None}
            elif got.ok:
                out.fail('no-output', 'command line: nothing was saved: ' + got.text[-200:])
                return out
        else:
            sampling = case['sampling']
            kw = dict(total_time=case['total'], time_step=case['dt'], relaxation_time=case['relax'], silent=True, supercell=rep, memmap=case['memmap'],
                      velocity_only=case['velocity_only'], lammps_log=case['log'], temperature=case['temperature'], sampling_interval=sampling)
            if case['thermostat_mass'] is not None:
                kw['thermostat_mass'] = case['thermostat_mass']
            err = dyn = None
            struct = crystals.structure(cfg['crystal'])
            try:
                with readers.quiet():
                    from dynaphopy.interface.lammps_link import generate_lammps_trajectory
                    dyn = generate_lammps_trajectory(struct, 'in.engine', **kw)
                    collect(dyn)
            except SystemExit:
                err = 'SystemExit'
            except Exception as e:
                err = '%s: %s' % (type(e).__name__, str(e)[:300])
            e = engine.LAST[-1] if engine.LAST else None
            info = e and {'log': e.log, 'steps': e.steps, 'fired': engine.CONFIG['fired'], 'closed': e.closed, 'thermostat': e.thermostat, 'created': e.created, 'dt': e.dt}
        c2 = dict(case, sampling=sampling)
        return self.judge(c2, out, res, err, info, dims)

    def judge(self, case, out, res, err, info, dims):
        cfg = case['engine']
        out.steps += len(info['log']) if info else 0
        out.note(case['route'], err, info and info['steps'])
        out.states.add('|'.join(str(x) for x in (cfg['crystal'], dims, cfg['numbering'], cfg['reorder'], cfg['first_shuffled'], cfg['perfect_start'], cfg['api'], case['route'],
                                                 case['temperature'], case['velocity_only'], case['sampling'], cfg['origin'][0])))
        temp, n, first = self.expected(case, None)
        if info and info['fired']:
            out.count('fault:engine error')
            out.nontrivial = True
            if err is None and info['fired'] != 'close':
                out.fail('error-hidden', 'the engine failed at "%s" and a trajectory was delivered' % info['fired'])
            return out
        if n < 1:
            return out
        if err:
            out.fail('failed', '%s ended with %s' % (case['route'], err))
            return out
        for k in ('reorder',):
            if cfg[k] != 'none' or cfg['numbering'] != 'lattice':
                out.nontrivial = True
        out.count('fault:re-ordering ' + cfg['reorder'])
        out.simtime += case['total']
        # number of frames and times
        if len(res['velocity']) != n or len(res['time']) != n or (res['positions'] is not None and len(res['positions']) != n) or \
                (res['energy'] is not None and len(res['energy']) != n):
            out.fail('frames', 'asked for %r ps every %d steps of %r ps (%d recorded steps): velocity %d, time %d, positions %s, energy %s frames' %
                     (case['total'], case['sampling'], case['dt'], n, len(res['velocity']), len(res['time']), res['positions'] if res['positions'] is None else len(res['positions']),
                      res['energy'] if res['energy'] is None else len(res['energy'])))
            return out
        want_t = np.arange(n) * case['dt'] * case['sampling']
        if not np.allclose(res['time'] - res['time'][0], want_t, rtol=1e-9, atol=1e-12):
            out.fail('time', 'times %s..., wanted steps of %r' % (res['time'][:4], case['dt'] * case['sampling']))
            return out
        if case['velocity_only'] and res['positions'] is not None:
            out.fail('options', 'positions delivered although velocity only was asked for')
            return out
        # a fresh engine plays the reference
        ref = engine.lammps()
        ref.c['err_at'] = None
        ref.dims = dims
        ref.dt = case['dt']
        ref.created, ref.thermostat = temp, None
        ref._setup()
        start = None
        for s in (first + case['sampling'], first):
            if np.allclose(res['velocity'][0], ref.velocity(s), rtol=1e-7, atol=1e-9):
                start = s
                break
        inv = np.linalg.inv(ref.cell)
        if start is None:
            got, w = np.array(res['velocity'][0]).real, ref.velocity(first + case['sampling'])
            match = sorted(np.linalg.norm(got, axis=1).round(6)) == sorted(np.linalg.norm(w, axis=1).round(6))
            out.fail('wrong-velocity', 'first frame: velocities are not those of the atoms at that step%s' % (' (right set, wrong atoms)' if match else ''), 0)
            return out
        for k in range(n):
            s = start + k * case['sampling']
            if not np.allclose(res['velocity'][k], ref.velocity(s), rtol=1e-7, atol=1e-9):
                out.fail('wrong-velocity', 'frame %d of %d: velocities are not those of the atoms at that step' % (k, n), k)
                return out
            if res['positions'] is not None:
                df = np.dot(np.array(res['positions'][k]).real - ref.position(s), inv)
                df = np.dot(df - np.round(df), ref.cell)
                if not np.allclose(df, 0, atol=1e-7):
                    out.fail('wrong-position', 'frame %d of %d: positions of atoms %s are not those at that step' % (k, n, np.where(np.abs(df).max(axis=1) > 1e-7)[0][:6].tolist()), k)
                    return out
            if res['energy'] is not None and not np.isclose(res['energy'][k], ref.pe(s), rtol=1e-9):
                out.fail('wrong-energy', 'frame %d: energy %r, the engine had %r' % (k, res['energy'][k], ref.pe(s)), k)
                return out
        if res['supercell'] is not None and not np.allclose(res['supercell'], ref.cell, atol=1e-9):
            out.fail('wrong-cell', 'supercell %s, the engine has %s' % (res['supercell'].tolist(), ref.cell.tolist()))
            return out
        if case['temperature'] is not None:
            th = info['thermostat']
            if th is None or th[0] != case['temperature'] or th[1] != case['temperature'] or (case['route'] == 'call' and case['thermostat_mass'] is not None and th[2] != case['thermostat_mass']):
                out.fail('options', 'temperature %s asked for, thermostat %s' % (case['temperature'], th))
                return out
        elif info['thermostat'] is not None:
            out.fail('options', 'no temperature asked for, thermostat %s' % (info['thermostat'],))
            return out
        if case['analyse'] and case['route'] == 'call' and n > 4:
            self.analyse(case, out, res, ref, start, n, dims)
        return out

    def analyse(self, case, out, res, ref, start, n, dims):
        """The delivered data analysed as the same data given as arrays."""
        from dynaphopy.dynamics import Dynamics
        st = crystals.structure(case['engine']['crystal'])
        steps = [start + k * case['sampling'] for k in range(n)]
        want = Dynamics(structure=st, velocity=np.array([ref.velocity(s) for s in steps], dtype=complex), time=np.arange(n) * case['dt'] * case['sampling'], supercell=ref.cell)
        got = Dynamics(structure=st, velocity=res['velocity'], time=res['time'], supercell=res['supercell'])
        with readers.quiet():
            a, b = got.get_velocity_mass_average(), want.get_velocity_mass_average()
        out.count('analyses compared')
        if not np.allclose(a, b, rtol=1e-6, atol=1e-8):
            out.fail('wrong-analysis', 'mass weighted velocities differ from those of the same atoms')

    def after_child(self, pid):
        readers.drop_workdir(pid)

    def shrink(self, case):
        c = case['engine']
        for k, v in (('route', 'call'), ('memmap', False), ('velocity_only', False), ('log', False), ('analyse', False), ('temperature', None), ('relax', 0), ('sampling', 1), ('thermostat_mass', None),
                     ('dt', 0.002)):
            if case[k] != v:
                n = dict(case, **{k: v})
                if k in ('sampling', 'dt'):
                    n['total'] = case['total'] / case['sampling'] / case['dt'] * n['sampling'] * n['dt']
                yield n
        for f in (1, 2, 3):
            t = f * case['dt'] * case['sampling']
            if t < case['total']:
                yield dict(case, total=t)
        for k, v in (('reorder', 'none'), ('first_shuffled', False), ('realloc', 0), ('rewrap', 0), ('ghosts', 0), ('api', 'new'), ('origin', [0, 0, 0]), ('perfect_start', True),
                     ('numbering', 'lattice'), ('numbering', 'cell'), ('base', [1, 1, 1]), ('file_velocities', None)):
            if c[k] != v:
                yield dict(case, engine=dict(c, **{k: v}))
        for crystal, dims in CELLS:
            if (crystal, list(dims)) != (c['crystal'], case['dims']) and np.prod(dims) < np.prod(case['dims']):
                yield dict(case, engine=dict(c, crystal=crystal, base=[1, 1, 1]), dims=list(dims))


CHECK = Check()

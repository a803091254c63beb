"""C04: memory mapped and in-memory operation give the same data and results."""
import os
import pickle

import numpy as np

from sim import crystals, readers, sources
from sim import session as S
from sim.core import Outcome, shrink_list

TOUCH = ('trajectory', 'velocity', 'relative', 'mass', 'mean', 'meanavg', 'average', 'average_uc', 'time', 'energy', 'dt', 'natoms')


def touch(d, what):
    return S.normal({'trajectory': lambda: np.array(d.trajectory), 'velocity': lambda: np.array(d.velocity), 'relative': lambda: np.array(d.get_relative_trajectory()),
                     'mass': lambda: np.array(d.get_velocity_mass_average()), 'mean': lambda: d.get_mean_displacement_matrix(),
                     'meanavg': lambda: d.get_mean_displacement_matrix(use_average_positions=True), 'average': lambda: d.average_positions(),
                     'average_uc': lambda: d.average_positions(to_unit_cell=True), 'time': lambda: np.array(d.get_time()),
                     'energy': lambda: None if d.get_energy() is None else np.array(d.get_energy()), 'dt': lambda: d.get_time_step_average(),
                     'natoms': lambda: int(d.get_number_of_atoms())}[what]())


class Check:
    prop = 'C04'
    level = 'exploration'
    quick_runs = 900
    batch = 128
    rule = ('one run = one trajectory source (arrays, 4 text formats, 3 hdf5 contents, generated), a reading window, requests on the trajectory before any session, and a random history of derived data, crops, '
            'setting changes and session requests, executed twice: in memory (in a process of its own) and memory mapped; every result is compared. Non-trivial: at '
            'least two operations succeeded in both')
    state_measure = '(source, window shape, temporary directory, last three operations, operation)'
    real = ['trajectory readers', 'dynamics.Dynamics', 'Quasiparticle and everything it calls', 'native kernels', 'numpy.memmap on real files in the simulated directories']
    stub = ['plt.show', 'multiprocessing.cpu_count (1)', 'MD data and files (sim/mdfiles.py, sim/crystals.py)']
    assumptions = ['text files are read with the last step given (memory mapping requires it)']

    def boot(self):
        S.boot_session()

    def gen(self, rng, index, tier):
        src = sources.gen(rng, S.CELLS, [30, 40, 60])
        case = {'src': src, 'crystal': src['crystal'], 'dims': src['dims'], 'give': 'both' if sources.has_positions(src) else 'vel', 'nsteps': src['frames'], 'dt': src['dt'],
                'seed': 1, 'tmp': rng.choice([None, None, 'tmpdir', 'missing'])}
        case['start'] = S.gen_start(rng, case)
        case['before'] = [['touch', rng.choice(TOUCH + ('relative', 'velocity', 'mass'))] if rng.random() < .8 else ['cut', rng.choice([24, 28, 10 ** 4])] for _ in range(rng.choice([0, 0, 1, 2, 3]))]
        case['keep'] = rng.choice([None, None, None, 25, 35, 10 ** 5])
        ops = []
        for _ in range(rng.randrange(2, 9)):
            r = rng.random()
            if r < .3:
                ops.append(['touch', rng.choice(TOUCH)])
            elif r < .45:
                ops.append(['crop', rng.choice([None, 2, 5, 24, 28, 33, 45, 10 ** 4])])
            elif r < .6:
                ops.append(S.gen_setter(rng, case))
            else:
                ops.append(list(S.gen_request(rng, case)))
        case['ops'] = ops
        return case

    def direct(self, dyn, op):
        """What the trajectory object itself answers."""
        try:
            with readers.quiet():
                return touch(dyn, op[1]) if op[0] == 'touch' else S.normal(dyn.crop_trajectory(op[1]))
        except SystemExit:
            return S.Failed('SystemExit')
        except Exception as e:
            return S.Failed(type(e).__name__, str(e)[:200])

    def history(self, case, memmap):
        """[(op label, result)] of one twin, in the current directory."""
        import dynaphopy
        res = []
        session = dyn = None
        try:
            with readers.quiet():
                sources.prepare(case['src'], 'source.dat')
                dyn = sources.open_source(case['src'], 'source.dat', memmap)
            for i, op in enumerate(case.get('before', ())):
                res.append(('before %d %s' % (i, op), op, self.direct(dyn, op)))
            with readers.quiet():
                session = dynaphopy.Quasiparticle(dyn, last_steps=case['keep'])
                S.apply_state(session, {'params': case['start'], 'temp': None, 'qha': None})
            for w in ('time', 'energy'):
                res.append(('read ' + w, ['touch', w], touch(dyn, w)))
        except SystemExit:
            return [('read', ['read'], S.Failed('SystemExit'))]
        except Exception as e:
            return [('read', ['read'], S.Failed(type(e).__name__, str(e)[:200]))]
        for i, op in enumerate(case['ops']):
            if op[0] == 'touch':
                r = self.direct(dyn, op)
            else:
                r = S.execute(session, op)
            if isinstance(r, S.Failed):
                r.exc = None
            res.append(('op %d %s' % (i, op), op, r))
        return res

    def run(self, case):
        out = Outcome()
        d = readers.workdir()
        os.chdir(d)
        os.environ.pop('DYNAPHOPY_TEMPDIR', None)
        world = S.World(case)
        for sub in ('memory', 'mapped', 'tmpdir'):
            os.mkdir(sub)
        for sub in ('memory', 'mapped'):
            world.files(sub)
        if case['tmp'] == 'tmpdir':
            os.environ['DYNAPHOPY_TEMPDIR'] = os.path.join(d, 'tmpdir')
        elif case['tmp'] == 'missing':
            os.environ['DYNAPHOPY_TEMPDIR'] = os.path.join(d, 'nothere')
        want = self.twin(case, 'memory')
        if want is None:
            raise RuntimeError('the in-memory twin died')
        os.chdir('mapped')
        got = self.history(case, True)
        ok = 0
        recent = []
        for i in range(max(len(got), len(want))):
            if i >= len(got) or i >= len(want):
                a, b = (got, want) if i >= len(got) else (want, got)
                out.fail('read-failed', '%s: reading %s fails (%s), the other mode works' %
                         (case['src']['kind'], 'mapped' if a is got else 'in memory', a[0][2]), 'read')
                break
            (lab, op, g), (_, _, x) = got[i], want[i]
            out.steps += 1
            out.note(lab, 'failed' if isinstance(g, S.Failed) else 'ok')
            if isinstance(g, S.Failed) != isinstance(x, S.Failed):
                out.fail('failed' if isinstance(g, S.Failed) else 'not-failed', '%s, %s: mapped %s, in memory %s' %
                         (case['src']['kind'], lab, (str(g) + ' ' + g.text) if isinstance(g, S.Failed) else 'works', (str(x) + ' ' + x.text) if isinstance(x, S.Failed) else 'works'), lab)
                break
            if isinstance(g, S.Failed):
                out.count('operations failing in both')
                continue
            ok += 1
            if S.wants_renormalized(op, g, x):
                pass
            diff = S.settle(op, g, x, lambda k: self.further(case, world, d, k, i, lab))
            if diff:
                out.fail('wrong-result', '%s, %s: mapped result %s (in memory)' % (case['src']['kind'], lab, diff), lab)
                break
            out.states.add('|'.join([case['src']['kind'], str('first' in case['src']), str('tail' in case['src']), str(case['tmp']), '.'.join(recent[-3:]), str(op)]))
            recent.append(op[0])
        out.nontrivial = ok >= 3
        return out

    def twin(self, case, where, salt=0):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                os.chdir(where)
                junk = [bytearray(16 * ((salt * 7919 + i * 104729) % 251 + 1)) for i in range(40 * salt)]
                del junk[::2]
                S.Oracle.send(w, self.history(case, False))
            finally:
                os._exit(0)
        os.close(w)
        want = S.Oracle.recv(r)
        os.close(r)
        os.waitpid(pid, 0)
        return want

    def further(self, case, world, base, k, i, lab):
        """Result i of yet another in-memory run."""
        where = os.path.join(base, 'memory%d' % k)
        if not os.path.isdir(where):
            os.mkdir(where)
            world.files(where)
            self.more = getattr(self, 'more', {})
            self.more[k] = self.twin(case, where, k)
        x = self.more[k]
        return x[i][2] if x is not None and len(x) > i and x[i][0] == lab else None

    def after_child(self, pid):
        readers.drop_workdir(pid)

    def shrink(self, case):
        for ops in shrink_list(case['ops']):
            yield dict(case, ops=ops)
        for ops in shrink_list(case.get('before', [])):
            yield dict(case, before=ops)
        if case['tmp']:
            yield dict(case, tmp=None)
        if case['keep']:
            yield dict(case, keep=None)
        s = case['src']
        for k in ('tail', 'first'):
            if s.get(k) is not None:
                yield dict(case, src={a: b for a, b in s.items() if a != k})
        for k, v in (('perm', False), ('trailing', False), ('route', 'direct')):
            if s[k] != v:
                yield dict(case, src=dict(s, **{k: v}))


CHECK = Check()

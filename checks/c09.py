"""C09: a failing disk never yields silently incomplete or wrong output."""
import errno
import gc
import io
import os
import signal
import sys

import numpy as np

from sim import cli, crystals, disk, readers
from sim import session as S
from sim.core import Outcome, shrink_list

OUTPUTS = ['full', 'wv', 'ph', 'vq', 'vc', 'partials', 'h5v', 'h5vc', 'h5', 'displ', 'mesh', 'bands', 'fc', 'quasi', 'quasix', 'saverf', 'xsf']
CLI = {'full': ['-sd', 'o'], 'wv': ['-sw', 'o'], 'ph': ['-sp', 'o'], 'vq': ['--save_vq', 'o'], 'vc': ['--save_vc', 'o', '1'], 'partials': ['--save_power_spectrum_partials', 'o'],
       'h5': ['-sv', 'o.h5'], 'h5v': ['-sv', 'o.h5', '--velocity_only'], 'h5vc': ['-svc', 'o.h5'], 'displ': ['-sad', '1', '0', '1', 'o'], 'mesh': ['-smesh'],
       'bands': ['--save_band_structure', 'o'], 'fc': ['-sfc', 'o'], 'quasi': ['-sdata'], 'quasix': ['-sdata', '--save_extra_properties'],
       'saverf': ['-sfc', 'o', '--save_renormalized_frequencies'], 'poscar': None, 'lammps': None}
ERRS = {'ENOSPC': errno.ENOSPC, 'EIO': errno.EIO, 'EDQUOT': errno.EDQUOT, 'EFBIG': errno.EFBIG}
OPEN_ERRS = {'EACCES': errno.EACCES, 'EMFILE': errno.EMFILE, 'ENOSPC': errno.ENOSPC, 'EROFS': errno.EROFS}


def write(session, what):
    """One output operation, nothing else."""
    if what == 'partials':
        session.get_power_spectrum_partials(save_to_file='partials.out')
    elif what == 'saverf':
        session.parameters.save_renormalized_frequencies = True
        session.write_renormalized_constants('out.fc')
    elif what == 'xsf':
        session.write_to_xfs_file('out.xsf')
    else:
        keep, S.read_file = S.read_file, lambda name: None
        try:
            S.request(session, ['file', what], io.StringIO())
        finally:
            S.read_file = keep


def attempt(session, what):
    """None (reported success) or a description of the error."""
    try:
        with readers.quiet():
            write(session, what)
    except SystemExit as e:
        return None if e.code in (None, 0) else 'exit %s' % e.code
    except BaseException as e:
        return '%s: %s' % (type(e).__name__, str(e)[:160])
    return None


def contents(skip=()):
    out = {}
    for n in sorted(os.listdir('.')):
        if os.path.isfile(n) and n not in skip:
            with open(n, 'rb') as f:
                out[n] = f.read()
    return out


def h5_values(data):
    import h5py
    with h5py.File(io.BytesIO(data), 'r') as f:
        return {k: f[k][()] for k in sorted(f)}


def same_text(n, got, refs):
    """None or how the text differs; numbers may differ by rounding, or as far as they do between the references."""
    op = ['file', {'out.quasi': 'quasi', 'out.quasix': 'quasix', 'out.mesh': 'mesh', 'out.bands': 'bands'}.get(n, 'quasi')]
    got, refs = got.decode('latin-1'), [r.decode('latin-1') for r in refs]
    return S.difference(got, S.nearest(got, refs), S.tolerance(op), n, S.floor(op))


def same(a, b, further=None):
    """None or the first file that differs; further(k): files of another undisturbed run."""
    for n in sorted(set(a) | set(b)):
        if n not in a:
            return '%s is missing' % n
        if n not in b:
            return 'unexpected file %s' % n
        if a[n] == b[n]:
            continue
        if n.endswith('.h5'):
            try:
                x, y = h5_values(a[n]), h5_values(b[n])
                d = S.difference(x, y, 1e-12)
                if d is None:
                    continue
            except Exception as e:
                return '%s cannot be read (%s)' % (n, type(e).__name__)
        else:
            refs = [b[n]]
            d = same_text(n, a[n], refs)
            for k in range(1, 9):
                if d is None or further is None or len(a[n]) < len(b[n]) // 2:
                    break
                r = further(k)
                if r and n in r:
                    refs.append(r[n])
                    d = same_text(n, a[n], refs)
            if d is None:
                continue
        k = next((i for i, (x, y) in enumerate(zip(a[n], b[n])) if x != y), min(len(a[n]), len(b[n])))
        return '%s has %d bytes, a working disk gives %d; first difference at byte %d (%s)' % (n, len(a[n]), len(b[n]), k, d)
    return None


class Check:
    prop = 'C09'
    level = 'exploration'
    quick_runs = 260
    batch = 128
    rule = ('one run = one session (or command line) history ending in an output operation, executed on a working disk and on a disk with one seeded fault plan (failing '
            'open/write/truncate/close once or from then on, short or interrupted writes, a disk that gets full after so many bytes); afterwards the disk works again, and '
            'settings, results and a second save are compared. Non-trivial: the fault fired')
    state_measure = '(output, route, fault kind, error, system call kind and position, once or lasting)'
    real = ['all output writers', 'Quasiparticle and everything it calls', 'scripts/dynaphopy', 'numpy.savetxt, PyYAML, h5py/HDF5, phonopy writers down to the system call']
    stub = ['system calls that change files below the run directory (sim/disk.c, preloaded)', 'plt.show', 'MD data (sim/crystals.py)']
    assumptions = ['writes through memory maps do not pass the simulated disk', 'a close that reports an error has closed the file']

    def boot(self):
        S.boot_session()

    def gen(self, rng, index, tier):
        case = S.gen_world(rng)
        case['memmap'] = False
        case['uneven'] = False
        case['give'] = rng.choice(['pos', 'both', 'both'])
        case['start'] = S.gen_start(rng, case)
        case['route'] = 'cli' if rng.random() < .2 else 'call'
        if case['route'] == 'cli':
            case['what'] = rng.choice(sorted(CLI))
        else:
            case['what'] = rng.choice(OUTPUTS)
        if case['what'].startswith('h5'):
            case['nsteps'] = rng.choice([60, 400, 700])
        case['before'] = [rng.choice([S.gen_setter(rng, case), list(rng.choice(S.LIGHT))]) for _ in range(rng.randrange(0, 3))] if case['route'] == 'call' else []
        case['before'] = [o for o in case['before'] if o[0] != 'file' and o != ['w_partials']]
        case['after'] = [list(rng.choice(S.LIGHT + S.POS)) for _ in range(rng.randrange(0, 3))]
        case['after'] = [o for o in case['after'] if o[0] != 'file' and o != ['w_partials']]
        k = rng.choice(['error', 'error', 'error', 'full', 'full', 'short', 'interrupt'])
        case['fault'] = {'kind': k, 'call': rng.choice(['open', 'write', 'write', 'write', 'close', 'trunc', 'any']), 'pos': rng.random(), 'part': rng.choice([0, 1, 500, 999]),
                         'sticky': rng.random() < .4, 'err': rng.choice(sorted(ERRS)), 'openerr': rng.choice(sorted(OPEN_ERRS))}
        case['hold'] = rng.random() < .4       # the caller still holds the exception when saving again
        case['between'] = [S.gen_setter(rng, case, allow=('mem', 'res', 'alg', 'q', 'lim', 'crop', 'bins') if rng.random() < .8 else None)] if rng.random() < .6 else []   # before saving again
        if rng.random() < .4:
            # output larger than the buffer of a file
            case['start']['frequency_range'] = [round(i * 0.04, 6) for i in range(0, 351)]
            case['start']['spectrum_resolution'] = 0.04
        case['existing'] = rng.random() < .3   # the output is there already, from an earlier save
        return case

    def plan(self, f, trace):
        total = sum(n for k, n in trace if k == 'write')
        if f['kind'] == 'full':
            return disk.Fault(disk.FULL, capacity=int(total * f['pos']), arg=0)
        sites = [i for i, (k, n) in enumerate(trace) if f['call'] in (k, 'any') and (f['kind'] == 'error' or k == 'write')]
        if f['kind'] in ('short', 'interrupt'):
            sites = [i for i, (k, n) in enumerate(trace) if k == 'write']
        if not sites:
            sites = list(range(len(trace)))
        if not sites:
            return None
        t = sites[min(int(f['pos'] * len(sites)), len(sites) - 1)]
        if f['kind'] == 'error':
            err = OPEN_ERRS[f['openerr']] if trace[t][0] == 'open' else ERRS[f['err']]
            return disk.Fault(disk.ERR, target=t, err=err, sticky=f['sticky'])
        if f['kind'] == 'short':
            return disk.Fault(disk.SHORT, target=t, arg=f['part'], sticky=f['sticky'])
        return disk.Fault(disk.EINTR, target=t)

    # ---------------------------------------------------------------------------- session route
    def life(self, case, world, fault):
        """The whole history in the current directory, to be run in a process of its own."""
        world.files('.')
        base = set(os.listdir('.'))
        res = {}
        with readers.quiet():
            s = world.session()
            S.apply_state(s, {'params': case['start'], 'temp': None, 'qha': None})
        for op in case['before']:
            S.execute(s, op)
        if case['existing']:
            res['first'] = attempt(s, case['what'])
            # the earlier save holds something else
            for n in sorted(set(os.listdir('.')) - base):
                with open(n, 'wb') as f:
                    f.write(b'earlier contents\n' * 2000)
        before = S.snapshot(s.parameters)
        here = os.getcwd()
        (fault or disk.Fault()).arm(here)
        held = []
        try:
            with readers.quiet():
                write(s, case['what'])
            res['err'] = None
        except SystemExit as e:
            res['err'] = None if e.code in (None, 0) else 'exit %s' % e.code
        except BaseException as e:
            res['err'] = '%s: %s' % (type(e).__name__, str(e)[:160])
            if case['hold']:
                held.append(e)
        res['fired'] = disk.fired()
        res['trace'] = disk.trace()
        disk.disarm()
        res['settings'] = S.settings_difference(S.snapshot(s.parameters), before)
        res['files'] = contents(base)
        yield res
        for op in case['between']:
            S.execute(s, op)
        res = {'again': attempt(s, case['what'])}
        res['files'] = contents(base)
        del held[:]
        gc.collect()
        res['released'] = contents(base)
        res['after'] = []
        for op in case['after']:
            r = S.execute(s, op)
            if isinstance(r, S.Failed):
                r.exc = None
            res['after'].append(r)
        yield res

    def apart(self, folder, gen):
        """Results of gen() executed in a process of its own, and how that process ended."""
        r, w = os.pipe()
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                os.mkdir(folder)
                os.chdir(folder)
                signal.alarm(200)
                for x in gen():
                    S.Oracle.send(w, x)
            except BaseException:
                import traceback
                S.Oracle.send(w, {'harness': traceback.format_exc()[-1500:]})
            finally:
                # as an ordinary end: what is released at exit is released here
                os._exit(0)
        os.close(w)
        got = []
        while True:
            x = S.Oracle.recv(r)
            if x is None:
                break
            got.append(x)
        os.close(r)
        _, st = os.waitpid(pid, 0)
        return got, (os.WTERMSIG(st) if os.WIFSIGNALED(st) else 0)

    def run(self, case):
        out = Outcome()
        d = readers.workdir()
        os.chdir(d)
        os.environ.pop('DYNAPHOPY_TEMPDIR', None)
        world = S.World(case)
        if case['route'] == 'cli':
            return self.run_cli(case, world, out)
        good, sig = self.apart('good', lambda: self.life(case, world, None))
        if sig or len(good) != 2 or 'harness' in good[-1]:
            raise RuntimeError('the run on the working disk ended early: signal %s, %s' % (sig, good[-1:] and good[-1].get('harness')))
        if good[0]['err'] is not None or good[1]['again'] is not None:
            out.note('fails on a working disk', good[0]['err'])
            out.count('outputs failing on a working disk')
            out.count('failing: %s %s' % (case['route'], case['what']))
            return out
        plan = self.plan(case['fault'], good[0]['trace'])
        if plan is None:
            return out
        seen = {}

        def more(k, what, stage=1):
            """The same history on a working disk once more, with another layout of the memory."""
            if k not in seen:
                junk = [bytearray(16 * ((k * 7919 + i * 104729) % 251 + 1)) for i in range(40 * k)]
                del junk[::2]
                seen[k] = self.apart('good%d' % k, lambda: self.life(case, world, None))[0]
            return what(seen[k][stage]) if len(seen[k]) == 2 else None
        bad, sig = self.apart('bad', lambda: self.life(case, world, plan))
        if bad and 'harness' in bad[-1]:
            raise RuntimeError(bad[-1]['harness'])
        f = case['fault']
        where = self.where(plan, good[0]['trace'], f)
        label = '%s, %s' % (case['what'], where)
        out.steps += len(good[0]['trace'])
        if sig:
            out.nontrivial = True
            out.fail('process-died', self.died(case, plan, good[0]['trace'], label, sig, 'the save' if not bad else 'what follows'))
            out.note('died', sig)
            return out
        self.judge(case, out, plan, label, bad[0]['err'], bad[0]['fired'], bad[0]['files'], good[0]['files'], lambda k: more(k, lambda r: r['files'], 0))
        if out.violation:
            return out
        if bad[0]['settings'] and not good[0]['settings']:
            out.fail('settings', '%s: after the failed save %s' % (label, bad[0]['settings']))
            return out
        if bad[1]['again'] is not None:
            out.fail('not-usable', '%s: saving again on the working disk fails: %s' % (label, bad[1]['again']))
            return out
        diff = same(bad[1]['files'], good[1]['files'], lambda k: more(k, lambda r: r['files']))
        if diff:
            out.fail('wrong-later', '%s: saved again on the working disk: %s' % (label, diff))
            return out
        diff = same(bad[1]['released'], good[1]['released'], lambda k: more(k, lambda r: r['released']))
        if diff:
            out.fail('wrong-later', '%s: saved again on the working disk, then the first error released: %s' % (label, diff))
            return out
        for j, (op, g, x) in enumerate(zip(case['after'], bad[1]['after'], good[1]['after'])):
            if isinstance(g, S.Failed) != isinstance(x, S.Failed):
                out.fail('not-usable', '%s: afterwards %s %s' % (label, op, g if isinstance(g, S.Failed) else 'works'))
                return out
            if isinstance(g, S.Failed):
                continue
            df = S.settle(op, g, x, lambda k: more(k, lambda r: r['after'][j]))
            if df:
                out.fail('wrong-later', '%s: afterwards %s %s' % (label, op, df))
                return out
        return out

    def died(self, case, plan, trace, label, sig, when):
        """The HDF5 library keeps small data in a buffer of its own, up to 64 KiB, until the data set or file is closed."""
        small = case['what'].startswith('h5') and when == 'the save' and (case['fault']['kind'] == 'full' or case['fault']['kind'] == 'error' and plan.sticky)
        return '%s%s: the process was ended by signal %d during %s' % ('hdf5 save, failing write: ' if small else '', label, sig, when)

    def where(self, plan, trace, f):
        if plan.action == disk.FULL:
            return 'disk full after %d bytes' % plan.capacity
        k, n = trace[plan.target]
        return '%s at call %d of %d (%s%s)%s' % ({disk.ERR: 'error ' + errno.errorcode.get(plan.err, '?'), disk.SHORT: 'short write', disk.EINTR: 'interrupted call'}[plan.action],
                                                 plan.target, len(trace), k, ' of %d bytes' % n if k == 'write' else '', ' and later ones' if plan.sticky else '')

    def judge(self, case, out, plan, label, err, fired, files, want, further=None):
        f = case['fault']
        diff = same(files, want, further) if err is None else 'not compared'
        out.note(label, 'fired', fired, 'error' if err else 'success', 'same' if diff is None else 'other')
        if not fired:
            if err or diff:
                raise RuntimeError('no fault fired, but: %s %s' % (err, diff))
            return
        out.nontrivial = True
        out.count('fault:' + f['kind'] + (' lasting' if f['sticky'] and f['kind'] != 'full' else ''))
        out.states.add('|'.join([case['what'], case['route'], f['kind'], f['err'], str(plan.target), str(plan.sticky), str(int(f['pos'] * 8)) if plan.action == disk.FULL else '']))
        if plan.action in (disk.SHORT, disk.EINTR) and err:
            if plan.action == disk.EINTR and 'nterrupted' in err:
                return     # reported, not hidden
            out.fail('fails-needlessly', '%s: the operation fails: %s' % (label, err))
        elif err is None and diff:
            out.fail('silent', '%s: success is reported, but %s' % (label, diff))

    # -------------------------------------------------------------------------------- cli route
    def argv(self, case):
        p = case['start']
        if case['what'] == 'poscar':
            return ['input', '-c_poscar', 'o', '--dim', '2', '2', '2']
        if case['what'] == 'lammps':
            return ['input', '-c_lammps', 'o', '--dim', '2', '2', '2']
        q = p['reduced_q_vector']
        return ['input', '-lv', 'data.h5', '--silent', '--resolution', '0.25', '-r', '0', '14', '-cf', str(p['number_of_coefficients_mem']), '-psm', str(p['power_spectra_algorithm']),
                '-q'] + [str(x) for x in q] + CLI[case['what']]

    def run_cli(self, case, world, out):
        import h5py
        base = None
        got = {}
        plan = None
        for name in ('good', 'bad', 'again'):
            if name != 'again':
                os.mkdir(name)
            os.chdir('bad' if name == 'again' else name)
            if name != 'again':
                cli.write_inputs({'crystal': case['crystal'], 'mesh': case['start']['mesh_phonopy']})
                with h5py.File('data.h5', 'w') as f:
                    kw = {'velocity': world.velocity, 'time': world.time, 'super_cell': np.array(world.dims)}
                    if case['give'] != 'vel':
                        kw['trajectory'] = world.positions
                    for k, v in kw.items():
                        f.create_dataset(k, data=v)
            base = set(['POSCAR', 'FORCE_CONSTANTS', 'input', 'data.h5'])
            here = os.getcwd()
            fault = (plan if name == 'bad' else None) or disk.Fault()

            def before(fault=fault, here=here):
                fault.arm(here)

            def after():
                x = (disk.fired(), disk.trace())
                disk.disarm()
                return x
            e = cli.call('dynaphopy', self.argv(case), before=before, after=after)
            got[name] = (e, contents(base))
            os.chdir('..')
            if name == 'good':
                if not e.ok:
                    out.note('fails on a working disk', e)
                    out.count('outputs failing on a working disk')
                    out.count('failing: %s %s' % (case['route'], case['what']))
                    if case['what'] in ('poscar', 'lammps', 'full', 'h5'):
                        raise RuntimeError('command line: %s %s' % (e, e.text[-300:]))
                    return out
                plan = self.plan(case['fault'], e.extra[1])
                if plan is None:
                    return out
        e, files = got['bad']
        label = 'command line %s, %s' % (case['what'], self.where(plan, got['good'][0].extra[1], case['fault']))
        out.steps += len(got['good'][0].extra[1])
        if e.extra is None:
            out.nontrivial = True
            out.fail('process-died', self.died(case, plan, got['good'][0].extra[1], label, -e.status if e.status < 0 else 0, 'the save'))
            return out
        self.judge(case, out, plan, label, None if e.ok else str(e), e.extra[0], files, got['good'][1])
        if out.violation:
            return out
        e, files = got['again']
        if not e.ok:
            out.fail('not-usable', '%s: saving again on the working disk fails: %s' % (label, e))
            return out
        diff = same(files, got['good'][1])
        if diff:
            out.fail('wrong-later', '%s: saved again on the working disk: %s' % (label, diff))
        return out

    def after_child(self, pid):
        readers.drop_workdir(pid)

    def shrink(self, case):
        for ops in shrink_list(case['before']):
            yield dict(case, before=ops)
        for ops in shrink_list(case['after']):
            yield dict(case, after=ops)
        if case['between']:
            yield dict(case, between=[])
        for k in ('hold', 'existing'):
            if case[k]:
                yield dict(case, **{k: False})
        f = case['fault']
        if f['sticky']:
            yield dict(case, fault=dict(f, sticky=False))
        for p in (0., .5, .99):
            if f['pos'] != p:
                yield dict(case, fault=dict(f, pos=p))
        for n in (40, 60):
            if case['nsteps'] > n:
                yield dict(case, nsteps=n)


CHECK = Check()

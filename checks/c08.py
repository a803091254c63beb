"""C08: saved data reloads unchanged, and an analysis restarted from it gives the same results."""
import os
import signal
import sys

import numpy as np

from sim import cli, disk, mdfiles, readers
from sim import session as S
from sim.core import Outcome, shrink_list

NAMES = ['a.h5', 'b.h5', 'c.h5', 'd.h5']
ERRS = {'ENOSPC': 28, 'EIO': 5, 'EDQUOT': 122}
TEXT = {'sd': ['-sd', 'o_sd'], 'sw': ['-sw', 'o_sw'], 'sp': ['-sp', 'o_sp'], 'vq': ['--save_vq', 'o_vq'], 'vc': ['--save_vc', 'o_vc', '1'],
        'partials': ['--save_power_spectrum_partials', 'o_partials'], 'sad': ['-sad', '1', '0', '1', 'o_sad']}


class Content:
    """What a file is expected to hold."""

    def __init__(self, time, dims, trajectory=None, velocity=None, vc=None, q=None, read=False):
        self.time, self.dims, self.trajectory, self.velocity, self.vc, self.q = time, dims, trajectory, velocity, vc, q
        self.read = read    # goes back to a trajectory file: the text is rounded, and a window of it may have times of its own origin

    def kind(self):
        return 'vc' if self.vc is not None else ('full' if self.trajectory is not None else 'velocity')

    def cut(self, o):
        s = slice(o.get('from', 1) - 1, o.get('to'))

        def c(x):
            if x is None:
                return None
            x = x[s]
            return x[-o['n']:] if o.get('n') and len(x) else x
        return Content(c(self.time), self.dims, None if o.get('vonly') else c(self.trajectory), c(self.velocity), c(self.vc), self.q, self.read)

    def steps(self):
        return len(self.time)


def compare(got, want):
    """None or the difference of loaded data to a content."""
    for n in ('trajectory', 'velocity', 'vc', 'q'):
        g, w = got.get(n), getattr(want, n)
        if (g is None) != (w is None):
            return '%s is %s' % (n, 'missing' if g is None else 'unexpected')
        if g is None:
            continue
        if g.shape != w.shape:
            return '%s has shape %s instead of %s' % (n, g.shape, w.shape)
        if not np.array_equal(g, w) and not (want.read and np.allclose(g, w, rtol=0, atol=1e-9 * max(np.abs(w).max(), 1))):
            k = np.argwhere(~np.isclose(g, w, rtol=1e-9 if want.read else 0, atol=0))[0]
            return '%s differs from the saved data, first at %s: %s instead of %s' % (n, k.tolist(), g[tuple(k)], w[tuple(k)])
    if got['time'].shape != want.time.shape:
        return 'time has %d entries instead of %d' % (len(got['time']), len(want.time))
    if want.read and len(want.time):
        got = dict(got, time=got['time'] - got['time'][0] + want.time[0])
    if len(want.time) and not np.allclose(got['time'], want.time, rtol=0, atol=1e-9):
        k = int(np.argmax(np.abs(got['time'] - want.time)))
        return 'time of step %d is %.9f instead of %.9f' % (k, got['time'][k], want.time[k])
    if not np.array_equal(np.array(got['dims']).ravel(), np.array(want.dims).ravel()):
        return 'supercell is %s instead of %s' % (got['dims'], want.dims)
    return None


def apart(fn, before=None):
    """fn() in a process of its own: (value, None) or (None, reason)."""
    r, w = os.pipe()
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            signal.alarm(200)
            with readers.quiet():
                try:
                    res = ('ok', fn())
                except SystemExit as e:
                    res = ('error', 'exit %s' % e.code)
                except BaseException as e:
                    res = ('error', '%s: %s' % (type(e).__name__, str(e)[:200]))
                if before is not None:
                    res = res + (before(),)
            S.Oracle.send(w, res)
            # an ordinary end of the process: the HDF5 library writes what it still holds
            sys.stdout = open(os.devnull, 'w')
            cli.finish()
        finally:
            os._exit(0)
    os.close(w)
    got = S.Oracle.recv(r)
    os.close(r)
    _, st = os.waitpid(pid, 0)
    if got is None:
        return None, 'died with %s' % ('signal %d' % os.WTERMSIG(st) if os.WIFSIGNALED(st) else 'status %d' % os.WEXITSTATUS(st)), None
    extra = got[2] if len(got) > 2 else None
    if os.WIFSIGNALED(st):
        return None, 'died with signal %d at its end' % os.WTERMSIG(st), extra
    return (got[1], None, extra) if got[0] == 'ok' else (None, got[1], extra)


class Check:
    prop = 'C08'
    level = 'exploration'
    quick_runs = 1800
    batch = 128
    rule = ('one run = a history of saves (whole, velocity only, projected; of the original data or of what an earlier file holds; through the session or the command line), '
            'concatenations, loads (window, last steps, mapped) and command line analyses over four files, each operation in a process of its own, some saves dying or failing at '
            'a seeded system call; a model keeps what every file must hold. Non-trivial: something saved was loaded or analysed, or a fault fired')
    state_measure = '(operation, kind of content, route, fault and relative position, generation of the file, outcome)'
    real = ['save_velocity_hdf5, save_vc_hdf5, initialize_from_hdf5_file, Dynamics, Quasiparticle', 'trajectory file readers', 'scripts/dynaphopy, scripts/concath5', 'h5py and the HDF5 library down to the system call']
    stub = ['system calls that change files below the run directory (sim/disk.c, preloaded)', 'MD data (sim/crystals.py)']
    assumptions = ['a process that dies loses nothing the system has accepted (no power failure)', 'concatenated files have the same content and an even time step',
                   'the HDF5 library may die when a small write fails (known finding of C09); here that counts as the death of the saving process']

    def boot(self):
        S.boot_session()

    # ------------------------------------------------------------------------------- generation
    def gen_window(self, rng, n):
        o = {}
        if rng.random() < .5:
            o['from'] = rng.choice([1, 2, 3, 5, 11])
        if rng.random() < .4:
            o['to'] = rng.choice([n // 2 + 9, n - 1, n, n + 3, 2 * n - 4])
        if rng.random() < .3:
            o['n'] = rng.choice([14, 20, n // 2, n, 5 * n])
        elif rng.random() < .2:
            o['nrel'] = rng.choice([-2, -1, -1, 0, 1])       # last steps, counted from what the window has
        return o

    def gen_fault(self, rng, tier):
        if rng.random() < .45:
            return None
        return {'kind': rng.choice(['crash', 'crash', 'torn', 'torn', 'error', 'error', 'error', 'full', 'full', 'short']), 'pos': rng.random(), 'part': rng.choice([1, 300, 700, 990]), 'sticky': rng.random() < .3,
                'err': rng.choice(sorted(ERRS))}

    def gen(self, rng, index, tier):
        case = S.gen_world(rng)
        case['memmap'] = False
        case['md'] = {'kind': rng.choice(mdfiles.FORMATS), 'style': rng.choice([0, 1, 3]), 'dt': rng.choice([.002, .0005]), 'every': rng.choice([1, 5, 10]), 'start': rng.choice([0, 0, 100]),
                      'frames': rng.choice([30, 45])} if rng.random() < .4 else None
        case['nsteps'] = n = rng.choice([30, 40, 60, 60, 90, 400, 700])
        d = case['dims']
        kind = {}
        ops = [['save', rng.choice(NAMES[:2]), None, {'kind': rng.choice(['h5', 'h5', 'h5v', 'h5vc']), 'q': S.commensurate(d, rng), 'route': 'call', 'fault': None}]]
        for _ in range(rng.randrange(3, 9 if tier == 'quick' else 16)):
            r = rng.random()
            if r < .3:
                o = {'kind': rng.choice(['h5', 'h5', 'h5v', 'h5vc']), 'q': S.commensurate(d, rng), 'route': rng.choice(['call', 'cli']), 'fault': self.gen_fault(rng, tier)}
                src = rng.choice([None] + NAMES[:3] + (['md', 'md'] if case['md'] else []))
                if src is None:
                    o['route'] = 'call'
                if rng.random() < .4:
                    o.update(self.gen_window(rng, n))
                if rng.random() < .15:
                    o['vonly'] = True
                o['memmap'] = rng.random() < .2
                ops.append(['save', rng.choice(NAMES[:3]), src, o])
            elif r < .45:
                ops.append(['concat', [rng.choice(NAMES[:3]) for _ in range(rng.choice([1, 2, 2, 3]))], rng.choice(NAMES), {'first': rng.choice([0, 0, 1, 5, 9]), 'vonly': rng.random() < .25,
                                                                                                                        'fault': self.gen_fault(rng, tier)}])
            elif r < .8:
                o = self.gen_window(rng, n)
                o['vonly'] = rng.random() < .2
                o['memmap'] = rng.random() < .25
                ops.append(['load', rng.choice(NAMES), o])
            else:
                o = self.gen_window(rng, n)
                o['vonly'] = rng.random() < .2
                o['memmap'] = rng.random() < .2
                o.update({'q': S.commensurate(d, rng), 'alg': rng.choice([0, 1, 1, 2, 3]), 'cf': rng.choice([6, 10]), 'res': rng.choice([.25, .5]), 'lim': rng.choice([[0, 14], [1, 10]]),
                          'out': sorted(rng.sample(sorted(TEXT), rng.choice([1, 2, 3])))})
                ops.append(['run', rng.choice(NAMES + (['md', 'md'] if case['md'] else [])), o])
        case['ops'] = ops + [['load', x, {}] for x in NAMES]
        return case

    # ---------------------------------------------------------------------------------- sessions
    def structure(self):
        from dynaphopy.interface import iofile as reading
        from dynaphopy.interface.phonopy_link import get_force_constants_from_file
        ip = reading.read_parameters_from_input_file('input')
        st = reading.read_from_file_structure_poscar(ip['structure_file_name_poscar'])
        st.get_data_from_dict(ip)
        st.set_force_constants(get_force_constants_from_file(file_name=ip['force_constants_file_name'], fc_supercell=ip['supercell_phonon']))
        return st, ip

    def session(self, content, o):
        """A session over arrays in memory."""
        import dynaphopy
        from dynaphopy.dynamics import Dynamics
        st, ip = self.structure()
        c = content.cut(o)
        cell = np.dot(np.diagflat(content.dims), st.get_cell())
        ip = dict(ip)
        if c.vc is not None:
            s = dynaphopy.Quasiparticle(Dynamics(structure=st, time=c.time.copy(), supercell=cell), vc=c.vc.copy())
            ip.update({'_reduced_q_vector': np.array(c.q), '_use_symmetry': False})
        else:
            kw = {}
            if c.trajectory is not None:
                kw['trajectory'] = c.trajectory.copy()
            if c.velocity is not None:
                kw['velocity'] = c.velocity.copy()
            s = dynaphopy.Quasiparticle(Dynamics(structure=st, time=c.time.copy(), supercell=cell, memmap=bool(o.get('memmap')), **kw))
        s.parameters.get_data_from_dict(ip)
        s.parameters.silent = True
        return s

    def opened(self, name, o):
        """A session over a file, as the command line makes it."""
        import dynaphopy
        from dynaphopy.interface import iofile as reading
        st, ip = self.structure()
        ip = dict(ip)
        t = self.parsed(st, o) if name == 'md' else reading.initialize_from_hdf5_file(name, st, read_trajectory=not o.get('vonly'), initial_cut=o.get('from', 1), final_cut=o.get('to'), memmap=bool(o.get('memmap')))
        if isinstance(t, (tuple, list)):
            s = dynaphopy.Quasiparticle(t[2], vc=t[0], last_steps=o.get('n'))
            ip.update({'_reduced_q_vector': t[1], '_use_symmetry': False})
        else:
            s = dynaphopy.Quasiparticle(t, last_steps=o.get('n'))
        s.parameters.get_data_from_dict(ip)
        s.parameters.silent = True
        return s

    def parsed(self, st, o):
        from dynaphopy.interface import iofile as reading
        return reading.get_trajectory_parser('md')('md', st, self.md_dt, initial_cut=o.get('from', 1), end_cut=o.get('to'), memmap=bool(o.get('memmap')), template=None)

    def md_content(self, case):
        """All steps of the trajectory file."""
        m = case['md']
        f = mdfiles.build(m['kind'], case['crystal'], tuple(case['dims']), m['frames'], case['seed'], style=m['style'], dt=m['dt'], every=m['every'], start=m['start'])
        self.md_dt = f.time_step
        with open('md', 'wb') as fh:
            fh.write(f.data)

        def g():
            d = self.parsed(self.structure()[0], {})
            v = None if d._velocity is None else np.array(d._velocity)
            return Content(np.array(d.get_time()), np.array(d.get_supercell_matrix()), trajectory=None if v is not None else np.array(d.trajectory), velocity=v, read=True)
        c, err, _ = apart(g)
        if c is None:
            raise RuntimeError('trajectory file: %s' % err)
        return c

    def md_options(self, o):
        """A trajectory file holds one kind of data, and is mapped only when the last step is given."""
        o['vonly'] = False
        if not o.get('to'):
            o['memmap'] = False

    def source(self, name):
        if name == 'md':
            return ['input', 'md'] + ([] if self.md_dt is None else ['-ts', self.md_dt])
        return ['input', '-lv', name]

    def saved(self, content, o):
        """The content which a save of this source gives, from arrays in memory only."""
        def f():
            s = self.session(content, o)
            t = np.array(s.dynamic.get_time())
            if o['kind'] == 'h5vc':
                if s._vc is None:
                    s.set_reduced_q_vector(np.array(o['q'], dtype=float))
                return Content(t, content.dims, vc=np.array(s.get_vc()), q=np.array(s.get_reduced_q_vector(), dtype=float), read=content.read)
            vel = np.array(s.dynamic.velocity)
            tr = s.dynamic.trajectory if o['kind'] == 'h5' else None
            return Content(t, content.dims, trajectory=None if tr is None else np.array(tr), velocity=vel, read=content.read)
        return apart(f)[:2]

    def loaded(self, name, o):
        def f():
            s = self.opened(name, o)
            d = s.dynamic
            res = {'time': np.array(d.get_time()), 'dims': np.array(d.get_supercell_matrix())}
            if s._vc is not None:
                res['vc'] = np.array(s.get_vc())
                res['q'] = np.array(s.get_reduced_q_vector(), dtype=float)
            else:
                if not o.get('vonly') and d._trajectory is not None:
                    res['trajectory'] = np.array(d.trajectory)
                res['velocity'] = np.array(d.velocity)
            return res
        return apart(f)[:2]

    def plan(self, f, trace):
        if f is None or not trace:
            return disk.Fault()
        t = min(int(f['pos'] * (len(trace) + (1 if f['kind'] == 'crash' else 0))), len(trace) - (0 if f['kind'] == 'crash' else 1))
        writes = [i for i, (k, n) in enumerate(trace) if k == 'write']
        if f['kind'] == 'crash':
            return disk.Fault(disk.CRASH, target=t)
        if f['kind'] == 'full':
            return disk.Fault(disk.FULL, capacity=int(sum(n for k, n in trace if k == 'write') * f['pos']), arg=0)
        if not writes:
            return disk.Fault()
        w = writes[min(int(f['pos'] * len(writes)), len(writes) - 1)]
        if f['kind'] == 'torn':
            return disk.Fault(disk.TORN, target=w, arg=f['part'])
        if f['kind'] == 'short':
            return disk.Fault(disk.SHORT, target=w, arg=f['part'], sticky=f['sticky'])
        return disk.Fault(disk.ERR, target=w, err=ERRS[f['err']], sticky=f['sticky'])

    def window_args(self, o):
        a = []
        if o.get('from'):
            a += ['--read_from', o['from']]
        if o.get('to'):
            a += ['--read_to', o['to']]
        if o.get('n'):
            a += ['-n', o['n']]
        if o.get('memmap'):
            a += ['--memmap']
        if o.get('vonly'):
            a += ['--velocity_only']
        return a

    def do_save(self, name, src, content, o, fault):
        """One save in a process of its own: (error or None, system calls)."""
        here = os.getcwd()

        def before():
            fault.arm(here)

        def after():
            x = (disk.fired(), disk.trace())
            return x
        if o.get('route') == 'cli' and o['kind'] in ('h5', 'h5v', 'h5vc'):
            argv = self.source(src) + ['--silent', '-q'] + list(o['q']) + self.window_args(o)
            argv += {'h5': ['-sv', name], 'h5v': ['-sv', name, '--velocity_only'], 'h5vc': ['-svc', name]}[o['kind']]
            if content.vc is not None:
                k = argv.index('-q')
                del argv[k:k + 4]
            e = cli.call('dynaphopy', argv, before=before, after=after)
            return (None if e.ok else str(e)), e.extra

        def f():
            s = self.opened(src, o) if src else self.session(content, o)
            if o['kind'] == 'h5vc' and s._vc is None:
                s.set_reduced_q_vector(np.array(o['q'], dtype=float))
            fault.arm(here)
            if o['kind'] == 'h5vc':
                s.save_vc_hdf5(name)
            else:
                s.save_velocity_hdf5(name, save_trajectory=o['kind'] == 'h5')
        res, err, extra = apart(f, before=after)
        return err, extra

    def do_concat(self, files, name, o, fault):
        here = os.getcwd()
        argv = list(files) + [name]
        argv = argv + ['-f', o['first']] + (['--velocity_only'] if o['vonly'] else [])
        e = cli.call('concath5', argv, before=lambda: fault.arm(here), after=lambda: (disk.fired(), disk.trace()))
        return (None if e.ok else str(e)), e.extra

    # ---------------------------------------------------------------------------------------- run
    def run(self, case):
        out = Outcome()
        d = readers.workdir()
        os.chdir(d)
        os.environ.pop('DYNAPHOPY_TEMPDIR', None)
        world = S.World(case)
        cli.write_inputs({'crystal': case['crystal']})
        kw = {}
        if case['give'] in ('pos', 'both'):
            kw['trajectory'] = world.positions
        if case['give'] in ('vel', 'both'):
            kw['velocity'] = world.velocity
        orig = Content(world.time, np.array(case['dims']), **kw)
        files = {}      # name -> list of possible contents; None among them: it may be unreadable
        gen = {None: 0, 'md': 0}
        if case['md']:
            files['md'] = [self.md_content(case)]
        for i, op in enumerate(case['ops']):
            out.steps += 1
            self.step(case, out, i, op, orig, files, gen)
            if out.violation:
                out.violation['at'] = i
                break
        return out

    @staticmethod
    def counted(o, content):
        if 'nrel' not in o:
            return o
        n = content.cut(o).steps() + o['nrel']
        o = {k: v for k, v in o.items() if k != 'nrel'}
        if n > 0:
            o['n'] = n
        return o

    def certain(self, files, name):
        c = files.get(name, [None])
        return c[0] if len(c) == 1 else None

    def step(self, case, out, i, op, orig, files, gen):
        k = op[0]
        if k in ('save', 'concat'):
            if k == 'save':
                _, name, src, o = op
                content = orig if src is None else self.certain(files, src)
                if content is None:
                    return out.note(i, 'no source')
                o = self.counted(dict(o), content)
                if src == 'md':
                    self.md_options(o)
                if content.vc is not None:
                    o['kind'] = 'h5vc'
                    if o.get('route') != 'cli':
                        o['q'] = None
                if content.kind() == 'velocity' and o['kind'] == 'h5' and o.get('route') != 'cli':
                    o['kind'] = 'h5v'
                if o.get('route') == 'cli' and o['kind'] in ('h5', 'h5v') and (o.get('vonly') or o['kind'] == 'h5v' or content.trajectory is None):
                    o['kind'], o['vonly'] = 'h5v', src != 'md'
                new, err = self.saved(content, o)
                if new is None or not new.steps():
                    return out.note(i, 'save of this source fails in memory too', err)
                do = lambda n, f: self.do_save(n, src, content, o, f)
                kind, g = o['kind'] + ' ' + o.get('route', ''), gen.get(src, 0) + 1
            else:
                _, names, name, o = op
                parts = [self.certain(files, n) for n in names]
                if any(p is None for p in parts) or len(set(p.kind() for p in parts)) > 1:
                    return out.note(i, 'nothing to join')
                if parts[0].vc is not None and (o['vonly'] or any(not np.array_equal(p.q, parts[0].q) for p in parts)):
                    return out.note(i, 'nothing to join')
                if any(p.steps() <= o['first'] + 1 for p in parts):
                    return out.note(i, 'nothing left to join')
                a = o['first']
                if max(np.ptp(np.diff(p.time)) for p in parts) > 1e-9:
                    return out.note(i, 'uneven times')
                t = parts[0].time[a:]
                for p in parts[1:]:
                    t = np.concatenate((t, p.time[a:] - p.time[a] + 2 * t[-1] - t[-2]))
                cat = lambda n: None if getattr(parts[0], n) is None else np.concatenate([getattr(p, n)[a:] for p in parts], axis=0)
                new = Content(t, parts[0].dims, None if o['vonly'] else cat('trajectory'), cat('velocity'), cat('vc'), parts[0].q, any(p.read for p in parts))
                do = lambda n, f: self.do_concat(names, n, o, f)
                kind, g = 'concat', max(gen.get(n, 0) for n in names) + 1
            old = files.get(name, [None])
            plan = disk.Fault()
            if o.get('fault'):
                err, extra = do('dry.h5', disk.Fault())
                if err:
                    return out.fail('save-fails', '%s of op %s: %s' % (kind, op, err))
                os.remove('dry.h5')
                plan = self.plan(o['fault'], extra[1])
            err, extra = do(name, plan)
            hit = plan.action != disk.NONE and (extra is None or bool(extra[0]))
            out.note(i, k, name, kind, 'fault' if hit else '-', err)
            if hit:
                out.nontrivial = True
                out.count('fault:%s%s' % (o['fault']['kind'], ' lasting' if o['fault']['sticky'] and o['fault']['kind'] in ('error', 'short') else ''))
            if err and not hit:
                return out.fail('save-fails', '%s of op %s: %s' % (kind, op, err))
            if err and plan.action == disk.ERR and not plan.sticky and 'signal' in err:
                return out.fail('process-died', '%s of op %s: %s because of one failing system call' % (kind, op, err))
            if err and plan.action == disk.SHORT:
                return out.fail('save-fails', '%s of op %s with writes completed in part: %s' % (kind, op, err))
            files[name] = [new] if not err else [new, None] + [c for c in old if c is not None]
            if err and len(files[name]) > 2 and not any(c is None for c in old):
                out.count('probe:save died over an earlier file')
            gen[name] = g
            out.states.add('|'.join([k, kind, str(o['fault'] and (o['fault']['kind'], int(o['fault']['pos'] * 6))), 'g%d' % min(g, 4), 'err' if err else 'ok', 'over' if old != [None] else 'new']))
            return
        name, o = op[1], op[2]
        allowed = files.get(name)
        if allowed is None:
            return
        if k == 'load':
            wants = [c for c in allowed if c is not None]
            if wants:
                o = self.counted(o, wants[0])
            got, err = self.loaded(name, o)
            wants = [c for c in wants if c.cut(o).steps() > 1]
            if not wants:
                return
            out.nontrivial = True
            out.count('probe:loads')
            label = 'load of %s %s (%s)' % (name, o, wants[0].kind())
            if got is None:
                if len(allowed) == 1:
                    return out.fail('load-fails', '%s: %s' % (label, err))
                out.count('probe:uncertain file not readable')
                files[name] = [None]
                out.states.add('|'.join(['load', wants[0].kind(), 'not readable']))
                return
            diffs, fits = [], []
            for c in wants:
                df = compare(got, c.cut(o))
                if df is None:
                    fits.append(c)
                diffs.append(df)
            if fits:
                    # what was too short for this window may still be there
                    files[name] = fits + ([x for x in allowed if x is not None and x not in wants] if len(allowed) > 1 else [])
                    c = fits[0]
                    if len(allowed) > 1:
                        out.count('probe:uncertain file holds the %s data' % ('new' if c is wants[0] else 'earlier'))
                    out.states.add('|'.join(['load', c.kind(), str(sorted(k for k in o if o[k])), 'g%d' % min(gen[name], 4)]))
                    return out.note(i, 'load', name, 'ok')
            return out.fail('wrong-after-fault' if len(allowed) > 1 else 'wrong-data', '%s: %s' % (label, '; '.join(diffs)))
        if k == 'run':
            c = self.certain(files, name)
            if c is None:
                return
            o = self.counted(dict(o), c)
            if name == 'md':
                self.md_options(o)
            if c.vc is not None:
                o['out'] = [x for x in o['out'] if x in ('sw', 'sp', 'vq', 'vc')] or ['sw']
                o['q'] = None
            if c.trajectory is None or o.get('vonly'):
                o['out'] = [x for x in o['out'] if x != 'sad'] or ['sw']
            if c.cut(o).steps() < 13:
                return
            argv = self.source(name) + ['--silent'] + self.window_args(o) + ['--resolution', o['res'], '-r'] + list(o['lim']) + ['-psm', o['alg'], '-cf', o['cf']]
            if o['q'] is not None:
                argv += ['-q'] + list(o['q'])
            for x in o['out']:
                argv += TEXT[x]
            for x in o['out']:
                if os.path.exists('o_' + x):
                    os.remove('o_' + x)
            here = os.getcwd()
            e = cli.call('dynaphopy', argv, before=lambda: disk.Fault().arm(here))
            want, err = self.analysis(c, o)
            out.nontrivial = True
            out.count('probe:command line analyses')
            label = 'command line %s on %s' % (' '.join(str(a) for a in argv[1:]), c.kind())
            if want is None or not e.ok:
                if want is None and not e.ok:
                    return out.note(i, 'run fails on both routes', err)
                return out.fail('restart-fails', '%s: %s; directly: %s' % (label, e if not e.ok else 'works', err))
            for x in o['out']:
                try:
                    with open('o_' + x) as f:
                        got = f.read()
                except OSError:
                    return out.fail('restart-fails', '%s: no output %s' % (label, x))
                df = S.difference(got, want[x], 1e-6, x)
                if df:
                    return out.fail('restart-differs', '%s: %s' % (label, df))
            out.states.add('|'.join(['run', c.kind(), str(o['alg']), ','.join(o['out']), 'g%d' % min(gen[name], 4)]))
            out.note(i, 'run', name, 'ok')

    def analysis(self, content, o):
        def f():
            s = self.session(content, o)
            s.set_temperature(None)
            s.set_spectra_resolution(o['res'])
            if o['q'] is not None:
                s.set_reduced_q_vector(np.array(o['q'], dtype=float))
            s.select_power_spectra_algorithm(o['alg'])
            s.set_number_of_mem_coefficients(o['cf'])
            s.set_frequency_limits(list(o['lim']))
            res = {}
            for x in o['out']:
                {'sd': s.write_power_spectrum_full, 'sw': s.write_power_spectrum_wave_vector, 'sp': s.write_power_spectrum_phonon, 'vq': s.save_vq, 'vc': lambda n: s.save_vc(n, 1),
                 'partials': lambda n: s.get_power_spectrum_partials(save_to_file=n), 'sad': lambda n: s.write_atomic_displacements([1, 0, 1], n)}[x]('direct_' + x)
                with open('direct_' + x) as fh:
                    res[x] = fh.read()
                os.remove('direct_' + x)
            return res
        return apart(f)[:2]

    def after_child(self, pid):
        readers.drop_workdir(pid)

    def shrink(self, case):
        for ops in shrink_list(case['ops']):
            yield dict(case, ops=ops)
        for i, op in enumerate(case['ops']):
            o = op[-1]
            for k in ('from', 'to', 'n', 'nrel', 'memmap', 'vonly', 'fault'):
                if o.get(k):
                    o2 = dict(o)
                    o2[k] = False if k in ('memmap', 'vonly') else None
                    if k in ('from', 'to', 'n', 'nrel'):
                        del o2[k]
                    yield dict(case, ops=case['ops'][:i] + [op[:-1] + [o2]] + case['ops'][i + 1:])
        for n in (30, 60):
            if case['nsteps'] > n:
                yield dict(case, nsteps=n)
        if case.get('md') and not any('md' in op[1:3] for op in case['ops']):
            yield dict(case, md=None)
        if case['crystal'] != 'sc':
            yield dict(case, crystal='sc', dims=[2, 2, 2])


CHECK = Check()

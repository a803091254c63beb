"""C05: temporary mapping files are private, confined and cleaned up."""
import errno
import gc
import hashlib
import json
import os
import tempfile

import numpy as np

from sim import readers, sources
from sim import session as S
from sim.core import Outcome, shrink_list

CELLS = [('sc', (1, 1, 1)), ('sc', (2, 1, 1)), ('ortho', (1, 1, 1)), ('cscl', (1, 1, 1)), ('hex', (2, 1, 1)), ('bcc', (1, 1, 1))]
ARRAYS = {'trajectory': lambda d: d.trajectory, 'velocity': lambda d: d.velocity, 'relative': lambda d: d.get_relative_trajectory(),
          'mass': lambda d: d.get_velocity_mass_average()}
LABELS = ('trajectory', 'velocity', 'r_trajectory', 'velocity_mass', 's_trajectory')


class Names:
    """The source of random file names, with few names so that they meet the files which are there."""

    def __init__(self, rng_ints):
        self.ints = list(rng_ints)
        self.i = 0

    def __iter__(self):
        return self

    def __next__(self):
        self.i += 1
        k = self.ints[self.i % len(self.ints)]
        return 'n%d' % (k if self.i < 60 else self.i)


class Check:
    prop = 'C05'
    level = 'exploration'
    quick_runs = 2500
    batch = 256
    rule = ('one run = up to four memory mapped (and in-memory) trajectories over random sources in one process, a temporary directory (set, unset, missing, a file, removed later) '
            'holding foreign and leftover files with the names the code uses, and a random history of computing, cropping, holding array references and releasing, with '
            'failing file removals and creations; directories and data are inspected after every step. A run can end with a process exit or by death and a second process '
            'over the leftovers. Non-trivial: at least one temporary file was created')
    state_measure = '(directory mode, sources alive, last three operations, fault armed, end)'
    real = ['dynamics.Dynamics', 'trajectory readers', 'numpy.memmap', 'the file system (scratch directories)', 'interpreter shutdown']
    stub = ['os.remove/os.unlink and file creation (pass-through, failing when told)', 'random names of tempfile (few, so that they collide)']
    assumptions = ['a file stays when the removal of that very file fails', 'a file may stay when the process dies']

    def boot(self):
        S.boot_session()

    def gen(self, rng, index, tier):
        case = {'dir': rng.choice(['set', 'set', 'set', 'unset', 'missing', 'file', 'slash', 'relative', 'readonly_gone']), 'names': [rng.randrange(4) for _ in range(7)],
                'leftovers': rng.random() < .7, 'end': rng.choice(['none', 'none', 'exit', 'exit', 'death']), 'src': []}
        for _ in range(rng.randrange(1, 4)):
            s = sources.gen(rng, CELLS, [4, 6, 9], kinds=('a_pos', 'a_vel', 'a_both', 'xdatcar', 'lammps_pos', 'lammps_vel', 'outcar', 'h5_pos', 'generated'))
            case['src'].append(s)
        ops = []
        live = 0
        for _ in range(rng.randrange(3, 14)):
            r = rng.random()
            if live == 0 or r < .22:
                ops.append(['open', rng.randrange(len(case['src'])), rng.random() < .85])
                live += 1
            elif r < .55:
                ops.append(['touch', rng.randrange(4), rng.choice(['velocity', 'relative', 'mass', 'trajectory', 'relative', 'mass'])])
            elif r < .68:
                ops.append(['crop', rng.randrange(4), rng.randrange(2, 8)])
            elif r < .76:
                ops.append(['hold', rng.randrange(4), rng.choice(['velocity', 'relative', 'mass', 'trajectory'])])
            elif r < .80:
                ops.append(['drop_held'])
            elif r < .85:
                ops.append(['fault', rng.choice(['remove', 'remove', 'create', 'create2'])])
            elif r < .89:
                ops.append(['env', rng.choice(['set', 'unset', 'other'])] if rng.random() < .5 else ['chdir'])
            else:
                ops.append(['release', rng.randrange(4)])
                live -= 1
        case['ops'] = ops
        return case

    # ------------------------------------------------------------------------------ simulated OS
    def listing(self):
        res = {}
        for d in self.dirs:
            if os.path.isdir(d):
                for n in os.listdir(d):
                    p = os.path.join(d, n)
                    if os.path.isfile(p):
                        res[p] = os.path.getsize(p)
        return res

    def digest(self, p):
        with open(p, 'rb') as f:
            return hashlib.sha256(f.read()).hexdigest()

    def install(self, out):
        self.fault = None
        self.excused = set()
        me = self
        real = {n: getattr(os, n) for n in ('remove', 'unlink', 'open')}
        import builtins
        ropen = builtins.open

        def inside(p):
            try:
                return os.path.dirname(os.path.abspath(os.fspath(p))) in me.dirs
            except TypeError:
                return False

        def remover(name):
            def f(path, *a, **k):
                if me.fault == 'remove' and inside(path) and os.path.exists(path):
                    me.fault = None
                    me.excused.add(os.path.abspath(path))
                    out.count('fault:removal failed')
                    raise PermissionError(errno.EACCES, 'simulated', path)
                return real[name](path, *a, **k)
            return f

        def creating(path):
            # a new file is being made in one of the directories
            if me.fault in ('create', 'create2') and inside(path) and not os.path.basename(os.fspath(path)).startswith('source'):
                if me.fault == 'create2':
                    me.fault = 'create'
                    return
                me.fault = None
                out.count('fault:creation failed')
                raise OSError(errno.ENOSPC, 'simulated', os.fspath(path))

        def os_open(path, flags, *a, **k):
            if flags & os.O_CREAT:
                creating(path)
            return real['open'](path, flags, *a, **k)

        def b_open(file, mode='r', *a, **k):
            if isinstance(file, (str, bytes, os.PathLike)) and ('w' in mode or 'x' in mode):
                creating(file)
            return ropen(file, mode, *a, **k)
        self.strays = []

        def audit(event, args):
            # files opened for writing or created anywhere else
            if event != 'open' or not isinstance(args[0], (str, bytes)):
                return
            mode, flags = args[1] or '', args[2] if isinstance(args[2], int) else 0
            if any(c in mode for c in 'wxa') or flags & (os.O_CREAT | os.O_TRUNC):
                p = os.path.abspath(os.fsdecode(args[0]))
                if not p.startswith(('/dev/', '/proc/')) and os.path.dirname(p) not in me.dirs:
                    me.strays.append(p)
        import sys
        sys.addaudithook(audit)
        os.remove, os.unlink, os.open, builtins.open = remover('remove'), remover('unlink'), os_open, b_open
        tempfile._name_sequence = Names(self.case['names'])

    # -------------------------------------------------------------------------------- history
    def setup(self, case):
        self.case = case
        base = os.path.abspath(readers.workdir())
        self.cwd = os.path.join(base, 'cwd')
        self.tmp = os.path.join(base, 'tmp')
        self.other = os.path.join(base, 'other')
        self.files = os.path.join(base, 'files')
        self.system = os.path.join(base, 'system')
        self.cwd2 = os.path.join(base, 'cwd2')
        for d in (self.cwd, self.cwd2, self.tmp, self.other, self.files, self.system):
            os.mkdir(d)
        self.dirs = {self.cwd, self.cwd2, self.tmp, self.other, self.system}
        os.environ['TMPDIR'] = os.environ['TMP'] = os.environ['TEMP'] = self.system
        tempfile.tempdir = None
        os.chdir(self.cwd)
        for i, s in enumerate(case['src']):
            with readers.quiet():
                sources.prepare(s, os.path.join(self.files, 'source%d' % i))
        self.set_env(case['dir'])

    def set_env(self, mode):
        os.environ.pop('DYNAPHOPY_TEMPDIR', None)
        self.mode = mode
        self.allowed = os.getcwd()
        if mode in ('set', 'slash', 'other', 'relative'):
            d = self.other if mode == 'other' else self.tmp
            os.environ['DYNAPHOPY_TEMPDIR'] = d + '/' if mode == 'slash' else (os.path.relpath(d) if mode == 'relative' else d)
            self.allowed = d
        elif mode == 'missing':
            os.environ['DYNAPHOPY_TEMPDIR'] = os.path.join(self.tmp, 'nothere')
        elif mode == 'file':
            p = os.path.join(self.files, 'plain')
            with open(p, 'w') as f:
                f.write('x')
            os.environ['DYNAPHOPY_TEMPDIR'] = p
        elif mode == 'readonly_gone':
            d = os.path.join(self.files, 'gone')
            os.environ['DYNAPHOPY_TEMPDIR'] = d

    def leftovers(self, pids):
        """Files of other users and of dead processes, with names like those the code has used."""
        for d in sorted(self.dirs):
            for pid in pids:
                for lab in LABELS:
                    for n in ('%s.%d' % (lab, pid), '%s.map' % lab) + tuple('%s.%d.n%d' % (lab, pid, k) for k in range(2)):
                        with open(os.path.join(d, n), 'wb') as f:
                            f.write(('keep %s' % n).encode() * 3)
            with open(os.path.join(d, 'notes.txt'), 'wb') as f:
                f.write(b'mine')

    def history(self, case, out):
        self.install(out)
        foreign = {p: self.digest(p) for p in self.listing()}
        live = []        # [dyn, source index, memmap, created files, model]
        held = []
        stay = set()     # files which may stay: their removal failed
        created_any = False
        for i, op in enumerate(case['ops']):
            at = 'op %d %s' % (i, op)
            before = self.listing()
            own = None
            allowed = self.allowed
            k = op[0]
            out.steps += 1
            slot = None
            if k in ('touch', 'crop', 'hold', 'release'):
                if not live:
                    continue
                slot = live[op[1] % len(live)]
            failed = None
            made = None
            armed = self.fault
            try:
                with readers.quiet():
                    if k == 'open':
                        src = case['src'][op[1]]
                        made = sources.open_source(src, os.path.join(self.files, 'source%d' % op[1]), op[2])
                        ref = sources.open_source(src, os.path.join(self.files, 'source%d' % op[1]), False)
                        live.append({'dyn': made, 'memmap': op[2], 'files': set(), 'ref': ref, 'dir': allowed, 'src': src, 'asked': set()})
                        own = live[-1]
                    elif k == 'touch':
                        own = slot
                        ARRAYS[op[2]](slot['dyn'])
                        slot['asked'].add(op[2])
                    elif k == 'hold':
                        own = slot
                        held.append(ARRAYS[op[2]](slot['dyn']))
                    elif k == 'crop':
                        own = slot
                        # what is derived from the cropped steps is made again when it is asked for
                        slot['asked'].clear()
                        slot['dyn'].crop_trajectory(op[2])
                        slot['ref'].crop_trajectory(op[2])
                    elif k == 'drop_held':
                        held.clear()
                    elif k == 'env':
                        self.set_env(op[1])
                    elif k == 'chdir' and self.mode != 'relative':
                        # (a relative temporary directory is another one after this)
                        here, there = os.getcwd(), self.cwd2 if os.getcwd() == self.cwd else self.cwd
                        os.chdir(there)
                        if self.allowed == here:
                            self.allowed = there
                        for t in live:
                            if t['dir'] == here:
                                t['dir'] = there
                    elif k == 'fault':
                        self.fault = op[1]
                    elif k == 'release':
                        live.remove(slot)
                        slot['dyn'] = slot['ref'] = None
            except SystemExit:
                failed = 'exit'
            except Exception as e:
                failed = '%s: %s' % (type(e).__name__, e)
                e.__traceback__ = None
                del e
            made = ref = None
            with readers.quiet():
                gc.collect()
            fired = armed is not None and self.fault != armed
            if failed is not None:
                # a trajectory without what was asked for (no positions; a single step), or the injected failure
                if k == 'open' and not fired:
                    src = case['src'][op[1]]
                    out.fail('open-failed', '%s: %s' % (src['kind'], failed), at)
                    return live, held
                if k in ('touch', 'hold') and not fired:
                    try:
                        with readers.quiet():
                            ARRAYS[op[2]](slot['ref'])
                        ok = True
                    except (Exception, SystemExit):
                        ok = False
                    if ok:
                        out.fail('operation-failed', '%s fails only when memory mapped: %s' % (op, failed), at)
                        return live, held
                if k == 'crop':
                    if not fired:
                        try:
                            with readers.quiet():
                                slot['ref'].crop_trajectory(op[2])
                            ok = True
                        except (Exception, SystemExit):
                            ok = False
                        if ok:
                            out.fail('operation-failed', '%s fails only when memory mapped: %s' % (op, failed), at)
                            return live, held
                    # how far a failed crop came is not this property: drop the trajectory
                    live.remove(slot)
                    slot['dyn'] = slot['ref'] = None
                    k = 'release'
                    with readers.quiet():
                        gc.collect()
                if k == 'release' and op[0] == 'release':
                    out.fail('release-raises', failed, at)
            after = self.listing()
            new = set(after) - set(before)
            if own is not None and own in live:
                own['files'] |= new
            elif k == 'open':
                if new - self.excused:
                    out.fail('file-left', 'a failed open leaves %s' % sorted(os.path.basename(p) for p in new), at)
            elif k == 'release':
                slot['files'] |= new
            elif new:
                out.fail('file-created', '%s creates %s' % (op, sorted(os.path.basename(p) for p in new)), at)
            created_any |= bool(new)
            # (1) confined
            for p in sorted(new):
                want = {allowed, self.allowed} | ({own['dir']} if own is not None else set())
                if os.path.dirname(p) not in want:
                    out.fail('outside-directory', 'created in %s, configured %s' % (os.path.basename(os.path.dirname(p)), sorted(os.path.basename(x) for x in want)), at)
            if self.strays:
                out.fail('outside-directory', 'opened for writing: %s' % sorted(os.path.basename(p) for p in self.strays), at)
            # (2) foreign files
            for p, dg in foreign.items():
                if p not in after:
                    out.fail('foreign-file-deleted', os.path.basename(p), at)
                elif self.digest(p) != dg:
                    out.fail('foreign-file-changed', os.path.basename(p), at)
            # (3) in-memory trajectories create nothing
            if new and own is not None and not own['memmap']:
                out.fail('file-created', 'an in-memory trajectory created %s' % sorted(os.path.basename(p) for p in new), at)
            # (4) shared: data of every live trajectory is its own
            for t in live:
                bad = self.data_difference(t)
                if bad:
                    out.fail('data-disturbed', 'trajectory over %s: %s' % (t['src']['kind'], bad), at)
            # (5) cleaned up
            stay |= self.excused
            expected_left = set()
            for t in live:
                expected_left |= t['files']
            extra = set(after) - set(foreign) - expected_left - stay
            if k in ('release', 'open') and extra:
                out.fail('file-left', 'released, but %s still there%s' % (sorted(os.path.basename(p) for p in extra), ' (arrays held)' if held else ''), at)
            out.note(at, failed and 'failed', len(new), len(after))
            out.states.add('|'.join([case['dir'], '.'.join(sorted(t['src']['kind'] for t in live)), '.'.join(o[0] for o in case['ops'][max(0, i - 2):i + 1]), str(self.fault)]))
            if out.violation:
                break
        out.nontrivial = created_any
        return live, held

    def data_difference(self, t):
        """Compare what the trajectory holds already (only looks at what was asked for before)."""
        d, r = t['dyn'], t['ref']
        if not t['memmap']:
            return None
        for n in sorted(t['asked'] | {'trajectory' if sources.has_positions(t['src']) else 'velocity'}):
            with readers.quiet():
                a, b = np.array(ARRAYS[n](d)), np.array(ARRAYS[n](r))
            if a.shape != b.shape or not np.allclose(a, b, rtol=1e-7, atol=1e-7):
                return n
        return None

    def child(self, case, r_end, end):
        """Run the history in a process of its own, so that its exit can be part of the simulation."""
        null = os.open(os.devnull, os.O_WRONLY)
        os.dup2(null, 1)
        os.dup2(null, 2)
        out = Outcome()
        live, held = self.history(case, out)
        S.Oracle.send(r_end, {'v': out.violation, 'counts': out.counts, 'states': out.states, 'log': out.log, 'steps': out.steps, 'nontrivial': out.nontrivial,
                              'excused': set(self.excused)})
        if end == 'exit' and not out.violation:
            self.fault = None
            import sys
            main = sys.modules['__main__']
            for i, t in enumerate(live):
                setattr(main, 'trajectory%d' % i, t['dyn'])
                t['dyn'] = t['ref'] = None
            main.held = held
            live = held = None
            sys.stdout = open(os.devnull, 'w')
            import ctypes
            ctypes.pythonapi.Py_Exit(0)
        os._exit(0)

    def run(self, case):
        out = Outcome()
        self.setup(case)
        r, w = os.pipe()
        hold_r, hold_w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                os.close(hold_w)
                os.read(hold_r, 1)
                self.child(case, w, case['end'])
            except BaseException:
                import traceback
                S.Oracle.send(w, {'error': traceback.format_exc()})
            finally:
                os._exit(0)
        os.close(w)
        os.close(hold_r)
        if case['leftovers']:
            self.leftovers([pid, os.getpid()])
        self.foreign = {p: self.digest(p) for p in self.listing()}
        os.write(hold_w, b'x')
        os.close(hold_w)
        ans = S.Oracle.recv(r)
        _, status = os.waitpid(pid, 0)
        if ans is None or 'error' in ans:
            raise RuntimeError('history process: %s' % (ans or status))
        out.violation, out.counts, out.states, out.log, out.steps, out.nontrivial = ans['v'], ans['counts'], ans['states'], [l.replace(str(pid), 'PID') for l in ans['log']], ans['steps'], ans['nontrivial']
        if out.violation:
            out.violation['detail'] = out.violation['detail'].replace(str(pid), 'PID')
            return out
        left = self.listing()
        for p, dg in self.foreign.items():
            if p not in left:
                out.fail('foreign-file-deleted', '%s at the end of the process' % os.path.basename(p).replace(str(pid), 'PID'), 'end')
            elif self.digest(p) != dg:
                out.fail('foreign-file-changed', '%s at the end of the process' % os.path.basename(p).replace(str(pid), 'PID'), 'end')
        if case['end'] == 'exit':
            out.count('fault:process exit with open trajectories')
            extra = set(left) - set(self.foreign) - ans['excused']
            if status:
                out.fail('exit-failed', 'the process ended with status %d' % status, 'end')
            if extra:
                out.fail('file-left', 'after the process ended: %s' % sorted(os.path.basename(p).replace(str(pid), 'PID') for p in extra), 'end')
        elif case['end'] == 'death' and not out.violation:
            # a second process works over the leftovers of the first
            out.count('fault:process died, leftovers stay')
            o2 = Outcome()
            live, held = self.history(case, o2)
            if o2.violation:
                out.violation = o2.violation
                out.violation['detail'] = ('after a died process: ' + out.violation['detail']).replace(str(pid), 'PID').replace(str(os.getpid()), 'PID')
        return out

    def after_child(self, pid):
        readers.drop_workdir(pid)

    def shrink(self, case):
        for ops in shrink_list(case['ops']):
            yield dict(case, ops=ops)
        for k, v in (('end', 'none'), ('leftovers', False), ('dir', 'set')):
            if case[k] != v:
                yield dict(case, **{k: v})


CHECK = Check()

"""C02: an interrupted or failing computation leaves no trace."""
import os

from sim import faults, readers
from sim import session as S
from sim.core import Outcome, shrink_list

GROUPS = {'code': ('interrupt', 'memory'), 'any': ('interrupt', 'memory'), 'kernel': ('interrupt', 'memory', 'runtime'), 'phonopy': ('interrupt', 'memory', 'runtime'), 'numeric': ('interrupt', 'memory'),
          'terminal': ('interrupt', 'os'), 'file': ('os', 'interrupt'), 'plot': ('interrupt', 'memory')}


class Check:
    prop = 'C02'
    level = 'fault_enumeration'
    quick_runs = 380
    batch = 64
    rule = ('one run = a session history (settings, requests, outputs) in which some requests are hit by a fault (user interrupt, lack of memory, library failure, failing terminal or '
            'output file) at a seeded call the request makes to its environment; the error must reach the caller, the settings must be those before, and every '
            'later result that of a session in which nothing failed. Non-trivial: a fault fired inside a request')
    state_measure = '(request, environment call that failed, kind, before or after the call, algorithm)'
    real = ['dynaphopy.Quasiparticle', 'dynaphopy.dynamics', 'analysis modules', 'native kernels', 'phonopy', 'numpy/scipy', 'file system (scratch directory)']
    stub = ['the calls listed in sim/faults.py (pass-through, failing when told)', 'plt.show', 'standard output', 'multiprocessing.cpu_count (1)', 'MD data']
    assumptions = ['faults strike at calls to libraries, kernels, terminal and files and at entries of functions of the code (outside the session class and the settings), not between any two statements', 'windows left open by a failed plot are closed by the harness',
                   'a failed output file may have any content (its success is C09)']

    def boot(self):
        S.boot_session(seams=True)

    def gen(self, rng, index, tier):
        case = S.gen_world(rng)
        case['nsteps'] = rng.choice([36, 40, 60])
        case['start'] = S.gen_start(rng, case)
        case['start']['silent'] = rng.random() < .3
        ops = []
        fav = [list(S.gen_request(rng, case)) for _ in range(rng.randrange(1, 3))]
        if rng.random() < .5:
            fav.append(list(rng.choice(S.HEAVY + [['partials'], ['ps_full_x', 1], ['temperature'], ['peaks'], ['w_partials']])))
        for _ in range(rng.randrange(1, 4)):
            r = rng.random()
            if r < .4:
                ops.append(S.gen_setter(rng, case))
            elif r < .6:
                ops.append(rng.choice(fav))
            op = rng.choice(fav)
            g = rng.choice(list(GROUPS) + ['code'] * 2)
            ops.append(['fault', {'group': g, 'kind': rng.choice(GROUPS[g]), 'frac': round(rng.random(), 4), 'nth': round(rng.random(), 4), 'when': rng.choice(['before', 'before', 'after'])}, op])
            if rng.random() < .7:
                ops.append(op)
            if rng.random() < .5:
                ops.append(list(S.gen_request(rng, case)))
        ops.append(rng.choice(fav))
        case['ops'] = ops
        return case

    def dry(self, session, op, group):
        """How many environment calls the request would make now (in a process of its own)."""
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                if group == 'code':
                    faults.ENTRIES.start()
                    S.execute(session, op, out_stream=faults.Terminal())
                    S.Oracle.send(w, sorted(faults.ENTRIES.stop().items()))
                    return
                faults.SEAM.start(group=None if group == 'any' else group)
                res = S.execute(session, op, out_stream=faults.Terminal())
                faults.SEAM.stop()
                S.Oracle.send(w, (faults.SEAM.n, isinstance(res, S.Failed)))
            finally:
                os._exit(0)
        os.close(w)
        ans = S.Oracle.recv(r)
        os.close(r)
        os.waitpid(pid, 0)
        return ans or (0, True)

    def run(self, case):
        out = Outcome()
        d = readers.workdir()
        os.chdir(d)
        os.environ.pop('DYNAPHOPY_TEMPDIR', None)
        world = S.World(case)
        world.files('.')
        oracle = S.Oracle(world)
        try:
            self.history(case, out, world, oracle)
        finally:
            oracle.close()
        out.count('fresh sessions asked', oracle.queries)
        return out

    def history(self, case, out, world, oracle):
        with readers.quiet():
            session = world.session(memmap=case['memmap'])
            state = S.initial_state(world, case['start'])
            S.apply_state(session, state)
        state['params'] = S.snapshot(session.parameters)
        for i, op in enumerate(case['ops']):
            at = 'op %d %s' % (i, op)
            out.steps += 1
            spec = None
            if op[0] == 'fault':
                spec, op = op[1], op[2]
            want, after = oracle.ask(state, op)
            asked = None
            if spec is not None and not isinstance(want, S.Failed):
                self.check_fault(spec, op, session, state, want, after, out, at, oracle)
                if out.violation:
                    return
                now = S.snapshot(session.parameters)
                if S.settings_difference(now, state['params']):
                    state = dict(state, params=after)
                continue
            got = S.execute(session, op)
            if S.wants_renormalized(op, got, want):
                asked = ['plot', 'fullfc']
                want = oracle.ask(state, asked)[0]
            now = S.snapshot(session.parameters)
            if isinstance(got, S.Failed) != isinstance(want, S.Failed):
                out.fail('wrong-result-later', '%s: session %s, fresh session %s; %s' % (op, got if isinstance(got, S.Failed) else 'succeeds', want if isinstance(want, S.Failed) else 'succeeds',
                         (got.text + getattr(got, 'trace', '')[-300:]) if isinstance(got, S.Failed) else ''), at)
                return
            if op[0] in S.SETTERS:
                if not isinstance(got, S.Failed):
                    state = S.set_expected(state, op, after)
            elif not isinstance(got, S.Failed):
                diff = oracle.differs(state, op, got, want, asked)
                if diff:
                    out.fail('wrong-result-later', '%s: %s' % (op, diff), at)
                    return
            diff = S.settings_difference(now, after)
            if diff:
                out.fail('settings-changed', '%s: %s' % (op, diff), at)
                return
            state = dict(state, params=after)

    def check_fault(self, spec, op, session, state, want, after, out, at, oracle):
        group = spec['group']
        if group == 'code':
            return self.check_entry(spec, op, session, state, want, after, out, at, oracle)
        n, _ = self.dry(session, op, group)
        if n == 0 and group != 'any':
            group = 'any'
            n, _ = self.dry(session, op, group)
        if n == 0:
            out.count('requests without calls (answered from memory)')
            return
        k = min(n - 1, int(spec['frac'] * n))
        kind = spec['kind']
        if group == 'any' and kind in ('os', 'runtime'):
            kind = 'memory'
        faults.SEAM.start(group=None if group == 'any' else group, target=k, when=spec['when'], make=faults.maker(kind))
        try:
            got = S.execute(session, op, out_stream=faults.Terminal())
        finally:
            faults.SEAM.stop()
        self.judge(op, kind, faults.SEAM.fired, got, session, state, want, after, out, at, oracle)

    def check_entry(self, spec, op, session, state, want, after, out, at, oracle):
        entries = self.dry(session, op, 'code')
        if not isinstance(entries, list) or not entries:
            out.count('requests without calls (answered from memory)')
            return
        name, n = entries[int(spec['frac'] * len(entries))]
        k = min(n - 1, int(spec.get('nth', .5) * n))
        faults.ENTRIES.start(target=(name, k), make=faults.maker(spec['kind']))
        try:
            got = S.execute(session, op, out_stream=faults.Terminal())
        finally:
            faults.ENTRIES.stop()
        self.judge(op, spec['kind'], faults.ENTRIES.fired, got, session, state, want, after, out, at, oracle)

    def judge(self, op, kind, fired, got, session, state, want, after, out, at, oracle):
        asked = None
        where = '%s, %s at %s' % (op, kind, fired)
        out.note(at, where, 'failed' if isinstance(got, S.Failed) else 'ok')
        if not fired:
            out.count('faults that did not fire')
        else:
            out.count('fault:%s at %s call' % (kind, fired.split('.')[0]))
            out.nontrivial = True
            out.states.add('|'.join([str(op), fired, kind, str(state['params'].get('power_spectra_algorithm'))]))
        if isinstance(got, S.Failed):
            if not fired:
                out.fail('wrong-result-later', '%s fails without a fault: %s %s' % (op, got, got.text), at)
                return
        else:
            if S.wants_renormalized(op, got, want):
                asked = ['plot', 'fullfc']
                want = oracle.ask(state, asked)[0]
            diff = oracle.differs(state, op, got, want, asked)
            if diff:
                out.fail('error-swallowed', '%s: no error reaches the caller and the result is wrong: %s' % (where, diff), at)
                return
        now = S.snapshot(session.parameters)
        diff = S.settings_difference(now, state['params'])
        if diff and S.settings_difference(now, after):
            bad = S.settings_difference(now, state['params'], ignore=('frequency_range',)) or S.settings_difference(now, after) or diff
            out.fail('settings-not-restored', '%s: %s' % (where, bad), at)

    def after_child(self, pid):
        readers.drop_workdir(pid)

    def shrink(self, case):
        for ops in shrink_list(case['ops']):
            yield dict(case, ops=ops)
        for k, v in (('memmap', False), ('uneven', False), ('nsteps', 40), ('give', 'pos')):
            if case[k] != v:
                yield dict(case, **{k: v})


CHECK = Check()

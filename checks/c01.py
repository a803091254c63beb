"""C01: every result of a session equals what a fresh session with the same settings gives."""
import os
import random

from sim import readers
from sim import session as S
from sim.core import Outcome, shrink_list


class Check:
    prop = 'C01'
    level = 'exploration'
    quick_runs = 440
    batch = 64
    rule = ('one run = one crystal, MD data set and starting configuration, and a random history of setting changes, crops, result requests, plots and '
            'file outputs on one session (every third run: some requests, one setting changed, the same requests again, going through all pairs of request and setting); after every operation the settings and the result are compared with a fresh session (new process, new '
            'directory) in the same settings. Non-trivial: a setting was changed between two requests')
    state_measure = '(request, kind of the last three operations before it, algorithm, symmetry, memory mode)'
    real = ['dynaphopy.Quasiparticle', 'dynaphopy.dynamics', 'projection, power spectrum, fitting, thermal modules', 'native kernels', 'phonopy', 'numpy/scipy']
    stub = ['plt.show (records the curves and closes the windows)', 'multiprocessing.cpu_count (1)', 'MD data (sim/crystals.py)']
    assumptions = ['a fresh session may start at any settings', 'the automatic frequency range of a quasiparticle request is the one a fresh session chooses']

    def boot(self):
        S.boot_session()

    def gen(self, rng, index, tier):
        case = S.gen_world(rng)
        case['start'] = S.gen_start(rng, case)
        if index % 3 == 0:
            return self.gen_pairs(rng, index // 3, case)
        ops = []
        fav = [S.gen_request(rng, case) for _ in range(rng.randrange(1, 4))]
        last = {'q': ['q', case['start']['reduced_q_vector']]}
        for _ in range(rng.randrange(3, 13)):
            r = rng.random()
            if r < .12:
                ops += S.gen_pair(rng, case, rng.choice(fav + [rng.choice(S.LIGHT)]))
            elif r < .45:
                s = S.gen_setter(rng, case)
                if s[0] == 'q' and rng.random() < .15:
                    s = ['q', [rng.choice([0, .25, .3, .5]) for _ in range(3)]]
                if s[0] in last and rng.random() < .35:
                    s = S.near(rng, last[s[0]])
                last[s[0]] = s
                ops.append(s)
                if s[0] == 'q' and rng.random() < .3:
                    ops.append([rng.choice(['vc', 'vq', 'eig'])])
            elif r < .8:
                ops.append(rng.choice(fav))
            else:
                ops.append(S.gen_request(rng, case))
        ops.append(rng.choice(fav))
        case['ops'] = [list(o) for o in ops]
        return case

    BLOCK = 8

    def gen_pairs(self, rng, index, case):
        """Some requests, one setting changed, the same requests again: every (request, setting) pair in turn."""
        table = random.Random(7).sample(S.LIGHT + S.POS, len(S.LIGHT + S.POS))
        blocks = [table[i:i + self.BLOCK] for i in range(0, len(table), self.BLOCK)]
        kind = S.SETTING_KINDS[index % len(S.SETTING_KINDS)]
        block = [list(r) for r in blocks[index // len(S.SETTING_KINDS) % len(blocks)]]
        if case['give'] == 'vel':
            case['give'] = rng.choice(['pos', 'both'])
        rng.shuffle(block)
        case['ops'] = block + [list(S.gen_change(rng, case, kind))] + rng.sample(block, len(block))
        return case

    def run(self, case):
        out = Outcome()
        d = readers.workdir()
        os.chdir(d)
        os.environ.pop('DYNAPHOPY_TEMPDIR', None)
        world = S.World(case)
        world.files('.')
        oracle = S.Oracle(world)
        try:
            with readers.quiet():
                session = world.session(memmap=case['memmap'])
                state = S.initial_state(world, case['start'])
                S.apply_state(session, state)
            state['params'] = S.snapshot(session.parameters)
            changed = False
            recent = []
            for i, op in enumerate(case['ops']):
                want, after = oracle.ask(state, op)
                asked = None
                got = S.execute(session, op)
                if S.wants_renormalized(op, got, want):
                    asked = ['plot', 'fullfc']
                    want = oracle.ask(state, asked)[0]
                now = S.snapshot(session.parameters)
                at = 'op %d %s' % (i, op)
                out.steps += 1
                out.note(at, 'failed' if isinstance(got, S.Failed) else 'ok')
                if isinstance(got, S.Failed) != isinstance(want, S.Failed):
                    out.fail('wrong-result', '%s: session %s, fresh session %s' %
                             (op, got if isinstance(got, S.Failed) else 'succeeds', want if isinstance(want, S.Failed) else 'succeeds') +
                             (('; %s %s' % (got.text, getattr(got, 'trace', '')[-300:])) if isinstance(got, S.Failed) else '; %s' % want.text), at)
                    break
                if isinstance(got, S.Failed):
                    out.count('requests that fail the same way in a fresh session')
                    diff = S.settings_difference(now, after)
                    if diff:
                        out.fail('settings-changed', 'failing %s: %s' % (op, diff), at)
                        break
                    state = dict(state, params=after)
                    continue
                if op[0] in S.SETTERS:
                    changed = True
                    state = S.set_expected(state, op, after)
                    diff = S.settings_difference(now, after)
                    if diff:
                        out.fail('wrong-settings', 'after %s: %s' % (op, diff), at)
                        break
                else:
                    if changed and i:
                        out.nontrivial = True
                    out.states.add('|'.join([str(op), '.'.join(recent[-3:]), str(now.get('power_spectra_algorithm')), str(now.get('use_symmetry')), str(case['memmap'])]))
                    diff = oracle.differs(state, op, got, want, asked)
                    if diff:
                        out.fail('wrong-result', '%s: %s' % (op, diff), at)
                        break
                    diff = S.settings_difference(now, after)
                    if diff:
                        out.fail('settings-changed', '%s: %s' % (op, diff), at)
                        break
                    state = dict(state, params=after)
                recent.append(op[0])
        finally:
            oracle.close()
        out.count('fresh sessions asked', oracle.queries)
        return out

    def after_child(self, pid):
        readers.drop_workdir(pid)

    def shrink(self, case):
        for ops in shrink_list(case['ops']):
            yield dict(case, ops=ops)
        for k, v in (('memmap', False), ('uneven', False), ('nsteps', 40), ('give', 'pos')):
            if case[k] != v:
                yield dict(case, **{k: v})
        s = case['start']
        for k, v in (('silent', True), ('use_symmetry', False), ('use_MD_cell_commensurate', False), ('reduced_q_vector', [0, 0, 0]), ('fitting_function', 0),
                     ('power_spectra_algorithm', 1)):
            if s[k] != v:
                yield dict(case, start=dict(s, **{k: v}))
        if case['crystal'] != 'sc':
            yield dict(case, crystal='sc', dims=[2, 2, 2])


CHECK = Check()

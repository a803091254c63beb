"""C11: results never depend on stale memory contents; native code stays in bounds and releases what it takes."""
import gc
import os
import sys

from sim import kernels as K
from sim import native, readers
from sim import session as S
from sim.core import Outcome, shrink_list

SESSION_REQUESTS = ('vc', 'vq', 'eig', 'freq', 'ps_ph', 'ps_wv', 'ps_full', 'avgpos', 'msd', 'displ', 'raw', 'time', 'temperature', 'comm', 'fc', 'adp', 'thermal', 'props', 'partials',
                    'mesh', 'rbands', 'boltzmann', 'plot', 'file', 'structure', 'qpoint', 'ps_full_x', 'shift', 'disp_thermal')


class Check:
    prop = 'C11'
    level = 'exploration'
    quick_runs = 1500
    batch = 256
    rule = ('two kinds of runs. Kernels: a sequence of kernel calls (also calls that are rejected) in one process on a simulated allocator which hands out memory with seeded contents '
            '(zeros, NaN, huge, random bits, plausible numbers), surrounds it with guard zones, and checks every access of the kernel; every result is compared with the same call as the first one of a fresh process on '
            'zeroed memory, inputs and reference counts are compared before and after, and everything taken must have been given back. Sessions: requests of a session whose arrays start '
            'with seeded contents, compared with a fresh session. Non-trivial: memory was handed out with non-zero contents')
    state_measure = '(kernel, layout, dtype, early exit or not, contents) of kernel calls and (request, algorithm, contents) of session requests'
    real = ['c/mem.c', 'c/correlation.c', 'c/displacements.c', 'dynaphopy.Quasiparticle and all below', 'numpy']
    stub = ['allocator (arena with guard zones, quarantine and seeded contents)', 'memory of numpy arrays (seeded contents)', 'OpenMP and thread sanitizer runtimes',
            'MD data (sim/crystals.py)']
    assumptions = ['steps of the correlation are positive and coefficients not negative', 'memory taken inside of Python, HDF5, FFTW or the C library is not simulated']

    def boot(self):
        K.boot_kernels()
        S.boot_imports()

    def gen(self, rng, index, tier):
        if rng.random() < .12:
            case = S.gen_world(rng)
            case['kind'] = 'session'
            case['start'] = S.gen_start(rng, case)
            ops = []
            while len(ops) < rng.randrange(2, 6):
                r = rng.random()
                op = S.gen_setter(rng, case) if r < .2 else S.gen_request(rng, case)
                ops.append(list(op))
            if rng.random() < .3:
                ops.insert(0, S.gen_setter(rng, case, allow=('proj', 'alg', 'q')))
                ops.append(list(rng.choice([['vc'], ['vq'], ['ps_wv'], ['ps_ph'], ['partials'], ['ps_full_x', 1]])))
            case['ops'] = ops
            case['heap'] = [rng.randrange(1, 7), rng.randrange(10 ** 9)]
            return case
        calls = []
        fav = [K.gen_call(rng, bad=0, functions=True) for _ in range(2)]
        for _ in range(rng.randrange(2, 14)):
            r = rng.random()
            c = dict(rng.choice(fav)) if r < .3 else K.gen_call(rng, bad=.25, functions=True)
            if r < .1:
                c['seed'] = rng.randrange(10 ** 6)
            if not c.get('bad'):
                K.widen(rng, c)
            calls.append({'call': c, 'heap': [rng.choice([0, 1, 1, 2, 3, 4, 5, 5, 6]), rng.randrange(10 ** 9)], 'repeat': rng.choice([0, 0, 0, 0, 20]),
                          'threads': rng.choice([1, 1, 2, 5]), 'tseed': rng.randrange(10 ** 6)})
        return {'kind': 'kernels', 'calls': calls}

    def run(self, case):
        return self.run_session(case) if case['kind'] == 'session' else self.run_kernels(case)

    # ------------------------------------------------------------------------------------ kernels
    def run_kernels(self, case):
        out = Outcome()
        fresh = []
        for x in case['calls']:
            def first(x=x):
                native.heap(0, 0)
                native.schedule(1)
                with native.numpy_memory(1):
                    call = K.Call(x['call'])
                    return call()
            fresh.append(first)
        wanted = [K.apart(f) for f in fresh]
        with native.numpy_memory(1):
            for i, (x, want) in enumerate(zip(case['calls'], wanted)):
                c = x['call']
                text = '%s of %d data (%s, %s%s%s)' % (c['k'], c['n'], c['dtype'], c['layout'], ', ' + c['bad'] if c.get('bad') else '', ', through the Python function' if c.get('function') else '')
                at = 'call %d' % i
                if isinstance(want, K.Died):
                    out.fail('process-died', '%s: %s' % (text, want), at)
                    return out
                native.schedule(x['threads'], 0, .05, x['tseed'])
                native.heap(0, 0)
                call = K.Call(c)
                native.heap(*x['heap'])
                image = call.image()
                objs = list(call.args.values())
                gc.collect()
                refs = [sys.getrefcount(o) for o in objs if not isinstance(o, (int, float, str, type(None)))]
                before = native.stats()
                got = call()
                d = K.difference(got, want, 1e-10)
                out.steps += 1
                out.count('fault:contents ' + native.CONTENTS[x['heap'][0]])
                if x['heap'][0]:
                    out.nontrivial = True
                if isinstance(got, K.Failed):
                    out.count('probe:rejected calls')
                out.states.add('|'.join(map(str, (c['k'], c['layout'], c['dtype'], c.get('bad'), isinstance(got, K.Failed), x['heap'][0], bool(c.get('function'))))))
                out.note(at, text, d, isinstance(got, K.Failed))
                p = native.problem()
                if p:
                    out.fail('out-of-bounds', '%s: %s' % (text, p), at)
                    return out
                if d:
                    out.fail('stale-memory', '%s after %d other calls with other memory contents (%s): %s' % (text, i, native.CONTENTS[x['heap'][0]], d), at)
                    return out
                if isinstance(got, K.Failed) and got.kind == 'SystemError':
                    out.fail('wrong-error', '%s: %s' % (text, got), at)
                    return out
                got = None
                gc.collect()
                after = native.stats()
                if after['blocks'] != before['blocks'] or after['block bytes'] != before['block bytes']:
                    out.fail('leak', '%s: %d blocks (%d bytes) were not released' % (text, after['blocks'] - before['blocks'], after['block bytes'] - before['block bytes']), at)
                    return out
                if after['arrays'] != before['arrays']:
                    out.fail('leak', '%s: %d arrays (%d bytes) are kept' % (text, after['arrays'] - before['arrays'], after['array bytes'] - before['array bytes']), at)
                    return out
                if call.image() != image:
                    out.fail('input-modified', '%s: its input changed' % text, at)
                    return out
                now = [sys.getrefcount(o) for o in objs if not isinstance(o, (int, float, str, type(None)))]
                if now != refs:
                    out.fail('leak', '%s: reference counts of the inputs went from %s to %s' % (text, refs, now), at)
                    return out
                if x['repeat']:
                    n = x['repeat']
                    grown = []
                    for _ in range(5):
                        # caches of the interpreter settle; what leaks grows in every round
                        b0 = sys.getallocatedblocks()
                        for _ in range(n):
                            call()
                        gc.collect()
                        grown.append(sys.getallocatedblocks() - b0)
                    out.count('probe:repeated calls', 5 * n)
                    if min(grown) >= n:
                        out.fail('leak', '%s: %d calls leave %d more objects, every time' % (text, n, min(grown)), at)
                        return out
                    p = native.problem()
                    if p:
                        out.fail('out-of-bounds', '%s, repeated: %s' % (text, p), at)
                        return out
        return out

    # ------------------------------------------------------------------------------------ sessions
    def run_session(self, case):
        out = Outcome()
        d = readers.workdir()
        os.chdir(d)
        os.environ.pop('DYNAPHOPY_TEMPDIR', None)
        native.schedule(1)
        world = S.World(case)
        world.files('.')
        oracle = S.Oracle(world)
        try:
            native.heap(*case['heap'])
            with native.numpy_memory(2), readers.quiet():
                session = world.session(memmap=case['memmap'])
                state = S.initial_state(world, case['start'])
                S.apply_state(session, state)
                state['params'] = S.snapshot(session.parameters)
                for i, op in enumerate(case['ops']):
                    at = 'op %d %s' % (i, op)
                    want, after = oracle.ask(state, op)
                    asked = None
                    got = S.execute(session, op)
                    if S.wants_renormalized(op, got, want):
                        asked = ['plot', 'fullfc']
                        want = oracle.ask(state, asked)[0]
                    out.steps += 1
                    out.note(at, 'failed' if isinstance(got, S.Failed) else 'ok')
                    if isinstance(got, S.Failed) != isinstance(want, S.Failed):
                        out.fail('stale-memory', '%s: with arrays that start as %s the session %s, a fresh session %s' % (
                            op, native.CONTENTS[case['heap'][0]], got if isinstance(got, S.Failed) else 'succeeds', want if isinstance(want, S.Failed) else 'succeeds'), at)
                        break
                    if isinstance(got, S.Failed):
                        state = dict(state, params=after)
                        continue
                    if op[0] in S.SETTERS:
                        state = S.set_expected(state, op, after)
                        continue
                    out.states.add('|'.join([str(op), str(state['params'].get('power_spectra_algorithm')), str(case['heap'][0])]))
                    diff = oracle.differs(state, op, got, want, asked)
                    if diff:
                        out.fail('stale-memory', '%s: with arrays that start as %s: %s' % (op, native.CONTENTS[case['heap'][0]], diff), at)
                        break
                    state = dict(state, params=after)
            out.count('fault:contents ' + native.CONTENTS[case['heap'][0]], native.stats()['filled'])
            out.nontrivial = native.stats()['filled'] > 0
            out.count('probe:session requests', out.steps)
        finally:
            oracle.close()
        return out

    def after_child(self, pid):
        readers.drop_workdir(pid)

    def shrink(self, case):
        if case['kind'] == 'session':
            for ops in shrink_list(case['ops']):
                yield dict(case, ops=ops)
            for k, v in (('memmap', False), ('uneven', False), ('nsteps', 40), ('give', 'pos')):
                if case[k] != v:
                    yield dict(case, **{k: v})
            for h in (1, 4):
                if case['heap'][0] != h:
                    yield dict(case, heap=[h, 1])
            return
        for x in shrink_list(case['calls']):
            if x:
                yield dict(case, calls=x)
        for i, x in enumerate(case['calls']):
            c = x['call']
            opts = []
            if x['threads'] != 1:
                opts.append(dict(x, threads=1))
            if x['repeat']:
                opts.append(dict(x, repeat=0))
            if x['heap'][0] not in (0, 1):
                opts.append(dict(x, heap=[1, 1]))
            for k, v in (('n', 2), ('n', 3), ('n', 7), ('nf', 1), ('nf', 3), ('layout', 'C'), ('flayout', 'C'), ('coefficients', 2)):
                if k in c and c[k] != v and (not isinstance(v, int) or (c[k] or 0) > v) and not c.get('function'):
                    opts.append(dict(x, call=dict(c, **{k: v})))
            for o in opts:
                yield dict(case, calls=case['calls'][:i] + [o] + case['calls'][i + 1:])


CHECK = Check()

"""C10: the spectrum kernels do not depend on the number of threads or their interleaving."""
from sim import kernels as K
from sim import native
from sim.core import Outcome, shrink_list


class Check:
    prop = 'C10'
    level = 'exploration'
    quick_runs = 5000
    batch = 512
    rule = ('one run = one to four kernel calls (or calls of the Python functions above them) of generated shape, each under several seeded schedules: 2 to 64 simulated threads whose '
            'every memory access is a possible switch, scheduled at random, by priorities with change points, directed at conflicting accesses, one after the other or in rotation; each result '
            'is compared with that of one thread. Non-trivial: threads were interleaved within a region')
    state_measure = 'hash of the schedule: (thread switched to, number of accesses before) for every switch'
    real = ['c/mem.c', 'c/correlation.c', 'power_spectrum.get_mem_power_spectra', 'power_spectrum.get_fourier_direct_power_spectra']
    stub = ['OpenMP runtime (coroutines under a seeded scheduler)', 'thread sanitizer runtime (every instrumented access is a scheduling point)']
    assumptions = ['accesses are interleaved one by one (sequential consistency): effects of weaker memory ordering are not simulated',
                   'the C library functions called inside a parallel region are atomic']

    def boot(self):
        K.boot_kernels()

    def gen(self, rng, index, tier):
        calls = []
        for _ in range(rng.randrange(1, 5)):
            c = K.gen_call(rng, ('mem', 'corr'), small=True, functions=True)
            if rng.random() < .7:
                c['data'], c['dtype'] = 'normal', 'c16'
            if rng.random() < .04 and not c.get('bad'):
                # many frequencies or many data: work is divided in other ways
                if rng.random() < .7:
                    c['nf'], c['n'] = rng.choice([32, 64, 100, 257, 512, 1030]), rng.choice([3, 5, 8])
                    if c['k'] == 'mem':
                        c['coefficients'] = rng.choice([1, 2, 4])
                else:
                    c['n'], c['nf'] = rng.choice([64, 150, 300]), rng.choice([2, 3, 5])
                    if c['k'] == 'corr':
                        c['step'] = max(c['n'] // rng.choice([4, 8]), 1)
                if c.get('function'):
                    c['n'] = max(c['n'], 20)
                    c['columns'] = 1
            calls.append(c)
        scheds = [{'threads': rng.choice([2, 2, 3, 4, 5, 7, 8, 16, 24, 33, 64]), 'policy': rng.choice([0, 0, 1, 1, 2, 2, 3, 4]), 'p': rng.choice([.5, .2, .05, .01, .002]),
                   'seed': rng.randrange(10 ** 9), 'span': rng.choice([50, 500, 5000]), 'granted': rng.choice([0, 0, 0, 1, 2, 3])} for _ in range(rng.randrange(2, 7 if tier == 'quick' else 16))]
        return {'calls': calls, 'schedules': scheds}

    def run(self, case):
        out = Outcome()
        inter = 0
        for i, c in enumerate(case['calls']):
            native.schedule(1)
            call = K.Call(c)
            want = call()
            out.note(i, 'one thread', getattr(want, 'shape', want))
            for j, s in enumerate(case['schedules']):
                native.schedule(s['threads'], s['policy'], s['p'], s['seed'], s['span'], s.get('granted', 0))
                got = call()
                st = native.stats()
                out.steps += st['accesses']
                if st['switches'] > s['threads']:
                    inter += 1
                    out.count('probe:interleaved calls')
                out.count('fault:schedule ' + native.POLICIES[s['policy']])
                if 0 < s.get('granted', 0) < s['threads']:
                    out.count('fault:fewer threads than asked for')
                if st['conflicts']:
                    out.count('probe:switches directed at shared data', st['conflicts'])
                out.states.add('%016x' % native.lib.nat_hash())
                d = K.difference(got, want, 1e-9)
                out.note(i, j, 'differs' if d else 'same', st['switches'], native.lib.nat_hash())
                if d:
                    out.fail('depends-on-threads', '%s of %d data, %s frequencies%s: with %d threads (%s) %s' % (
                        c['k'], c['n'], c.get('nf'), ' through the Python function' if c.get('function') else '', s['threads'], native.POLICIES[s['policy']], d), '%d %d' % (i, j))
                    return out
        out.nontrivial = inter > 0
        return out

    def shrink(self, case):
        for x in shrink_list(case['calls']):
            if x:
                yield dict(case, calls=x)
        for x in shrink_list(case['schedules']):
            if x:
                yield dict(case, schedules=x)
        s = case['schedules'][0]
        if len(case['schedules']) == 1:
            if s.get('granted'):
                yield dict(case, schedules=[dict(s, granted=0)])
            for n in (2, 3, 4):
                if n < s['threads']:
                    yield dict(case, schedules=[dict(s, threads=n)])
        c = case['calls'][0]
        if len(case['calls']) == 1:
            for k, v in (('nf', 2), ('nf', 3), ('n', 3), ('n', 5), ('layout', 'C'), ('flayout', 'C'), ('coefficients', 2), ('function', None)):
                if k in c and c[k] != v and (not isinstance(v, int) or (c[k] or 0) > v):
                    yield dict(case, calls=[dict(c, **{k: v})])


CHECK = Check()

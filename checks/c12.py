"""C12: a native kernel that cannot get its memory raises an error, gives back what it had, and works again afterwards."""
import gc
import sys

from sim import kernels as K
from sim import native
from sim.core import Outcome, shrink_list

DATA_SIZED = 300


class Check:
    prop = 'C12'
    level = 'exploration'
    quick_runs = 2500
    batch = 256
    rule = ('one run = a sequence of one to four kernel calls in one process; a dry run counts the allocations of data-dependent size (300 bytes or more; all dimensions of the inputs are chosen '
            'above that) of the call, then every one of them is refused in turn, alone, with the next one or with all later ones; after each failure an error must have been raised, everything released, '
            'guards intact, inputs and their reference counts unchanged, and a repeated call must give the result of an undisturbed process. Non-trivial: an allocation was refused')
    state_measure = '(kernel, layout, number of allocations, index refused, how many, allocator)'
    real = ['c/mem.c', 'c/correlation.c', 'c/displacements.c', 'numpy']
    stub = ['allocator of the kernels and of numpy arrays (refuses on plan)', 'OpenMP and thread sanitizer runtimes']
    assumptions = ['memory of interpreter objects and of blocks whose size does not depend on the data is not refused']

    def boot(self):
        K.boot_kernels()

    def gen(self, rng, index, tier):
        calls = []
        for _ in range(rng.randrange(1, 5)):
            c = K.gen_call(rng)
            c['n'] = rng.choice([40, 41, 57, 64, 100, 130])
            if 'nf' in c:
                c['nf'] = rng.choice([40, 43, 64])
            if 'coefficients' in c:
                c['coefficients'] = rng.choice([38, 40, 41, 60, 99, 100, 150, None])
            c['bad'] = None
            K.widen(rng, c)
            calls.append({'call': c, 'counts': [rng.choice([1, 1, 2, 10 ** 6]) for _ in range(3)], 'order': rng.randrange(10 ** 6),
                          'heap': [rng.choice([0, 1, 2, 3, 5]), rng.randrange(10 ** 9)], 'threads': rng.choice([1, 1, 1, 3])})
        return {'calls': calls, 'only': None}

    def run(self, case):
        out = Outcome()
        wanted = []
        for x in case['calls']:
            def first(x=x):
                native.heap(0, 0)
                native.plan()
                native.schedule(1)
                with native.numpy_memory(1):
                    return K.Call(x['call'])()
            wanted.append(K.apart(first))
        with native.numpy_memory(1):
            for i, (x, want) in enumerate(zip(case['calls'], wanted)):
                c = x['call']
                text = '%s of %d data (%s, %s)' % (c['k'], c['n'], c['dtype'], c['layout'])
                if isinstance(want, (K.Died, K.Failed)):
                    out.fail('call-fails', '%s with all memory it asks for: %s' % (text, want), 'call %d' % i)
                    return out
                native.plan()
                native.heap(*x['heap'])
                native.schedule(x['threads'], 0, .02, x['order'])
                call = K.Call(c)
                gc.collect()
                native.plan(DATA_SIZED, -1, 0)
                got = call()
                total = native.lib.nat_big()
                native.plan()
                d = K.difference(got, want, 1e-10)
                got = None
                if d:
                    out.fail('wrong-result', '%s: %s' % (text, d), 'call %d' % i)
                    return out
                if not self.refuse(out, case, i, x, call, want, total, text):
                    return out
        return out

    def refuse(self, out, case, i, x, call, want, total, text):
        c = x['call']
        plans = [(k, n) for n in sorted(set(x['counts'])) for k in range(total)]
        # all of them, in a seeded order
        plans.sort(key=lambda p: (p[0] * 7919 + p[1] * 104729 + x['order']) % 65537)
        if case['only'] is not None:
            plans = [p for p in plans if list(p) == case['only']]
        objs = [o for o in call.args.values() if not isinstance(o, (int, float, str, type(None)))]
        image = call.image()
        gc.collect()
        refs = [sys.getrefcount(o) for o in objs]
        base = native.stats()
        for k, n in plans:
            native.plan(DATA_SIZED, k, n)
            got = call()
            refused, kind = native.lib.nat_failed(), native.KINDS[1 + native.lib.nat_failed_kind()] if native.lib.nat_failed() else None
            native.plan()
            out.steps += 1
            how = '%s: allocation %d of %d%s (%s) refused' % (text, k + 1, total, '' if n == 1 else ' and the next one' if n == 2 else ' and all later ones', kind)
            at = [i, k, n]
            if not refused:
                out.note(how, 'not reached')
                continue
            out.nontrivial = True
            out.count('fault:%s refused' % kind, refused)
            out.states.add('|'.join(map(str, (c['k'], c['layout'], total, k, n, kind))))
            out.note(how, got if isinstance(got, K.Failed) else 'result')
            if not isinstance(got, K.Failed):
                d = K.difference(got, want, 1e-10)
                if d:
                    out.fail('no-error', '%s: the call returns a wrong result (%s)' % (how, d), at)
                    return False
                out.count('probe:result without the refused memory')
            elif got.kind == 'SystemError':
                out.fail('wrong-error', '%s: %s' % (how, got), at)
                return False
            got = None
            gc.collect()
            p = native.problem()
            if p:
                out.fail('out-of-bounds', '%s: %s' % (how, p), at)
                return False
            now = native.stats()
            for a, b in (('blocks', 'block bytes'), ('arrays', 'array bytes')):
                if now[a] != base[a]:
                    out.fail('leak', '%s: %d %s (%d bytes) are not released' % (how, now[a] - base[a], a, now[b] - base[b]), at)
                    return False
            if [sys.getrefcount(o) for o in objs] != refs:
                out.fail('leak', '%s: reference counts of the inputs changed' % how, at)
                return False
            if call.image() != image:
                out.fail('input-modified', '%s: the input changed' % how, at)
                return False
            again = call()
            d = K.difference(again, want, 1e-10)
            again = None
            if d:
                out.fail('wrong-retry', '%s: a call afterwards %s' % (how, d), at)
                return False
        return True

    def shrink(self, case):
        for x in shrink_list(case['calls']):
            if x:
                yield dict(case, calls=x)
        if len(case['calls']) == 1:
            x = case['calls'][0]
            if x['threads'] != 1:
                yield dict(case, calls=[dict(x, threads=1)])
            if case['only'] is None:
                for n in sorted(set(x['counts'])):
                    for k in range(12):
                        yield dict(case, only=[k, n])
            c = x['call']
            for k, v in (('n', 40), ('nf', 40), ('coefficients', 40), ('layout', 'C'), ('flayout', 'C'), ('dtype', 'c16')):
                if k in c and c[k] != v:
                    yield dict(case, calls=[dict(x, call=dict(c, **{k: v}))])


CHECK = Check()

"""C03: calculations side by side in one process do not disturb each other."""
import gc
import itertools
import os
import sys
import weakref

import numpy as np

from sim import crystals, readers
from sim import session as S
from sim.core import Outcome, shrink_list

RAW = [['raw', 'trajectory'], ['raw', 'relative'], ['raw', 'mass'], ['raw', 'supercell'], ['structure'], ['time']]
QS = [[0, 0, 0], [.5, 0, 0], [0, .5, 0], [.5, .5, 0], [.5, .5, .5]]


def recycled_ids():
    """id() as the code under test sees it: the number of an object that is gone is at once the number of the next one
    (what CPython's allocator may do at any time, made the rule)."""
    import builtins
    free, numbers, fresh = {}, {}, itertools.count(1)

    def number(obj):
        real = builtins.id(obj)
        if real in numbers:
            return numbers[real]
        try:
            weakref.finalize(obj, gone, real, type(obj)).atexit = False
        except TypeError:
            return real
        left = free.get(type(obj))
        numbers[real] = left.pop() if left else (1 << 60) + 16 * next(fresh)
        return numbers[real]

    def gone(real, kind):
        free.setdefault(kind, []).append(numbers.pop(real))

    for name, module in list(sys.modules.items()):
        if name.split('.')[0] == 'dynaphopy' and 'id' not in vars(module):
            module.id = number


class Check:
    prop = 'C03'
    level = 'exploration'
    quick_runs = 500
    batch = 64
    rule = ('one run = two or three MD data sets (same or different crystals, shared or own structure object, shared or own arrays and trajectory, in memory or memory mapped), up to four '
            'sessions over them in one process, and a random interleaving of opening, requests, crops, temperatures, external force constants, changes of the common settings '
            'and releases; each result is compared with that of the session alone in a fresh process. Non-trivial: requests of at least two sessions interleaved')
    state_measure = '(request, operations on other sessions since the last one of this session, shared objects, memory mode)'
    real = ['dynaphopy.Quasiparticle', 'dynaphopy.dynamics', 'dynaphopy.atoms', 'parameters', 'all analysis modules', 'native kernels', 'phonopy']
    stub = ['plt.show', 'multiprocessing.cpu_count (1)', 'MD data']
    assumptions = ['all live sessions are given the same settings, and are opened again over their trajectories when these change (the settings object is shared: known finding)',
                   'a session over a trajectory that another session uses too is not cropped']

    def boot(self):
        S.boot_session()
        recycled_ids()

    def fixed_cases(self):
        w = {'crystal': 'sc', 'dims': [2, 2, 2], 'nsteps': 40, 'dt': 0.02, 'seed': 5, 'give': 'both', 'memmap': False, 'uneven': False}
        import random
        start = S.gen_start(random.Random(1), w)
        start.update(power_spectra_algorithm=1, fitting_function=0, reduced_q_vector=[0.5, 0, 0])
        # a setting changed on one of two sessions
        yield {'worlds': [w, dict(w, seed=6)], 'start': start, 'share_structure': False,
               'ops': [['open', 0, False], ['open', 1, False], ['set_one', 0, ['q', [0, 0.5, 0]]]]}

    def gen(self, rng, index, tier):
        n = rng.choice([2, 2, 3])
        worlds = []
        for i in range(n):
            w = S.gen_world(rng)
            if i and rng.random() < .5:
                w['crystal'], w['dims'] = worlds[0]['crystal'], worlds[0]['dims']
                if rng.random() < .3:
                    w['dims'] = list(rng.choice([(2, 2, 2), (2, 1, 1), (1, 2, 1), (2, 2, 1)]))
            if i and rng.random() < .35:
                # what two crystals have in common must not be taken for the whole of them
                if worlds[0]['crystal'] in crystals.KIN and rng.random() < .7:
                    w['crystal'], w['dims'] = crystals.KIN[worlds[0]['crystal']], worlds[0]['dims']
                else:
                    w['crystal'], w['dims'], w['stiff'] = worlds[0]['crystal'], worlds[0]['dims'], 1.3
            w['nsteps'] = rng.choice([36, 40, 60])
            if i and w['crystal'] == worlds[0]['crystal'] and rng.random() < .6:
                w['nsteps'] = worlds[0]['nsteps']
            if i and w['crystal'] == worlds[0]['crystal'] and w['dims'] == worlds[0]['dims'] and rng.random() < .3:
                # as many atoms in another shape
                turn = [d for d in ([w['dims'][1], w['dims'][2], w['dims'][0]], [w['dims'][2], w['dims'][1], w['dims'][0]], w['dims'][::-1]) if d != w['dims']]
                w['dims'] = rng.choice(turn or [w['dims']])
            worlds.append(w)
        case = {'worlds': worlds, 'start': S.gen_start(rng, worlds[0]), 'share_structure': rng.random() < .35,
                'share_arrays': rng.random() < .35}
        case['start']['reduced_q_vector'] = rng.choice(QS)
        ops = []
        live = 0
        for _ in range(rng.randrange(6, 18)):
            r = rng.random()
            if live < 2 or (live < 4 and r < .1):
                ops.append(['open', rng.randrange(n), rng.random() < .35])
                live += 1
            elif r < .14:
                ops.append(['again', rng.randrange(4)])
                live += 1
            elif r < .68:
                if rng.random() < .3:
                    q = rng.choice(RAW)
                else:
                    q = S.gen_request(rng, {'give': 'both', 'crystal': 'sc', 'dims': [2, 2, 2]})
                ops.append(['req', rng.randrange(4), list(q)])
            elif r < .76:
                ops.append(['crop', rng.randrange(4), rng.choice([24, 28, 32, 36, 10 ** 4])])
            elif r < .82:
                ops.append(['one', rng.randrange(4), rng.choice([['temp', None], ['temp', 300.], ['temp', 700.], ['qha', 0], ['qha', 1], ['clear', 'full_clear']])])
            elif r < .93:
                k = rng.choice(['q', 'q', 'mem', 'res', 'alg', 'fit', 'lim', 'bands', 'silent', 'nac'])
                s = S.gen_setter(rng, {'dims': [2, 2, 2], 'crystal': 'sc'}, allow=(k,))
                if k == 'q':
                    s = ['q', rng.choice(QS)]
                ops.append(['all', s])
            else:
                ops.append(['release', rng.randrange(4)])
                live -= 1
        kin = any(crystals.KIN.get(w['crystal']) == worlds[0]['crystal'] for w in worlds[1:])
        if rng.random() < (.6 if kin else .25):
            # the same request from every session
            r = list(rng.choice(S.HEAVY) if rng.random() < .5 else S.gen_request(rng, {'give': 'both', 'crystal': 'sc', 'dims': [2, 2, 2]}))
            ops += [['req', i, r] for i in range(4)]
        if rng.random() < .3:
            # all closed, and others opened in their place
            ops += [['release', 0]] * 4
            for _ in range(2):
                w = rng.randrange(n)
                ops += [['open', w, rng.random() < .35]]
                ops += [['req', 0, list(rng.choice([['freq'], ['eig'], ['ps_ph']]))] for _ in range(2)] + [['release', 0]]
            ops += [['open', rng.randrange(n), False]]
        for i in range(4):
            ops.append(['req', i, list(rng.choice(RAW[:2] + [['ps_full'], ['ps_ph'], ['vc'], ['msd', 0], ['freq'], ['temperature']]))])
        case['ops'] = ops
        return case

    def run(self, case):
        out = Outcome()
        base = readers.workdir()
        os.chdir(base)
        os.environ.pop('DYNAPHOPY_TEMPDIR', None)
        worlds, oracles = [], []
        for i, w in enumerate(case['worlds']):
            d = os.path.join(base, 'w%d' % i)
            os.mkdir(d)
            os.chdir(d)
            world = S.World(w)
            world.files('.')
            worlds.append(world)
        try:
            for i, world in enumerate(worlds):
                os.chdir(os.path.join(base, 'w%d' % i))
                oracles.append(S.Oracle(world))
            self.history(case, out, base, worlds, oracles)
        finally:
            for o in reversed(oracles):
                o.close()
        out.count('fresh sessions asked', sum(o.queries for o in oracles))
        return out

    def history(self, case, out, base, worlds, oracles):
        import dynaphopy
        params = dict(case['start'])        # settings in force for every session
        live = []
        structures = {}
        users = set()
        trace = []

        def new_session(t):
            os.chdir(os.path.join(base, 'w%d' % t['w']))
            with readers.quiet():
                t['session'] = dynaphopy.Quasiparticle(t['dyn'])
                for x in live:
                    if x is not t and 'session' in x and len(params) > len(case['start']):
                        diff = S.settings_difference(S.snapshot(x['session'].parameters), params)
                        if diff:
                            out.fail('settings-changed', 'opening a session changes the settings of another: %s' % diff, 'op %d' % t['id'])
                S.apply_state(t['session'], {'params': params, 'temp': t['temp'], 'qha': t['qha']})

        for i, op in enumerate(case['ops']):
            at = 'op %d %s' % (i, op)
            k = op[0]
            out.steps += 1
            if k == 'open':
                w = op[1]
                with readers.quiet():
                    st = None
                    if case['share_structure']:
                        key = worlds[w].case['crystal'], worlds[w].case.get('stiff')
                        st = structures.setdefault(key, worlds[w].structure())
                    os.chdir(os.path.join(base, 'w%d' % w))
                    d = worlds[w].dynamics(memmap=op[2], structure=st, own=not case.get('share_arrays'))
                live.append({'w': w, 'dyn': d, 'n': worlds[w].nsteps, 'temp': None, 'qha': None, 'memmap': op[2], 'id': i})
                new_session(live[-1])
                if params is case['start'] or len(params) == len(case['start']):
                    params = S.snapshot(live[-1]['session'].parameters)
                trace.append(('open', i))
                continue
            if k == 'set_one':
                # on one session only: the settings of the others must stay
                a = live[op[1] % len(live)]
                others = [(t, S.snapshot(t['session'].parameters)) for t in live if t is not a]
                S.execute(a['session'], op[2])
                for t, was in others:
                    diff = S.settings_difference(S.snapshot(t['session'].parameters), was)
                    if diff:
                        out.fail('shared-settings', 'a setting of one session changes those of another: %s' % diff, at)
                return
            if k == 'all':
                # the settings of every session (they are shared: given once); opened again over the same trajectories
                if live:
                    os.chdir(os.path.join(base, 'w%d' % live[-1]['w']))
                    S.execute(live[-1]['session'], op[1])
                    _, params = oracles[live[-1]['w']].ask(self.state(live[-1], params), op[1])
                for t in live:
                    new_session(t)
                    diff = S.settings_difference(S.snapshot(t['session'].parameters), params)
                    if diff:
                        out.fail('wrong-settings', 'after %s: %s' % (op, diff), at)
                        return
                trace.append(('all', i))
                if out.violation:
                    return
                continue
            if not live:
                continue
            t = live[op[1] % len(live)]
            os.chdir(os.path.join(base, 'w%d' % t['w']))
            if k == 'again':
                n = dict(t, id=i)
                live.append(n)
                new_session(n)
            elif k == 'release':
                live.remove(t)
                t['session'] = t['dyn'] = None
                t = None
                with readers.quiet():
                    gc.collect()
            elif k in ('crop', 'one'):
                o = ['crop', op[2]] if k == 'crop' else op[2]
                if k == 'crop' and sum(1 for x in live if x['dyn'] is t['dyn']) > 1:
                    continue
                want, after = oracles[t['w']].ask(self.state(t, params), o)
                got = S.execute(t['session'], o)
                if isinstance(got, S.Failed) != isinstance(want, S.Failed):
                    out.fail('wrong-result', '%s: %s, alone %s' % (op, got, want), at)
                    return
                if isinstance(got, S.Failed):
                    return
                if o[0] == 'crop':
                    t['n'] = min(t['n'], o[1])
                elif o[0] in ('temp', 'qha'):
                    t[o[0]] = o[1]
                diff = S.settings_difference(S.snapshot(t['session'].parameters), after)
                if diff:
                    out.fail('wrong-settings', '%s: %s' % (op, diff), at)
                    return
            elif k == 'req':
                o = op[2]
                asked = None
                want, after = oracles[t['w']].ask(self.state(t, params), o)
                got = S.execute(t['session'], o)
                if S.wants_renormalized(o, got, want):
                    asked = ['plot', 'fullfc']
                    want = oracles[t['w']].ask(self.state(t, params), asked)[0]
                if isinstance(got, S.Failed) != isinstance(want, S.Failed):
                    out.fail('wrong-result', '%s: session %s %s, alone %s' % (o, got if isinstance(got, S.Failed) else 'succeeds', getattr(got, 'text', ''), want if isinstance(want, S.Failed) else 'succeeds'), at)
                    return
                if not isinstance(got, S.Failed):
                    diff = oracles[t['w']].differs(self.state(t, params), o, got, want, asked)
                    if diff:
                        out.fail('wrong-result', '%s of session %d: %s' % (o, t['id'], diff), at)
                        return
                    users.add(t['id'])
                else:
                    out.count('requests failing alone too')
                since = [x[0] for x in trace[-4:] if x[1] != t['id']]
                out.states.add('|'.join([str(o), '.'.join(since), str(case['share_structure']), str(t['memmap']), str(sum(1 for x in live if x['dyn'] is t['dyn']))]))
                if S.settings_difference(S.snapshot(t['session'].parameters), after):
                    out.fail('settings-changed', '%s: %s' % (o, S.settings_difference(S.snapshot(t['session'].parameters), after)), at)
                    return
                if S.settings_difference(params, after):
                    # the automatic frequency range is a setting, and it is shared
                    params = after
                    for x in live:
                        new_session(x)
            trace.append((k, t['id'] if t else -1))
            out.note(at, k)
        out.nontrivial = len(users) > 1

    def state(self, t, params):
        return {'n': t['n'], 'temp': t['temp'], 'qha': t['qha'], 'params': params}

    def after_child(self, pid):
        readers.drop_workdir(pid)

    def shrink(self, case):
        for ops in shrink_list(case['ops']):
            yield dict(case, ops=ops)
        if case['share_structure']:
            yield dict(case, share_structure=False)
        if case.get('share_arrays'):
            yield dict(case, share_arrays=False)


CHECK = Check()

"""C14: in the interactive session every preference takes effect on the next result."""
import argparse
import os
import re
import sys
from fractions import Fraction

import numpy as np

from sim import crystals, readers
from sim import session as S
from sim import terminal
from sim.core import Outcome, shrink_list

TITLES = {'main': 'Please enter option number', 'harmonic': 'Display...', 'spectra': '1 - Full power spectrum', 'renormalized': '1 - Harmonic and renormalized', 'preferences': 'Preferences...',
          'algorithms': 'Algorithms...', 'nac': 'Non analytical corrections...', 'fitting': 'Fitting functions...', 'frequencies': 'Frequencies (THz)'}
SUBMENU = {'1': 'harmonic', '5': 'spectra', '6': 'renormalized', '9': 'preferences'}
REQUEST = {('1', '1'): ['freq'], ('1', '2'): ['plot', 'eig'], ('1', '3'): ['plot', 'disp'], ('1', '4'): ['plot', 'dos'], ('3',): ['disp_thermal', 0], ('4',): ['boltzmann'],
           ('5', '1'): ['plot', 'full'], ('5', '2'): ['plot', 'wv'], ('5', '3'): ['plot', 'ph'], ('6', '1'): ['plot', ['rdisp', 0]], ('6', '2'): ['plot', 'rdispl'], ('6', '3'): ['plot', 'lwb'],
           ('6', '4'): ['plot', 'lw'], ('7',): ['peaks']}
INVALID = [ord('x'), ord('Q'), 27, 10, 9, 32, 410, -1, 233, 178, 259, ord('-'), ord('*')]
NUMBER = r'[-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?'


def spell(rng, v):
    """A number as a user may type it."""
    f = Fraction(v).limit_denominator(1000)
    return rng.choice([repr(float(v)), '%g' % v if float('%g' % v) == v else repr(float(v)), '%d/%d' % (f.numerator, f.denominator) if float(f) == float(v) else repr(float(v)), ' %r ' % float(v)])


def vector(text):
    return [float(Fraction(x)) for x in text.split(',')]


class Check:
    prop = 'C14'
    level = 'exploration'
    quick_runs = 260
    batch = 64
    rule = ('one run = one crystal and MD data set, starting settings, and a script of keys, typed values, invalid keys, window resizes and interruptions given to the interactive interface on a simulated '
            'terminal; whenever the program waits for the next key after an operation, what it plotted and printed is compared with a fresh session in the settings entered so far, the settings with the expected ones and the '
            'menu on the screen with the one expected and its values; at the end the terminal must be restored. Non-trivial: a preference was changed between two results')
    state_measure = '(operation, the two operations before it, algorithm)'
    real = ['dynaphopy.interface.interactive_ui', 'dynaphopy.Quasiparticle and all below', 'phonopy', 'numpy/scipy/matplotlib']
    stub = ['curses (screen grid, keys from the script)', 'time.sleep', 'plt.show (records the curves and closes the windows)', 'multiprocessing.cpu_count (1)', 'MD data (sim/crystals.py)']
    assumptions = ['the terminal has 24 rows and 80 columns or more', 'text that is no value may end the session, with the terminal restored and the settings unchanged']

    def boot(self):
        terminal.install()
        S.boot_session()
        S.PLOTS.arrows = True
        import dynaphopy.interface.interactive_ui  # noqa

    # ---------------------------------------------------------------------------------- generation
    def gen_pref(self, rng, case):
        k = rng.choice(['1', '1', '2', '3', '3', '4', '5', '6', '6', '7', '8', '8'])
        if k == '1':
            return [k, rng.choice([0, 1, 2, 1, 3])]
        if k == '2':
            return [k, rng.choice([1, 2])]
        if k == '3':
            return [k, rng.choice(['5', '6', '8', ' 10', '12', '14'])]
        if k == '4':
            return [k, rng.choice(['5', '8', '12', '20 '])]
        if k == '5':
            return [k, rng.choice(['3', '10', '25'])]
        if k == '6':
            return [k, rng.choice([0, 1, 2])]
        if k == '7':
            return [k, rng.choice(['0.2', '.25', '0.3', '0.5'])]
        return [k, rng.choice(['0,14', '1, 12', '1/2,10', '0.0,8', ' 2 , 10', '5,13', '0.1,14', '0,13.9', '1.05, 12'])]

    def gen_entry(self, rng, case, fav):
        r = rng.random()
        if r < .3:
            return ['9', [self.gen_pref(rng, case) for _ in range(rng.randrange(0, 4))]]
        if r < .42:
            q = S.wave_vector(case['dims'], rng) if rng.random() < .8 else [rng.choice([0, .25, .3, .5, 1 / 3.]) for _ in range(3)]
            return ['2', ','.join(spell(rng, x) for x in q)]
        if r < .72:
            return fav()
        if r < .78 and case['give'] != 'vel':
            return ['8', rng.choice(['1,0,0', '0, 0, 1', '1,1,0', '1/2, 0.5, 0'])]
        return rng.choice([['1', [rng.choice('1234') for _ in range(rng.randrange(0, 3))]], ['3'], ['4'], ['5', [rng.choice('123') for _ in range(rng.randrange(0, 4))]],
                           ['6', [rng.choice('1234') for _ in range(rng.randrange(0, 3))]], ['7']])

    def gen(self, rng, index, tier):
        case = S.gen_world(rng)
        case['start'] = S.gen_start(rng, case)
        case['born'] = rng.random() < .8
        case['window'] = rng.choice([[24, 80], [24, 140], [40, 160], [50, 200], [30, 132]])
        favs = [rng.choice([['5', ['1']], ['5', ['2']], ['5', ['3']], ['5', ['1', '2', '3']], ['1', ['1']], ['1', ['2']], ['1', ['3']], ['4'], ['7'], ['6', ['1']], ['6', ['2', '3']], ['3']])
                for _ in range(rng.randrange(1, 3))]
        entries = []
        for _ in range(rng.randrange(3, 12)):
            if rng.random() < .15:
                # a result, a preference, the result again
                p = self.gen_pref(rng, case)
                f = rng.choice(favs)
                entries += [f, ['9', [p]], f]
                continue
            entries.append(self.gen_entry(rng, case, lambda: rng.choice(favs)))
        case['noise'] = rng.choice([0, 0, .1, .4])
        case['nseed'] = rng.randrange(10 ** 9)
        r = rng.random()
        case['end'] = 'exit' if r < .75 else rng.choice(['interrupt', 'bad value'])
        case['entries'] = entries
        return case

    def script(self, case):
        """(events, operations): the keys, and after which of them which operation is complete."""
        import random
        rng = random.Random(case['nseed'])
        ev, ops = [], []

        def key(c, menu):
            if case['noise'] and menu in TITLES and menu not in ('frequencies',):
                while rng.random() < case['noise']:
                    if rng.random() < .2:
                        ev.append(['resize', rng.randrange(24, 60), rng.randrange(80, 200)])
                    else:
                        ev.append(['key', rng.choice(INVALID + ([ord(x) for x in {'main': '', 'harmonic': '56789', 'spectra': '456789', 'renormalized': '56789', 'preferences': '', 'algorithms': '6789',
                                                                                 'nac': '03456789', 'fitting': '345678'}[menu]])), menu])
            ev.append(['key', ord(c), menu])

        def done(op):
            ops.append(op)
            ev.append(['done', len(ops) - 1])

        for e in case['entries']:
            k = e[0]
            key(k, 'main')
            if k in SUBMENU:
                m = SUBMENU[k]
                for sub in e[1]:
                    if k == '9':
                        p, v = sub
                        key(p, m)
                        if p in '126':
                            sm = {'1': 'algorithms', '2': 'nac', '6': 'fitting'}[p]
                            done(['menu', sm])
                            key(str(v), sm)
                            done({'1': ['alg', v], '2': ['nac', v == 1] if case['born'] else ['none'], '6': ['fit', v]}[p])
                        else:
                            ev.append(['text', v])
                            done({'3': lambda: ['mem', int(v)], '4': lambda: ['bins', int(v)], '5': lambda: ['scale', int(v)], '7': lambda: ['res', float(v)], '8': lambda: ['lim', vector(v)]}[p]())
                    else:
                        key(sub, m)
                        done(['result', REQUEST[(k, sub)]])
                        if (k, sub) == ('1', '1'):
                            ev.append(['key', rng.choice(INVALID + [ord('0'), ord('1')]), 'frequencies'])
                key('0', m)
                done(['none'])
            elif k == '2':
                ev.append(['text', e[1]])
                done(['q', vector(e[1])])
            elif k == '8':
                ev.append(['text', e[1]])
                done(['result', ['plot', ['dist', vector(e[1])]]])
            else:
                done(['result', REQUEST[(k,)]])
                if k == '7':
                    ev.append(['key', rng.choice(INVALID + [ord('0'), ord('1')]), None])
        if case['end'] == 'exit':
            key('0', 'main')
        elif case['end'] == 'interrupt':
            n = rng.randrange(1, len(ev) + 1)
            ev, last = ev[:n], None
            ev.append(['interrupt'])
        else:
            where = rng.choice(['2', '8', '93', '94', '95', '97', '98'])
            for i, c in enumerate(where):
                ev.append(['key', ord(c), 'main' if i == 0 else 'preferences'])
            ev.append(['bad', rng.choice(['', 'abc', '1,x,0', '1/0,0,0', '--'])])
        return ev, ops

    # --------------------------------------------------------------------------------------- a run
    def run(self, case):
        from dynaphopy.interface import interactive_ui
        out = Outcome()
        d = readers.workdir()
        os.chdir(d)
        os.environ.pop('DYNAPHOPY_TEMPDIR', None)
        world = S.World(case)
        world.files('.')
        oracle = S.Oracle(world)
        if not case['born']:
            os.remove('BORN')
        T = terminal.TERM
        events, ops = self.script(case)
        bad = [i for i, e in enumerate(events) if e[0] == 'bad']
        if bad:
            events[bad[0]] = ['text', events[bad[0]][1]]
            events += [['bad']]
        self.out, self.oracle, self.case, self.ops = out, oracle, case, ops
        self.recent, self.current, self.changed = [], 0, False
        try:
            with readers.quiet():
                session = world.session(memmap=case['memmap'])
                state = S.initial_state(world, case['start'])
                S.apply_state(session, state)
            state['params'] = S.snapshot(session.parameters)
            self.state, self.session = state, session
            S.PLOTS.take()
            T.reset(case['window'][0], case['window'][1], [e for e in events if e[0] != 'bad'], self.on_screen, self.done)
            T.stop = False
            args = argparse.Namespace(input_file=['input_of_this_run'], load_data=None, md_file='XDATCAR')
            old, sys.stdout = sys.stdout, S.Out()
            self.stream = sys.stdout
            end = None
            try:
                interactive_ui.interactive_interface(session, session.dynamic, args, 'POSCAR')
                end = 'returned'
            except terminal.Diverged as e:
                end = 'diverged'
                out.fail('wrong-menu', 'operation %d: %s' % (self.current, e), 'op %d' % self.current)
            except terminal.Over as e:
                end = 'over'
            except Stop:
                end = 'stop'
            except KeyboardInterrupt:
                end = 'interrupt'
            except (Exception, SystemExit) as e:
                end = e
            finally:
                sys.stdout = old
            out.note('end', end if isinstance(end, str) else type(end).__name__, self.current)
            if out.violation is None:
                self.ending(end, case, T, out, ops)
        finally:
            oracle.close()
        out.simtime = T.clock
        out.count('fresh sessions asked', oracle.queries)
        return out

    def ending(self, end, case, T, out, ops):
        left = len(T.events) - T.i
        at = 'end'
        if isinstance(end, (Exception, SystemExit)):
            if case['end'] == 'bad value' and left == 0:
                out.count('fault:value that is none')
            elif self.current < len(ops) and ops[self.current][0] == 'result':
                want, after = self.oracle.ask(self.state, ops[self.current][1])
                if not isinstance(want, S.Failed):
                    out.fail('wrong-result', '%s ends the session with %s: %s; a fresh session succeeds' % (ops[self.current], type(end).__name__, str(end)[:200]), 'op %d' % self.current)
                    return
                out.count('results that fail the same way in a fresh session')
                return self.terminal(T, out, 'after a result that failed')
            else:
                out.fail('session-ends', '%s ends the session with %s: %s' % (ops[self.current] if self.current < len(ops) else 'leaving', type(end).__name__, str(end)[:200]), 'op %d' % self.current)
                return
        elif end == 'over':
            if case['end'] == 'exit':
                out.fail('wrong-menu', 'the session goes on after its exit was chosen in the main menu', at)
                return
            if case['end'] == 'interrupt':
                out.fail('interruption-lost', 'the session goes on after an interruption', at)
                return
            # the value was asked again or ignored
            out.count('fault:value that is none')
        elif end == 'interrupt':
            out.count('fault:interruption')
        elif end == 'returned' and (left or case['end'] == 'interrupt'):
            if any(e[0] != 'done' for e in T.events[T.i:]):
                out.fail('session-ends', 'the session ends before its exit was chosen (%d keys left)' % left, 'op %d' % self.current)
                return
        if case['end'] == 'bad value' and left == 0:
            diff = S.settings_difference(S.snapshot(self.session.parameters), self.state['params'])
            if diff:
                out.fail('wrong-settings', 'after a value that is none: %s' % diff, at)
                return
        if end != 'over':
            self.terminal(T, out, 'at the end')

    def terminal(self, T, out, when):
        if T.screen_mode:
            out.fail('terminal', 'the terminal is left in screen mode %s' % when, 'end')

    # ------------------------------------------------------------------------- called by the terminal
    def on_screen(self, menu, text):
        """None, or why the screen does not show this menu with the values in force."""
        if TITLES[menu] not in text:
            other = [m for m in TITLES if TITLES[m] in text]
            return 'the screen shows %s where the %s menu is expected' % (('the %s menu' % other[0]) if other else 'none of the menus', menu)
        p = self.state['params']

        def value(label, want, kind=float, tol=1e-6):
            m = re.search(re.escape(label) + r'\s*([^\n|]*)', text)
            if not m:
                return 'the %s menu does not show "%s"' % (menu, label)
            s = m.group(1)
            if kind is bool:
                got = s.split()[:1]
                return None if got == [str(bool(want))] else '%s %s shown, %s in force' % (label, s[:20], want)
            got = [float(x) for x in re.findall(NUMBER, s)][:len(want)]
            if len(got) < len(want) or not np.allclose(got, want, rtol=tol, atol=tol):
                return '%s %s shown, %s in force' % (label, s[:60], want)
            return None

        if menu == 'main' and terminal.TERM.cols >= 130:
            c = self.case['crystal']
            r = p['frequency_range']
            n = len(crystals.CRYSTALS[c]['pos'])
            for x in (value('Wave vector:', list(p['reduced_q_vector'])), value('Frequency range:', [r[0], r[-1]]), value('Pow. spectr. resolution:', [p['spectrum_resolution']]),
                      value('Unit cell atoms:', [n]), value('MD supercell atoms:', [n * int(np.prod(self.case['dims']))]), value('Number of MD time steps:', [self.state['n']]),
                      value('Primitive cell atoms:', [S.primitive_atoms(c)])):
                if x:
                    return x
        elif menu == 'preferences':
            for x in (value('(dispersion spectrum only):', p['use_NAC'], bool), value('Number of MEM coefficients:', [p['number_of_coefficients_mem']]),
                      value('(Boltzmann/displacements):', [p['number_of_bins_histogram']]), value('display vector scale:', [p['modes_vectors_scale']])):
                if x:
                    return x
        elif menu in ('algorithms', 'fitting'):
            want = p['power_spectra_algorithm' if menu == 'algorithms' else 'fitting_function']
            got = [int(x) for x in re.findall(r'>\s*(\d+)\s*:', text)]
            if got != [want]:
                return 'the %s menu marks %s, in force is %s' % (menu, got, want)
        elif menu == 'nac':
            got = re.findall(r'>\s*(?:\d - )?(On|Off)', text.replace('>1', '> 1').replace('>2', '> 2'))
            if got != ['On' if p['use_NAC'] else 'Off']:
                return 'the menu marks %s, in force is %s' % (got, p['use_NAC'])
        return None

    def done(self, k):
        op = self.ops[k]
        self.current = k
        out, at = self.out, 'op %d %s' % (k, op)
        out.steps += 1
        text = self.stream.getvalue()
        self.stream.seek(0)
        self.stream.truncate()
        shown = S.PLOTS.take()
        state = self.state
        if op[0] == 'result':
            req = op[1]
            want, after = self.oracle.ask(state, req)
            asked = None
            got = self.observed(req, text, shown)
            if S.wants_renormalized(req, got, want):
                asked = ['plot', 'fullfc']
                want = self.oracle.ask(state, asked)[0]
            if isinstance(want, S.Failed):
                out.fail('wrong-result', '%s: a fresh session fails (%s)' % (req, want.text), at)
                raise Stop()
            if req == ['freq']:
                want = ['%.4f' % abs(x) for x in np.ravel(want)]
                diff = None if len(got) == len(want) and all(abs(abs(float(a)) - float(b)) < 3e-4 for a, b in zip(got, want)) else 'shows %s, expected %s' % (got, want)
            else:
                diff = self.oracle.differs(state, req, got, want, asked)
            out.note(at, diff)
            if diff:
                out.fail('wrong-result', '%s: %s' % (req, diff), at)
                raise Stop()
            if self.changed:
                out.nontrivial = True
            self.state = dict(state, params=after)
            out.count('probe:results compared')
        elif op[0] == 'scale':
            self.state = dict(state, params=dict(state['params'], modes_vectors_scale=op[1]))
            self.changed = True
        elif op[0] in S.SETTERS:
            want, after = self.oracle.ask(state, op)
            self.state = S.set_expected(state, op, after)
            self.changed = True
            out.note(at)
        diff = S.settings_difference(S.snapshot(self.session.parameters), self.state['params'])
        if diff:
            out.fail('wrong-settings', 'after %s: %s' % (op, diff), at)
            raise Stop()
        out.states.add('|'.join([str(op), '.'.join(self.recent[-2:]), str(self.state['params']['power_spectra_algorithm'])]))
        self.recent.append(str(op[1] if op[0] == 'result' else op[0]))
        self.current = k + 1

    def observed(self, req, text, shown):
        """What the user saw of this result, in the form the fresh session reports it."""
        if req == ['freq']:
            found = {}
            for k, v in re.findall(r'(\d+): (-?\d+\.\d+)', terminal.TERM.text()):
                found[int(k)] = v
            return [found[k] for k in sorted(found)] if sorted(found) == list(range(1, len(found) + 1)) else ['nan']
        if req[0] == 'disp_thermal':
            return [S.text_numbers(text, 'Thermal properties per unit cell'), shown]
        if req[0] == 'boltzmann':
            return [S.text_numbers(text, 'Maxwell-Boltzmann'), S.normal(shown)]
        if req[0] == 'peaks':
            return [S.text_numbers(text, 'Peak #', skip=('Harmonic frequencies', '[')), S.normal(shown)]
        return S.normal(shown)

    def after_child(self, pid):
        readers.drop_workdir(pid)

    def shrink(self, case):
        for e in shrink_list(case['entries']):
            yield dict(case, entries=e)
        for i, e in enumerate(case['entries']):
            if len(e) > 1 and isinstance(e[1], list):
                for x in shrink_list(e[1]):
                    yield dict(case, entries=case['entries'][:i] + [[e[0], x]] + case['entries'][i + 1:])
        for k, v in (('noise', 0), ('end', 'exit'), ('memmap', False), ('uneven', False), ('nsteps', 40), ('give', 'pos'), ('born', True), ('window', [24, 140])):
            if case[k] != v:
                yield dict(case, **{k: v})
        s = case['start']
        for k, v in (('use_symmetry', False), ('use_MD_cell_commensurate', False), ('reduced_q_vector', [0, 0, 0]), ('power_spectra_algorithm', 1)):
            if s[k] != v:
                yield dict(case, start=dict(s, **{k: v}))


class Stop(BaseException):
    """A violation was found; the session is abandoned."""


CHECK = Check()

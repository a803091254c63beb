"""C15: the command line programs give what their options ask for, together and one after the other."""
import hashlib
import os
import re

import numpy as np

from sim import cli, crystals, disk, faults, readers, sources
from sim import session as S
from sim.core import Outcome, shrink_list

ERRS = {'ENOSPC': 28, 'EIO': 5, 'EDQUOT': 122}
# product: (arguments, request of a session, kind of output, needs positions); in the order in which one run makes them
EARLY = ('svc', 'savevq', 'savevc', 'sv')
PRODUCTS = {
    'svc': (['-svc', '{}'], ['file', 'h5vc'], 'file', False),
    'savevq': (['--save_vq', '{}'], ['file', 'vq'], 'file', False),
    'savevc': (['--save_vc', '{}', '1'], ['file', 'vc'], 'file', False),
    'sv': (['-sv', '{}'], ['file', 'h5'], 'file', True),
    'sfc': (['-sfc', '{}'], ['file', 'fc'], 'file', False),
    'bands': (['--save_band_structure', '{}'], ['file', 'bands'], 'file', False),
    'sd': (['-sd', '{}'], ['file', 'full'], 'file', False),
    'sw': (['-sw', '{}'], ['file', 'wv'], 'file', False),
    'sp': (['-sp', '{}'], ['file', 'ph'], 'file', False),
    'pd': (['-pd'], ['plot', 'full'], 'plot', False),
    'pw': (['-pw'], ['plot', 'wv'], 'plot', False),
    'pp': (['-pp'], ['plot', 'ph'], 'plot', False),
    'pad': (['-pad', '0', '0', '1'], ['plot', ['dist', [0, 0, 1]]], 'plot', True),
    'sad': (['-sad', '1', '0', '1', '{}'], ['file', 'displ'], 'file', True),
    'sdata': (['-sdata'], ['file', 'quasi'], 'quasiparticles_data.yaml', False),
    'sdatax': (['-sdata', '--save_extra_properties'], ['file', 'quasix'], 'quasiparticles_data.yaml', False),
    'smesh': (['-smesh'], ['file', 'mesh'], 'mesh_data.yaml', False),
    'pa': (['-pa'], ['peaks'], 'print', False),
    'adp': (['-adp'], ['adp_text'], 'print', True),
    'thm': (['-thm'], ['disp_thermal', [0, 0, 0]], 'print', False),
    'thmfull': (['--thm_full'], ['disp_thermal', [1, 0, 0]], 'print', False),
    'partials': (['--save_power_spectrum_partials', '{}'], ['w_partials'], 'file', False),
    'average': (['-average'], ['avgpos', 1], 'print', True),
}
ORDER = list(PRODUCTS)
HEAVY = ('sfc', 'bands', 'sdata', 'sdatax', 'smesh', 'thm', 'thmfull')


class CliWorld(S.World):
    """The trajectory as the library reads it from the same file."""

    def __init__(self, case, folder):
        self.case = case
        self.src = case['src']
        self.folder = folder
        self.path = os.path.join(folder, 'data')
        self.dims = tuple(case['dims'])

    def dynamics(self, n=None, memmap=False, structure=None, own=True):
        import dynaphopy.interface.iofile as iofile
        o = self.src
        s = self.structure()
        if o['kind'] in sources.H5:
            kw = {}
            if o.get('first') is not None:
                kw['initial_cut'] = o['first']
            if o.get('last_step') is not None:
                kw['final_cut'] = o['last_step']
            return iofile.initialize_from_hdf5_file(self.path, s, read_trajectory=not o.get('vonly'), **kw)
        return sources.open_source(o, self.path, False, structure=s)

    def structure(self):
        # as read from the files: the eigenvectors of degenerate modes follow the last digit
        import dynaphopy.interface.iofile as iofile
        from dynaphopy.interface import phonopy_link
        c = crystals.CRYSTALS[self.case['crystal']]
        s = iofile.read_from_file_structure_poscar(os.path.join(self.folder, 'POSCAR'))
        s.set_primitive_matrix(np.identity(3) if c['pm'] is None else np.array(c['pm']))
        s.set_force_constants(phonopy_link.get_force_constants_from_file(os.path.join(self.folder, 'FORCE_CONSTANTS'), fc_supercell=np.diag(c['fc'])))
        return s

    def session(self, n=None, memmap=False):
        import dynaphopy
        return dynaphopy.Quasiparticle(self.dynamics(), last_steps=n)


def columns(text):
    return np.array([[float(x) for x in l.split()] for l in text.strip().split('\n')])


NUMBER = re.compile(r'-?\d+\.\d{15}')


def force_constants(name):
    """Columns of large values touch each other in the file."""
    with open(name) as f:
        lines = f.read().split('\n')
    dims = [int(x) for x in lines[0].split()]
    values = [NUMBER.findall(l) for l in lines[1:] if '.' in l]
    return np.array([[float(x) for x in v] for v in values]).reshape(dims[0], dims[-1], 3, 3)


def asymmetry(case, state, f):
    """How far force constants are from obeying the symmetry of their crystal, relative to the largest."""
    from phonopy import Phonopy
    from phonopy.structure.atoms import PhonopyAtoms
    c = crystals.CRYSTALS[case['crystal']]
    dims = case['dims'] if state['params']['use_MD_cell_commensurate'] else c['fc']
    ph = Phonopy(PhonopyAtoms(symbols=c['el'], scaled_positions=c['pos'], cell=c['cell']), np.diag(dims), primitive_matrix=np.identity(3) if c['pm'] is None else c['pm'], log_level=0,
                 symprec=state['params']['symprec'])
    at, cell = ph.supercell.scaled_positions, ph.supercell.cell.T
    ops = ph.symmetry.symmetry_operations
    worst = 0.
    for r, t in zip(ops['rotations'], ops['translations']):
        to = [int(np.argmin([np.linalg.norm(p - y - np.round(p - y)) for y in at])) for p in at @ r.T + t]
        rc = cell @ r @ np.linalg.inv(cell)
        worst = max(worst, np.abs(f[np.ix_(to, to)] - np.einsum('ab,ijbc,dc->ijad', rc, f, rc)).max())
    return worst / max(np.abs(f).max(), 1e-12)


BROKEN = ('AttributeError', 'NameError', 'UnboundLocalError', 'ImportError', 'ModuleNotFoundError')


class Check:
    prop = 'C15'
    level = 'exploration'
    quick_runs = 300
    batch = 64
    rule = ('one run = one crystal and trajectory file, and a history of command line runs in one directory (dynaphopy with random combinations of settings and products, '
            'rfc_calc and fitdata on what earlier runs saved, structure generation), some of them repeated with a failing or full disk, a death at a system call or an interruption, '
            'and then repeated again; every product is compared with that of a library session in a fresh process. Non-trivial: a run made two products or a fault fired')
    state_measure = '(products of the run, settings given, source, runs before it in the directory, fault)'
    real = ['scripts/dynaphopy, scripts/rfc_calc, scripts/fitdata', 'the whole library behind them', 'native kernels', 'phonopy', 'h5py']
    stub = ['plt.show (records the curves)', 'system calls that change files below the run directory (sim/disk.c, preloaded)', 'multiprocessing.cpu_count (1)', 'MD data and files']
    assumptions = ['the products of one run are made in the order of the program; a product that adapts the frequency range (quasiparticle data) does so for the later ones',
                   'a process that dies loses nothing the system has accepted']

    def boot(self):
        S.boot_session()
        import phonopy.file_IO  # noqa
        import dynaphopy.generate_cell  # noqa
        import dynaphopy.interface.interactive_ui  # noqa
        from dynaphopy.parameters import Parameters
        self.defaults = S.snapshot(Parameters())

    # ------------------------------------------------------------------------------- generation
    def gen(self, rng, index, tier):
        kinds = ('h5_both', 'h5_both', 'h5_both', 'h5_vel', 'h5_pos', 'xdatcar', 'lammps_pos', 'lammps_vel')
        src = sources.gen(rng, S.CELLS, [40, 60], kinds=kinds)
        src.update(perm=False, trailing=False, route='detect')
        src.pop('tail', None)
        if src['kind'] in sources.H5 and rng.random() < .6:
            src.pop('first', None)
            src.pop('last_step', None)
        if src['kind'] == 'h5_both' and rng.random() < .2:
            src['vonly'] = True
        if src.get('first') and src['first'] > 12:
            src['first'] = 3
        case = {'src': src, 'crystal': src['crystal'], 'dims': src['dims'], 'mesh': rng.choice([[3, 3, 3], [3, 3, 2]]), 'order': rng.randrange(6)}
        positions = sources.has_positions(src) and not src.get('vonly')
        atoms = S.primitive_atoms(case['crystal'])
        names = [p for p in ORDER if (positions or not PRODUCTS[p][3]) and not (p == 'savevc' and atoms < 2)]
        fav = self.gen_settings(rng, case, atoms)
        ops = []
        for _ in range(rng.randrange(1, 4 if tier == 'quick' else 7)):
            o = dict(fav) if rng.random() < .5 else self.gen_settings(rng, case, atoms)
            if rng.random() < .5:
                # one setting given or left out
                k = rng.choice(['silent', 'nosym', 'mdcom', 'fcsymm', 'norm', 'ref', 'saverf'])
                o[k] = not o.get(k)
            want = rng.sample(names, rng.choice([1, 2, 3, 4]))
            if 'sdata' in want and 'sdatax' in want:
                want.remove('sdata')
            while sum(p in HEAVY for p in want) > 2:
                want.remove([p for p in want if p in HEAVY][0])
            o['want'] = sorted(want, key=ORDER.index)
            o['tag'] = rng.choice(['a', 'a', 'b'])
            if rng.random() < .35:
                o['fault'] = {'kind': rng.choice(['crash', 'torn', 'error', 'error', 'full', 'full', 'short', 'interrupt', 'interrupt', 'memory']), 'pos': rng.random(), 'part': rng.choice([1, 300, 990]),
                              'sticky': rng.random() < .5, 'err': rng.choice(sorted(ERRS))}
            ops.append(['run', o])
            r = rng.random()
            if 'sdata' in want or 'sdatax' in want:
                if r < .6:
                    ops.append(['rfc', {'fcsymm': rng.random() < .4, 'tag': rng.choice('ab')}])
            if any(p in want for p in ('sd', 'sw', 'sp')) and r < .5:
                ops.append(['fitdata', rng.choice([p for p in want if p in ('sd', 'sw', 'sp')]) + '_' + o['tag'], {'group': rng.random() < .4, 'fit': rng.choice([0, 0, 1, 2])}])
            if r > .9:
                ops.append(['cell', rng.choice(['poscar', 'lammps']), [rng.choice([1, 2, 3]) for _ in range(3)]])
            if r < .05:
                ops.append(['points'])
        case['ops'] = ops
        return case

    def gen_settings(self, rng, case, atoms):
        o = {'cf': rng.choice([6, 10, 14]), 'res': rng.choice([.2, .25, .3, .5]) if rng.random() < .9 else None, 'silent': rng.random() < .6}
        if rng.random() < .6:
            o['q'] = S.commensurate(case['dims'], rng)
        if rng.random() < .4:
            o['lim'] = rng.choice([[0, 14], [1, 12], [.5, 10], [2, 13]])
        if rng.random() < .7:
            o['alg'] = rng.choice([0, 1, 1, 2, 3])
        if rng.random() < .4:
            o['fit'] = rng.choice([0, 1, 2])
        if rng.random() < .5:
            o['temp'] = rng.choice([300., 700.])
        if rng.random() < .25:
            o['n'] = rng.choice([24, 30, 38, 1000])
        if rng.random() < .2:
            o['symprec'] = rng.choice([1e-4, 1e-3])
        if rng.random() < .15:
            o['atom'] = rng.randrange(atoms)
        if rng.random() < .2:
            o['qha'] = rng.randrange(2)
        for k, p in (('nosym', .3), ('mdcom', .2), ('fcsymm', .3), ('nac', .12), ('saverf', .2), ('norm', .3), ('ref', .2), ('memmap', .2)):
            if rng.random() < p:
                o[k] = True
        return o

    # ------------------------------------------------------------------------------- the program
    def arguments(self, case, o):
        src = case['src']
        a = ['input', '-lv', 'data'] if src['kind'] in sources.H5 else ['input', 'data']
        if src['kind'] in sources.TEXT:
            f, _ = readers.make_file(src)
            if f.time_step is not None:
                a += ['-ts', repr(f.time_step)]
        if src.get('first') is not None:
            a += ['--read_from', src['first']]
        if src.get('last_step') is not None:
            a += ['--read_to', src['last_step']]
        if src.get('vonly'):
            a += ['--velocity_only']
        opts = []
        for k, arg in (('cf', '-cf'), ('alg', '-psm'), ('res', '--resolution'), ('fit', '--fitting_function'), ('temp', '--temperature'), ('n', '-n'), ('symprec', '--symprec'), ('atom', '--project_on_atom')):
            if o.get(k) is not None:
                opts.append([arg, o[k]])
        if o.get('q') is not None:
            opts.append(['-q'] + ['1/2' if x == .5 and len(case['src']['kind']) % 2 else x for x in o['q']])
        if o.get('lim'):
            opts.append(['-r'] + o['lim'])
        if o.get('qha') is not None:
            opts.append(['--qha_force_constants', 'QHA%d' % o['qha']])
        for k, arg in (('silent', '--silent'), ('nosym', '--no_symmetry'), ('mdcom', '--MD_commensurate'), ('fcsymm', '--fcsymm'), ('nac', '--nac'), ('saverf', '--save_renormalized_frequencies'),
                       ('norm', '--normalize_dos'), ('ref', '--thm_reference')):
            if o.get(k):
                opts.append([arg])
        if o.get('memmap') and (src['kind'] in sources.H5 or src.get('last_step') is not None):
            opts.append(['--memmap'])
        for p in o['want']:
            opts.append([x.format(p + '_' + o['tag']) for x in PRODUCTS[p][0]])
        # the order in which options are written must not matter
        k = (case['order'] * 7 + len(opts)) % max(1, len(opts))
        opts = opts[k:] + opts[:k]
        return a + [str(x) for part in opts for x in part]

    @staticmethod
    def target(p, o):
        kind = PRODUCTS[p][2]
        if kind == 'file':
            return p + '_' + o['tag']
        return kind if kind.endswith('.yaml') else None

    def state(self, case, o, oracle):
        """The settings which the options and the input file ask for, without the range of frequencies (given later)."""
        p = {k: S.copy_value(v) for k, v in self.defaults.items()}
        p['mesh_phonopy'] = np.array(case['mesh'])
        p['band_ranges'] = {'ranges': [np.array([[0, 0, 0], [.5, 0, 0]]), np.array([[.5, 0, 0], [.5, .5, 0]])]}
        p.update(silent=bool(o.get('silent')), symmetrize=bool(o.get('fcsymm')), use_MD_cell_commensurate=bool(o.get('mdcom')), save_renormalized_frequencies=bool(o.get('saverf')),
                 use_NAC=bool(o.get('nac')), symprec=o.get('symprec') or 1e-5, fitting_function=o.get('fit') or 0, number_of_coefficients_mem=o['cf'])
        if o.get('nosym'):
            p['use_symmetry'] = False
        for k, n in (('alg', 'power_spectra_algorithm'), ('atom', 'project_on_atom')):
            if o.get(k) is not None:
                p[n] = o[k]
        if o.get('q') is not None:
            p['reduced_q_vector'] = np.array(o['q'], dtype=float)
        n = self.steps if not o.get('n') else min(self.steps, o['n'])
        state = {'n': n, 'temp': o.get('temp'), 'qha': o.get('qha'), 'params': p}
        if o.get('res') is not None:
            state['params'] = oracle.ask(state, ['res', o['res']])[1]
        return state

    @staticmethod
    def read(name):
        import h5py
        if h5py.is_hdf5(name):
            with h5py.File(name, 'r') as f:
                return {k: f[k][:] for k in sorted(f)}
        with open(name) as f:
            return f.read()

    # ----------------------------------------------------------------------------------- the run
    def run(self, case):
        out = Outcome()
        d = readers.workdir()
        os.chdir(d)
        os.environ.pop('DYNAPHOPY_TEMPDIR', None)
        os.mkdir('w')
        os.mkdir('oracle')
        os.chdir('w')
        here = os.getcwd()
        sources.prepare(dict(case['src']), 'data')
        world = CliWorld(case, here)
        world.files('.')
        cli.write_inputs(dict(case, mesh=case['mesh']), '.')
        from checks.c08 import apart
        self.steps, err, _ = apart(lambda: len(world.dynamics().get_time()))
        if self.steps is None:
            raise RuntimeError('the trajectory cannot be read: %s' % err)
        os.chdir(os.path.join(d, 'oracle'))
        oracle = S.Oracle(world)
        os.chdir(here)
        try:
            self.history(case, out, oracle)
        finally:
            oracle.close()
        out.count('fresh sessions asked', oracle.queries)
        return out

    def history(self, case, out, oracle):
        last = None         # state in which the quasiparticle data was saved
        made = 0
        for i, op in enumerate(case['ops']):
            at = 'run %d' % i
            out.steps += 1
            if op[0] == 'run':
                o = op[1]
                argv = self.arguments(case, o)
                last = self.one(case, out, oracle, o, argv, at, last, made)
                if out.violation:
                    return
                made += 1
                if len(o['want']) > 1 or o.get('fault'):
                    out.nontrivial = True
            else:
                {'rfc': self.rfc, 'fitdata': self.fitdata, 'cell': self.cell, 'points': self.points}[op[0]](case, out, oracle, op, at, last)
                if out.violation:
                    return

    @staticmethod
    def digests():
        d = {}
        for n in os.listdir('.'):
            with open(n, 'rb') as f:
                d[n] = hashlib.sha256(f.read()).hexdigest()
        return d

    def one(self, case, out, oracle, o, argv, at, last, made):
        here = os.getcwd()
        label = 'dynaphopy ' + ' '.join(str(a) for a in argv[1:])
        outputs = {self.target(p, o) for p in o['want']} - {None}
        if o.get('saverf'):
            outputs.add('renormalized_frequencies')

        def call(plan=None, code=None):
            def before():
                (plan or disk.Fault()).arm(here)
                faults.ENTRIES.start(*(code or (None, None)))

            def after():
                from dynaphopy.parameters import Parameters
                counts = faults.ENTRIES.stop()
                return {'plots': S.PLOTS.take(), 'settings': S.snapshot(Parameters()), 'trace': disk.trace(), 'fired': disk.fired(), 'entries': counts, 'struck': faults.ENTRIES.fired}
            S.PLOTS.take()
            return cli.call('dynaphopy', argv, before=before, after=after)

        was = self.digests()
        e = call()
        for attempt in (0, 1, 2):
            if attempt == 0:
                res = self.judge(case, out, oracle, o, e, label, at)
                if res is None:
                    return last
                trace, entries = e.extra['trace'], e.extra['entries']
                states = res
            elif attempt == 1:
                f = o.get('fault')
                if not f:
                    break
                was = self.digests()
                plan, code, kind = self.plan(f, trace, entries)
                if plan is None and code is None:
                    break
                e = call(plan, code)
                died = e.extra is None
                hit = died or (e.extra['fired'] if plan is not None else e.extra['struck'])
                if hit:
                    out.count('fault:' + kind)
                out.note(at, kind, 'died' if died else 'ok' if e.ok else 'failed')
                if e.ok and not died:
                    # nothing was reported: everything must be right
                    if self.judge(case, out, oracle, o, e, label + ' [%s, no failure reported]' % kind, at, cls='silent-failure') is None:
                        return last
            else:
                e = call()
                if self.judge(case, out, oracle, o, e, label + ' [again, after %s]' % kind, at, cls='after-fault') is None:
                    return last
            now = self.digests()
            changed = [n for n in was if n not in outputs and now.get(n) != was[n]]
            if attempt != 1 and not changed:
                changed = [n for n in now if n not in was and n not in outputs and attempt == 0]
            if changed:
                out.fail('foreign-change', '%s: %s %s, which is none of the outputs asked for' % (label, changed[0], 'is gone' if changed[0] not in now else 'was written'), at)
                return last
        out.states.add('|'.join([','.join(o['want']), ','.join(sorted(k for k in o if o[k] and k not in ('want', 'tag', 'fault'))), case['src']['kind'], str(made), str(o.get('fault', {}).get('kind'))]))
        if states.get('quasi'):
            last = states['quasi']
        return last

    def plan(self, f, trace, entries):
        k = f['kind']
        if k in ('interrupt', 'memory'):
            names = sorted(entries)
            if not names:
                return None, None, k
            n = names[int(f['pos'] * len(names))]
            nth = int((f['pos'] * 7919) % 1 * entries[n])
            return None, ((n, nth), KeyboardInterrupt if k == 'interrupt' else MemoryError), k
        if not trace:
            return None, None, k
        from checks.c08 import Check as C08
        return C08.plan(None, f, trace), None, k

    def judge(self, case, out, oracle, o, e, label, at, cls=None):
        """Every product of a run against a library session; None after a violation."""
        state = self.state(case, o, oracle)
        shown = list(e.extra['plots']) if e.extra else []
        ranged = False
        found = {}
        for p in o['want']:
            if p not in EARLY and not ranged:
                ranged = True
                if o.get('lim'):
                    state = dict(state, params=oracle.ask(state, ['lim', o['lim']])[1])
            op = PRODUCTS[p][1]
            if p in ('thm', 'thmfull'):
                op = ['disp_thermal', [int(p == 'thmfull'), int(bool(o.get('norm'))), int(bool(o.get('ref')))]]
            want, after = oracle.ask(state, op)
            asked = None
            kind = PRODUCTS[p][2]
            if p == 'pd' and not e.ok and not shown and not isinstance(want, S.Failed):
                # plotted with the renormalized force constants when an earlier product has made them
                x = oracle.ask(state, ['plot', 'fullfc'])[0]
                want = x if isinstance(x, S.Failed) else want
            if isinstance(want, S.Failed) and want.kind in BROKEN:
                out.fail('broken-product', '%s: %s cannot be had: %s %s' % (label, p, want, want.text), at)
                return None
            if isinstance(want, S.Failed):
                out.count('products that fail in the library too: ' + want.kind)
                if e.ok and want.kind != 'SystemExit':
                    out.fail(cls or 'not-failed', '%s: ends well, although %s %s %s in the library' % (label, p, want, want.text), at)
                    return None
                out.note(at, p, 'fails on both')
                return found
            if not e.ok and e.extra is None:
                out.fail(cls or 'run-fails', '%s: %s; the library gives %s' % (label, e, p), at)
                return None
            name = self.target(p, o)
            n = 0
            if name:
                try:
                    got = self.read(name)
                except (OSError, UnicodeDecodeError) as x:
                    out.fail(cls or ('wrong-output' if e.ok else 'run-fails'), '%s: no output of %s (%s); %s %s' % (label, p, x, e, e.text[-300:] if not e.ok else ''), at)
                    return None
            elif kind == 'plot':
                if S.wants_renormalized(op, [] if isinstance(want, S.Failed) else shown[:len(want)], want):
                    asked = ['plot', 'fullfc']
                    want = oracle.ask(state, asked)[0]
                n = len(want)
                got = shown[:n]
            else:
                text, plots = want if isinstance(want, list) else (want, [])
                n = len(plots)
                got = text if text.startswith('<no line') else self.printed(e.text, text)
                if isinstance(want, list):
                    got = [got, shown[:n]]
            shown = shown[n:]
            diff = oracle.differs(state, op, got, want, asked)
            if diff:
                out.fail(cls or ('wrong-output' if e.ok else 'run-fails'), '%s: %s: %s%s' % (label, p, diff, '' if e.ok else '; %s' % e), at)
                return None
            if p == 'sfc' and o.get('fcsymm'):
                f = force_constants(name)
                out.count('probe:symmetrized force constants')
                if np.isfinite(f).all() and asymmetry(case, state, f) > 1e-6:
                    out.fail('wrong-output', '%s: the force constants do not obey the symmetry of the crystal, by %.1e of the largest' % (label, asymmetry(case, state, f)), at)
                    return None
            out.note(at, p, 'ok')
            if p in ('sdata', 'sdatax'):
                found['quasi'] = state
            state = dict(state, params=after)
        if not e.ok:
            out.fail(cls or 'run-fails', '%s: %s %s; all its products work in the library' % (label, e, e.text[-300:]), at)
            return None
        if not ranged and o.get('lim'):
            state = dict(state, params=oracle.ask(state, ['lim', o['lim']])[1])
        if shown:
            out.fail(cls or 'wrong-output', '%s: %d plots more than asked for' % (label, len(shown)), at)
            return None
        diff = S.settings_difference(e.extra['settings'], state['params'])
        if diff:
            out.fail(cls or 'wrong-settings', '%s: at the end %s' % (label, diff), at)
            return None
        return found

    @staticmethod
    def printed(text, want):
        """The part of the printed text that corresponds to what a session prints."""
        skip = ('Harmonic frequencies', 'MD cell size relation', 'Calculation full', 'Power spectrum projected')
        clean = lambda t: [re.sub(r'-(0\.0+)(?!\d)', r' \1', l) for l in t.replace('\r', '\n').split('\n')
                           if l.strip() and not any(k in l for k in skip) and ('[' not in l or 'Thermal properties' in l)]
        lines, wl = clean(text), clean(want)
        if not wl:
            return want
        best = None
        for i in range(len(lines)):
            if S.FLOAT.sub('#', lines[i]) == S.FLOAT.sub('#', wl[0]):
                part = '\n'.join(lines[i:i + len(wl)])
                d = S.difference(part, '\n'.join(wl), 2e-5, '', 2e-4)
                if d is None:
                    return want
                if best is None or S.FLOAT.sub('#', part) == S.FLOAT.sub('#', '\n'.join(wl)):
                    best = part
        return best if best is not None else '<not printed>'

    # ------------------------------------------------------------------------- the other programs
    def rfc(self, case, out, oracle, op, at, last):
        if last is None:
            return
        o = op[1]
        name = 'rfc_' + o['tag']
        e = cli.call('rfc_calc', ['input', 'quasiparticles_data.yaml', '-s', name] + (['--fcsymm'] if o['fcsymm'] else []) +
                     ((['--dim'] + list(case['dims'])) if last['params']['use_MD_cell_commensurate'] else []), before=lambda: disk.Fault().arm(os.getcwd()))
        state = dict(last, params=dict(last['params'], symmetrize=o['fcsymm']))
        want, _ = oracle.ask(state, ['fc'])
        label = 'rfc_calc%s on saved quasiparticle data' % (' --fcsymm' if o['fcsymm'] else '')
        if isinstance(want, S.Failed):
            return
        if not e.ok:
            return out.fail('run-fails', '%s: %s %s' % (label, e, e.text[-200:]), at)
        got = force_constants(name)
        out.count('probe:force constants from saved quasiparticle data')
        # eight decimals of the frequencies are saved; modes at zero frequency carry no force
        diff = S.difference(got, want[0], 2e-4, 'force constants')
        if diff:
            diff = S.settle(['fc'], [got, want[1]], want, lambda k: oracle.again(state, ['fc'], k)) and diff
        if diff:
            return out.fail('wrong-output', '%s: %s' % (label, diff), at)
        out.note(at, 'rfc ok')

    def fitdata(self, case, out, oracle, op, at, last):
        name, o = op[1], op[2]
        if not os.path.exists(name):
            return
        was = columns(self.read(name))
        group = None
        argv = [name, '--silent', '-s', 'fitted', '--fitting_function', o['fit']]
        if o['group']:
            group = [[1], list(range(1, was.shape[1]))]
            argv += ['-bi', ', '.join(' '.join(str(x) for x in g) for g in group)]
        e = cli.call('fitdata', argv, before=lambda: disk.Fault().arm(os.getcwd()))
        label = 'fitdata' + (' with band indices' if group else '')
        if not e.ok:
            # fits of other people's spectra may fail to converge
            out.count('probe:fitdata fails')
            return out.note(at, 'fitdata fails')
        out.count('probe:saved spectra fitted again')
        want = was if group is None else np.array([was[:, 0]] + [was[:, g].mean(axis=1) for g in group]).T
        diff = S.difference(columns(self.read('fitted')), want, 1e-6, 'curves')
        os.remove('fitted')
        if diff:
            return out.fail('wrong-output', '%s: %s' % (label, diff), at)
        out.note(at, 'fitdata ok')

    def cell(self, case, out, oracle, op, at, last):
        import dynaphopy.generate_cell as generate
        name = 'cell_' + op[1]
        e = cli.call('dynaphopy', ['input', '-c_' + op[1], name, '--dim'] + op[2], before=lambda: disk.Fault().arm(os.getcwd()))
        st = crystals.structure(case['crystal'])
        with readers.quiet():
            want = generate.generate_VASP_structure(st, scaled=True, supercell=op[2]) if op[1] == 'poscar' else generate.generate_LAMMPS_structure(st, supercell=op[2])
        if not e.ok:
            return out.fail('run-fails', 'dynaphopy -c_%s: %s' % (op[1], e), at)
        zero = lambda t: re.sub(r'-(0\.0+)(?!\d)', r' \1', t)
        diff = S.difference(zero(self.read(name)), zero(want), 1e-7, 'structure', 1e-7)
        if diff:
            return out.fail('wrong-output', 'dynaphopy -c_%s --dim %s: %s' % (op[1], op[2], diff), at)
        out.note(at, 'cell ok')

    def points(self, case, out, oracle, op, at, last):
        e = cli.call('rfc_calc', ['input', '-cp'], before=lambda: disk.Fault().arm(os.getcwd()))
        if not e.ok:
            return out.fail('run-fails', 'rfc_calc -cp: %s' % e, at)
        got = sorted(tuple(round(float(x), 5) + 0. for x in l.strip().strip('[]').split()) for l in e.text.split('\n') if l.strip().startswith('['))
        n = np.prod(crystals.CRYSTALS[case['crystal']]['fc'])
        pm = crystals.CRYSTALS[case['crystal']]['pm']
        count = int(round(n / (1 if pm is None else abs(np.linalg.det(pm)))))
        if len(set(got)) != count or len(got) != count:
            return out.fail('wrong-output', 'rfc_calc -cp prints %d points, %d of them different; the supercell has %d' % (len(got), len(set(got)), count), at)

    def after_child(self, pid):
        readers.drop_workdir(pid)

    def shrink(self, case):
        for ops in shrink_list(case['ops']):
            yield dict(case, ops=ops)
        for i, op in enumerate(case['ops']):
            if op[0] != 'run':
                continue
            o = op[1]
            for w in shrink_list(o['want']):
                if w:
                    yield dict(case, ops=case['ops'][:i] + [['run', dict(o, want=w)]] + case['ops'][i + 1:])
            for k in o:
                if k not in ('want', 'tag', 'cf', 'res') and o[k]:
                    o2 = dict(o)
                    del o2[k]
                    yield dict(case, ops=case['ops'][:i] + [['run', o2]] + case['ops'][i + 1:])
        for k in ('first', 'last_step', 'vonly'):
            if case['src'].get(k) and case['src']['kind'] in sources.H5:
                yield dict(case, src={a: b for a, b in case['src'].items() if a != k})


CHECK = Check()

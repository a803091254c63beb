"""C06: a truncated or growing trajectory file never yields wrong frames."""
import os

from sim import boot, readers
from sim.core import Outcome


class Check:
    prop = 'C06'
    level = 'exploration'
    quick_runs = 6000
    batch = 400
    rule = ('one run = one synthetic trajectory file (4 formats, 10 crystal/supercell shapes, 4 number styles, permuted atoms, rotated '
            'cells), a cut byte chosen near structural boundaries, an optional growth schedule (bytes appended at the n-th access of the reader to the file or its mapping), '
            'an optional read error, a window, in memory or mapped. Non-trivial: the cut or the growth leaves the file incomplete, or a fault fired')
    state_measure = '(format, region of the cut, complete frames before it (0,1,2+), memory mode, window relation to the cut, growth steps, outcome)'
    real = ['dynaphopy.interface.iofile.trajectory_parsers (all readers)', 'dynaphopy.interface.iofile.get_trajectory_parser',
            'dynaphopy.dynamics.Dynamics', 'kernel file system (scratch directory)']
    stub = ['the simulation code writing the file (sim/mdfiles.py)', 'mmap.mmap and open of the trajectory file (pass-through seam that lets the writer run at every access)']
    assumptions = ['a writer only appends', 'a frame is complete once its last line has its newline; when all its numbers are literally there '
                   'but the newline is not, the reader may deliver it or not']

    def boot(self):
        boot.boot()
        import dynaphopy.interface.iofile  # noqa
        import dynaphopy.interface.iofile.trajectory_parsers  # noqa

    def gen(self, rng, index, tier):
        kind = rng.choice(['xdatcar', 'xdatcar', 'lammps_pos', 'lammps_pos', 'lammps_vel', 'outcar'])
        crystal, dims = rng.choice(readers.CELLS)
        case = {'kind': kind, 'crystal': crystal, 'dims': list(dims), 'frames': rng.choice([1, 2, 3, 4, 5, 7, 12]), 'seed': rng.randrange(10 ** 6),
                'style': rng.randrange(4), 'perm': rng.random() < .35, 'trailing': rng.random() < .3, 'rot': rng.random() < .3,
                'every': rng.choice([1, 1, 2, 5]), 'start': rng.choice([0, 0, 10000]), 'route': rng.choice(['direct', 'direct', 'detect']),
                'memmap': rng.random() < .4}
        f, _ = readers.make_file(case)
        size = len(f.data)
        mode = rng.random()
        if mode < .55 and f.frames:
            fr = rng.choice(f.frames)
            edge = rng.choice(['start', 'tokens', 'full', 'inside', 'head'])
            base = {'start': fr['start'], 'tokens': fr['tokens'], 'full': fr['full'], 'head': fr['start'] + rng.randrange(0, 120),
                    'inside': rng.randrange(fr['start'], fr['full'] + 1)}[edge]
            cut = base + rng.choice([-9, -3, -2, -1, -1, 0, 0, 1, 2, 5])
        elif mode < .9:
            cut = rng.randrange(0, size + 1)
        elif mode < .95:
            cut = rng.randrange(0, f.header_end + 40)
        else:
            cut = size
        case['cut'] = max(0, min(size, cut))
        case['grow'] = []
        if rng.random() < .4:
            left = size - case['cut']
            for _ in range(rng.choice([1, 2, 3, 4, 6])):
                case['grow'].append([rng.choice([1, 2, 3, 4, rng.randrange(1, 12), rng.randrange(1, 60), rng.randrange(1, 400)]),
                                     rng.choice([1, 7, max(1, left // 3), rng.randrange(1, max(2, left)), max(1, left)])])
        w = rng.random()
        nf = case['frames']
        if case['memmap'] or w < .5:
            case['first'] = rng.choice([None, 1, 1, 2, rng.randrange(1, nf + 1)])
            case['last_step'] = rng.choice([nf, nf, nf + 1, nf + 3, rng.randrange(case['first'] or 1, nf + 3)])
            if case['last_step'] < (case['first'] or 1):
                case['last_step'] = case['first']
        if rng.random() < .15:
            case['tail'] = rng.randrange(1, nf + 2)
        if rng.random() < .06:
            case['read_fault'] = rng.randrange(1, 5)
        return case

    def region(self, f, cut):
        if cut < f.header_end:
            return 'header'
        for fr in f.frames:
            if fr['start'] <= cut < fr['full']:
                if cut >= fr['tokens']:
                    return 'last-newline'
                if cut > fr['tokens'] - 12:
                    return 'last-number'
                if cut < fr['start'] + 110:
                    return 'frame-head'
                return 'frame-body'
        return 'boundary'

    def run(self, case):
        out = Outcome()
        d = readers.workdir()
        os.chdir(d)
        os.environ.pop('DYNAPHOPY_TEMPDIR', None)
        f, perm = readers.make_file(case)
        out.nontrivial = case['cut'] < len(f.data) or bool(case.get('read_fault'))
        with readers.quiet():
            structure, rot = readers.make_structure(case)
        if case['cut'] < len(f.data):
            out.count('fault:file cut')
        w = readers.Writer('traj.dat', f.data, case['cut'], case['grow'], out)
        w.fault_at = case.get('read_fault')
        err = got = None
        with w.installed():
            try:
                with readers.quiet():
                    dyn = readers.call_reader('traj.dat', case, structure, f, perm, case['memmap'])
                    got = readers.delivered(dyn, case['kind'])
            except Exception as e:
                err = '%s: %s' % (type(e).__name__, e)
            except SystemExit as e:
                err = 'exit'
        args = (case.get('first'), case.get('last_step'), case.get('tail'))
        lo, hi = f.complete(case['cut']), f.possible(w.size)
        out.note('cut', case['cut'], 'of', len(f.data), 'final', w.size, 'complete', lo, 'possible', hi, 'window', args,
                 'got', None if got is None else got[0].shape, 'error', err)
        out.steps = w.touches
        need = len(readers.expected(f, rot, lo, *args)[0])
        if got is None:
            outcome = 'error'
            if need >= 1 and not w.fired:
                out.fail('complete-frames-lost', '%s reader (%s): %d complete frames in the window precede the cut, but reading failed with %s'
                         % (case['kind'], 'mapped' if case['memmap'] else 'in memory', need, err), self.region(f, case['cut']))
        else:
            if w.fired:
                # the read error may strike where the reader can still do without (retry), never yield other data
                out.count('probe:delivered although a read failed')
            reasons = []
            ok = False
            for c in range(lo, hi + 1):
                r = readers.compare(got, readers.expected(f, rot, c, *args), case['kind'])
                if r is None:
                    ok = True
                    break
                reasons.append(r)
            outcome = 'frames%d' % min(2, len(got[0]))
            if not ok:
                out.fail('wrong-frames', '%s reader (%s), window %s, %d to %d complete frames: %s' %
                         (case['kind'], 'mapped' if case['memmap'] else 'in memory', args, lo, hi, reasons[0]), self.region(f, case['cut']))
        rel = 'none' if case.get('last_step') is None else ('beyond' if case['last_step'] > lo else 'within')
        out.states.add('%s|%s|%d|%s|%s|%d|%s' % (case['kind'], self.region(f, case['cut']), min(lo, 2), case['memmap'], rel, len(case['grow']), outcome))
        dyn = None
        return out

    def after_child(self, pid):
        readers.drop_workdir(pid)

    def shrink(self, case):
        def with_(**kw):
            c = dict(case)
            for k, v in kw.items():
                if v is None:
                    c.pop(k, None)
                else:
                    c[k] = v
            return c
        if case['grow']:
            yield with_(grow=[])
            for i in range(len(case['grow'])):
                yield with_(grow=case['grow'][:i] + case['grow'][i + 1:])
        for k in ('read_fault', 'tail', 'first'):
            if case.get(k) is not None:
                yield with_(**{k: None})
        if case.get('last_step') is not None and not case['memmap']:
            yield with_(last_step=None)
        for k in ('perm', 'trailing', 'rot', 'memmap'):
            if case[k]:
                yield with_(**{k: False})
        if case['style']:
            yield with_(style=0)
        if case['route'] != 'direct':
            yield with_(route='direct')
        if case['crystal'] != 'sc' or case['dims'] != [1, 1, 1]:
            yield self._refit(with_(crystal='sc', dims=[1, 1, 1]), case)
        if case['frames'] > 1:
            for n in (1, 2, case['frames'] - 1):
                if n < case['frames']:
                    yield self._refit(with_(frames=n), case)

    def _refit(self, new, old):
        """Keep the cut at the same place relative to the frame structure."""
        fo, _ = readers.make_file(old)
        fn, _ = readers.make_file(new)
        cut = old['cut']
        k = max([i for i, fr in enumerate(fo.frames) if fr['start'] <= cut] or [-1])
        if k < 0:
            new['cut'] = min(cut, len(fn.data))
        else:
            j = min(k, len(fn.frames) - 1)
            o, n = fo.frames[k], fn.frames[j]
            if cut >= (o['start'] + o['full']) // 2:
                new['cut'] = n['full'] + (cut - o['full'])
            else:
                new['cut'] = n['start'] + (cut - o['start'])
            new['cut'] = max(0, min(len(fn.data), new['cut']))
        return new


CHECK = Check()

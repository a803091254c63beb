"""Drives calculation sessions of the real code through random histories, and asks a fresh session
(in a fresh forked process, in a fresh directory) what each request should give under the same settings."""
import io
import os
import pickle
import re
import struct
import sys
import traceback

import numpy as np

from sim import boot, crystals

# everything a session reports about its configuration
NOT_SETTINGS = ()


class Out(io.StringIO):
    """Standard output of the simulated terminal."""


def param_names(parameters):
    return sorted(n for n in dir(type(parameters)) if isinstance(getattr(type(parameters), n, None), property))


def snapshot(parameters):
    return {n: copy_value(getattr(parameters, n)) for n in param_names(parameters)}


def copy_value(v):
    if isinstance(v, np.ndarray):
        return v.copy()
    if isinstance(v, (list, tuple)):
        return type(v)(copy_value(x) for x in v)
    if isinstance(v, dict):
        return {k: copy_value(x) for k, x in v.items()}
    return v


def value_text(v):
    if isinstance(v, np.ndarray) or (isinstance(v, (tuple, list)) and v and not isinstance(v[0], (str, list, tuple, dict))):
        return repr(np.array(v, dtype=float).tolist()) if np.array(v).dtype.kind in 'fiub' else repr(v)
    if isinstance(v, dict):
        return repr(sorted((k, value_text(x)) for k, x in v.items()))
    if isinstance(v, (list, tuple)):
        return repr([value_text(x) for x in v])
    if isinstance(v, (np.bool_,)):
        return repr(bool(v))
    return repr(v)


def settings_difference(a, b, ignore=()):
    for k in sorted(set(a) | set(b)):
        if k in ignore:
            continue
        x, y = a.get(k), b.get(k)
        if value_text(x) == value_text(y):
            continue
        try:
            xa, ya = np.array(x, dtype=float), np.array(y, dtype=float)
            if xa.shape == ya.shape and np.allclose(xa, ya, rtol=1e-9, atol=1e-12):
                continue
        except (TypeError, ValueError):
            pass
        return '%s is %s, expected %s' % (k, value_text(x)[:80], value_text(y)[:80])
    return None


# ------------------------------------------------------------------------------------ the world
class World:
    """Files and trajectory data of one simulated run; everything follows from the case."""

    def __init__(self, case):
        self.case = case
        c, dims = case['crystal'], tuple(case['dims'])
        self.dims = dims
        self.nsteps = case['nsteps']
        u, v = crystals.displacements(c, dims, self.nsteps, case['dt'], case['seed'], amplitude=case.get('amplitude', 0.06))
        self.positions = crystals.wrapped(c, dims, u).astype(complex)
        self.velocity = v.astype(complex)
        t = np.arange(self.nsteps) * case['dt']
        if case.get('uneven'):
            # a simulation continued with another time step
            h = self.nsteps // 2
            t[h:] = t[h - 1] + (np.arange(self.nsteps - h) + 1) * case['dt'] * 1.25
        self.time = t
        self.energy = -10. - np.arange(self.nsteps) * 0.01

    def files(self, d):
        """Input files which requests read from the working directory."""
        c = self.case['crystal']
        for k in (0, 1):
            fc = crystals.force_constants(c, 1.1 + 0.1 * k)
            n = len(fc)
            with open(os.path.join(d, 'QHA%d' % k), 'w') as f:
                f.write('%d\n' % n)
                for i in range(n):
                    for j in range(n):
                        f.write('%d %d\n' % (i + 1, j + 1))
                        for r in fc[i, j]:
                            f.write('%22.15f %22.15f %22.15f\n' % tuple(r))
        with open(os.path.join(d, 'BORN'), 'w') as f:
            f.write('14.4\n2.4 0 0 0 2.4 0 0 0 2.4\n')
            el = crystals.CRYSTALS[c]['el']
            for k in range(born_atoms(c)):
                z = 0.0 if len(set(el)) == 1 else (1.1 if k == 0 else -1.1)
                f.write('%g 0 0 0 %g 0 0 0 %g\n' % (z, z, z))

    def dynamics(self, n=None, memmap=False, structure=None, own=True):
        from dynaphopy.dynamics import Dynamics
        n = self.nsteps if n is None else n
        s = slice(self.nsteps - n, None)
        kw = {}
        give = self.case['give']
        if give in ('pos', 'both'):
            kw['trajectory'] = self.positions[s]
        if give in ('vel', 'both'):
            kw['velocity'] = self.velocity[s]
        kw.update(time=self.time[s], energy=self.energy[s])
        if own:
            kw = {k: v.copy() for k, v in kw.items()}
        return Dynamics(structure=structure if structure is not None else self.structure(),
                        supercell=crystals.supercell(self.case['crystal'], self.dims), memmap=memmap, **kw)

    def structure(self):
        return crystals.structure(self.case['crystal'], self.case.get('stiff', 1.0))

    def session(self, n=None, memmap=False):
        import dynaphopy
        return dynaphopy.Quasiparticle(self.dynamics(n, memmap))


_born = {}


def born_atoms(name):
    """Number of symmetry independent atoms, as the BORN file format wants."""
    if name not in _born:
        from phonopy.structure.atoms import PhonopyAtoms
        from phonopy.structure.symmetry import Symmetry
        c = crystals.CRYSTALS[name]
        pm = np.eye(3) if c['pm'] is None else np.array(c['pm'])
        if c['pm'] is None:
            cell = PhonopyAtoms(symbols=c['el'], scaled_positions=c['pos'], cell=c['cell'])
        else:
            cell = PhonopyAtoms(symbols=c['el'][:1], scaled_positions=c['pos'][:1], cell=np.dot(pm.T, c['cell']))
        _born[name] = len(Symmetry(cell).get_independent_atoms())
    return _born[name]


# ---------------------------------------------------------------------------------- state and ops
def initial_state(world, start):
    """Settings a run starts from: the defaults of the code with the overrides of the case."""
    return {'n': world.nsteps, 'temp': None, 'qha': None, 'params': dict(start)}


def apply_state(session, state):
    p = session.parameters
    for k, v in state['params'].items():
        if k == 'frequency_range':
            v = np.array(v, dtype=float)
        elif k == 'reduced_q_vector':
            v = np.array(v, dtype=float)
        elif k in ('mesh_phonopy',):
            v = tuple(v)
        setattr(p, k, copy_value(v))
    if state['temp'] is not None:
        session.set_temperature(state['temp'])
    if state['qha'] is not None:
        session.set_qha_force_constants('QHA%d' % state['qha'])


def op_set(session, op):
    k, v = op[0], op[1]
    if k == 'q':
        session.set_reduced_q_vector(np.array(v))
    elif k == 'mem':
        session.set_number_of_mem_coefficients(v)
    elif k == 'res':
        session.set_spectra_resolution(v)
    elif k == 'lim':
        session.set_frequency_limits(list(v))
    elif k == 'alg':
        session.select_power_spectra_algorithm(v)
    elif k == 'fit':
        session.select_fitting_function(v)
    elif k == 'proj':
        session.set_projection_onto_atom_type(v)
    elif k == 'bands':
        session.set_band_ranges(v)
    elif k == 'nac':
        session.set_NAC(v)
    elif k == 'temp':
        session.set_temperature(v)
    elif k == 'crop':
        session.crop_trajectory(v)
    elif k == 'qha':
        session.set_qha_force_constants('QHA%d' % v)
    elif k == 'silent':
        session.parameters.silent = v
    elif k == 'bins':
        session.parameters.number_of_bins_histogram = v
    elif k == 'bandres':
        session.parameters.band_resolution = v
    elif k == 'clear':
        getattr(session, v)()
    elif k == 'saverf':
        session.parameters.save_renormalized_frequencies = v
    elif k == 'param':
        setattr(session.parameters, v[0], tuple(v[1]) if isinstance(v[1], list) else v[1])
    else:
        raise KeyError(k)


SETTERS = ('q', 'mem', 'res', 'lim', 'alg', 'fit', 'proj', 'bands', 'nac', 'temp', 'crop', 'qha', 'silent', 'bins', 'bandres', 'clear', 'saverf', 'param')


def promised(state, op, params):
    """Settings after an operation: those a fresh session reports, where they are what the operation promises, otherwise what it promises."""
    k, v = op[0], op[1] if len(op) > 1 else None
    was = state['params']
    want = dict(params)
    if k not in SETTERS:
        # asking changes nothing, but for the automatic range of quasiparticle computations
        want = dict(was)
        if k in AUTO_RANGE or (k == 'plot' and (v[0] if isinstance(v, list) else v) in AUTO_RANGE_PLOTS) or (k == 'file' and v in AUTO_RANGE_FILES):
            want['frequency_range'] = params['frequency_range']
        return want
    name = SETTING_NAMES.get(k)
    if k == 'param':
        name, v = v
    changed = {name} if name else set()
    if name and name in was:
        want[name] = copy_value(v)
    if k in ('lim', 'res'):
        changed.add('frequency_range')
        old, new = np.array(was['frequency_range'], dtype=float), np.array(params['frequency_range'], dtype=float)
        lo, hi = v if k == 'lim' else (old[0], old[-1])
        step = v if k == 'res' else was['spectrum_resolution']
        # within the resolution (the last point may lie above the limit)
        if new.ndim != 1 or len(new) < 2 or abs(new[0] - lo) > 1e-6 or not np.allclose(np.diff(new), step, atol=1e-6) or not hi - 1e-6 <= new[-1] <= hi + 1.001 * step:
            want['frequency_range'] = np.arange(lo, hi + step, step)
    if k == 'bands':
        changed.add('band_ranges')
    for n in was:
        if n not in changed:
            want[n] = copy_value(was[n])
    return want


AUTO_RANGE = ('comm', 'fc', 'rbands', 'mesh', 'props', 'thermal', 'thermal_fc', 'adp', 'shift', 'disp_thermal', 'print_bands')
AUTO_RANGE_PLOTS = ('rdisp', 'rdispl', 'lw', 'lwb', 'fullfc')
AUTO_RANGE_FILES = ('mesh', 'bands', 'fc', 'quasi', 'quasix')


def set_expected(state, op, params):
    """State after a setter; `params` as reported by a fresh session in that state after the same setter."""
    new = {'n': state['n'], 'temp': state['temp'], 'qha': state['qha'], 'params': params}
    if op[0] == 'crop' and op[1]:
        new['n'] = min(state['n'], op[1])
    if op[0] == 'temp':
        new['temp'] = op[1]
    if op[0] == 'qha':
        new['qha'] = op[1]
    return new


def text_numbers(text, start=None, skip=()):
    lines = text.replace('\r', '\n').split('\n')
    if start is not None:
        idx = [i for i, l in enumerate(lines) if start in l]
        lines = lines[idx[0]:] if idx else ['<no line with %s>' % start]
    lines = [l for l in lines if l.strip() and 'MD cell size relation' not in l and not any(s in l for s in skip)]
    return '\n'.join(lines)


def read_file(name):
    if name.endswith('.h5'):
        import h5py
        with h5py.File(name, 'r') as f:
            return {k: f[k][:] for k in sorted(f)}
    with open(name) as f:
        return f.read()


class Plots:
    """What the windows of plt.show() displayed."""

    def __init__(self):
        self.shown = []
        self.arrows = False

    def install(self):
        import matplotlib.pyplot as plt

        def show(*a, **k):
            from sim import faults
            return faults.SEAM.call('plot', 'show', real_show, a, k)

        def real_show(*a, **k):
            for num in plt.get_fignums():
                fig = plt.figure(num)
                for ax in fig.axes:
                    lines = [(l.get_label() if not l.get_label().startswith('_') else '', np.array(l.get_xdata(), dtype=float),
                              np.array(l.get_ydata()).real.astype(float)) for l in ax.get_lines()]
                    bars = [float(b.get_height()) for b in ax.patches if hasattr(b, 'get_height')]
                    ticks = [t.get_text() for t in ax.get_xticklabels()]
                    shown = {'lines': [list(x) for x in lines], 'bars': bars}
                    if self.arrows:
                        # three dimensional arrows
                        shown['arrows'] = [np.array(a._verts3d, dtype=float) for a in ax.get_children() if hasattr(a, '_verts3d') and a not in ax.get_lines()]
                    self.shown.append(shown)
            plt.close('all')
        plt.show = show
        self.plt = plt

    def take(self):
        s, self.shown = self.shown, []
        return s


PLOTS = Plots()


def request(session, op, out):
    """Issue one request; returns its observable result."""
    k = op[0]
    a = op[1] if len(op) > 1 else None
    s = session
    if k == 'freq':
        return s.get_frequencies()
    if k == 'eig':
        return s.get_eigenvectors()
    if k == 'vc':
        return s.get_vc()
    if k == 'vq':
        return s.get_vq()
    if k == 'ps_ph':
        return s.get_power_spectrum_phonon()
    if k == 'ps_wv':
        return s.get_power_spectrum_wave_vector()
    if k == 'ps_full':
        return s.get_power_spectrum_full()
    if k == 'ps_full_x':
        return s.get_power_spectrum_full(projection_on_coordinate=a)
    if k == 'partials':
        return s.get_power_spectrum_partials()
    if k == 'w_partials':
        s.get_power_spectrum_partials(save_to_file='partials.out')
        return read_file('partials.out')
    if k == 'comm':
        return dict(s.get_commensurate_points_data())
    if k == 'comm_no':
        return dict(s.get_commensurate_points_data(auto_range=False))
    if k == 'fc':
        f = s.get_renormalized_force_constants()
        return [f.get_array(), np.array(f.get_supercell())]
    if k == 'rbands':
        return s.get_renormalized_phonon_dispersion_bands(with_linewidths=bool(a), band_connection=bool(a))
    if k == 'mesh':
        return [np.array(x) for x in s.get_mesh_frequencies_and_linewidths()]
    if k == 'props':
        return s.get_commensurate_points_properties()
    if k == 'thermal':
        return s.get_thermal_properties(normalize_dos=bool(a))
    if k == 'thermal_fc':
        return s.get_thermal_properties(force_constants=s.get_renormalized_force_constants(), normalize_dos=bool(a))
    if k == 'temperature':
        return s.get_temperature()
    if k == 'adp':
        return s.get_anisotropic_displacement_parameters(coordinate_type=a or 'uvrs', print_on_screen=True)
    if k == 'adp_text':
        s.get_anisotropic_displacement_parameters()
        return text_numbers(out.getvalue(), 'Anisotropic displacement')
    if k == 'msd':
        return s.dynamic.get_mean_displacement_matrix(use_average_positions=bool(a))
    if k == 'avgpos':
        s.get_average_atomic_positions(to_unit_cell=bool(a))
        return text_numbers(out.getvalue(), 'Average atomic positions')
    if k == 'displ':
        return list(s.get_atomic_displacements(a))
    if k == 'qpoint':
        return np.array(s.get_q_vector())
    if k == 'shift':
        x = s.get_qha_shift(np.array(a))
        return np.zeros(0) if x is None else x
    if k == 'time':
        return [np.array(s.dynamic.get_time()), s.dynamic.get_time_step_average(), np.array(s.dynamic.velocity), np.array(s.dynamic.get_energy())]
    if k == 'raw':
        d = s.dynamic
        return {'trajectory': lambda: np.array(d.trajectory), 'relative': lambda: np.array(d.get_relative_trajectory()), 'mass': lambda: np.array(d.get_velocity_mass_average()),
                'supercell': lambda: [np.array(d.get_supercell()), np.array(d.get_supercell_matrix()), int(d.get_number_of_atoms())]}[a]()
    if k == 'structure':
        t = s.dynamic.structure
        m = s.dynamic.get_supercell_matrix()
        return [np.array(t.get_cell()), np.array(t.get_positions()), np.array(t.get_positions(supercell=m)), np.array(t.get_masses(supercell=m)), list(t.get_atomic_elements()),
                np.array(t.get_primitive_matrix()), np.array(t.get_primitive_cell()), list(t.get_atom_type_index(supercell=m)), np.array(t.get_supercell_phonon()),
                np.array(t.get_force_constants().get_array())]
    if k == 'disp_thermal':
        how = a if isinstance(a, list) else [bool(a), a == 2, False]
        s.display_thermal_properties(from_power_spectrum=bool(how[0]), normalize_dos=bool(how[1]), print_phonopy=bool(how[2]))
        return [text_numbers(out.getvalue(), 'Thermal properties per unit cell'), PLOTS.take()]
    if k == 'peaks':
        s.phonon_individual_analysis()
        return [text_numbers(out.getvalue(), 'Peak #', skip=('Harmonic frequencies', '[')), PLOTS.take()]
    if k == 'scan':
        s.phonon_width_scan_analysis()
        lines = [l for l in out.getvalue().replace('\r', '\n').split('\n') if l.startswith(('Peak #', 'Estimated', 'Position', 'Area', 'Coefficients num', 'Fitting global', 'Warning: '))]
        return ['\n'.join(lines), PLOTS.take()]
    if k == 'print_bands':
        s.print_phonon_dispersion_bands()
        return text_numbers(out.getvalue(), None, skip=('Warning',))
    if k == 'boltzmann':
        s.show_boltzmann_distribution()
        return [text_numbers(out.getvalue(), 'Maxwell-Boltzmann'), PLOTS.take()]
    if k == 'plot':
        a, b = (a, None) if not isinstance(a, list) else (a[0], a[1])
        if a == 'fullfc':
            # as 'full', of a session which has got the renormalized force constants already
            s.get_power_spectrum_full()
            r = np.array(s.parameters.frequency_range)
            s.get_renormalized_force_constants()
            s.parameters.frequency_range = r
            a = 'full'
        {'full': lambda: s.plot_power_spectrum_full(), 'wv': lambda: s.plot_power_spectrum_wave_vector(), 'ph': lambda: s.plot_power_spectrum_phonon(), 'disp': lambda: s.plot_phonon_dispersion_bands(),
         'rdispl': lambda: s.plot_renormalized_phonon_dispersion_bands(plot_linewidths=True, plot_harmonic=False),
         'rdisp': lambda: s.plot_renormalized_phonon_dispersion_bands(plot_linewidths=bool(b)), 'vq': lambda: s.plot_vq(modes=[0, 1]),
         'vc': lambda: s.plot_vc(atoms=[0], coordinates=[0, 2]), 'traj': lambda: s.plot_trajectory(atoms=[0]), 'vel': lambda: s.plot_velocity(atoms=[0]),
         'energy': lambda: s.plot_energy(), 'dist': lambda: s.plot_trajectory_distribution(b), 'lw': lambda: s.plot_frequencies_vs_linewidths(),
         'lwb': lambda: s.plot_linewidths_and_shifts_bands(), 'dos': lambda: s.plot_dos_phonopy(), 'eig': lambda: s.plot_eigenvectors(),
         }[a]()
        sh = PLOTS.take()
        if a == 'eig' and not PLOTS.arrows:
            return len(sh)
        return sh
    if k == 'file':
        name = 'out.%s' % a
        fn = {'full': s.write_power_spectrum_full, 'wv': s.write_power_spectrum_wave_vector, 'ph': s.write_power_spectrum_phonon,
              'mesh': s.write_mesh_data, 'bands': s.write_renormalized_phonon_dispersion_bands, 'fc': s.write_renormalized_constants,
              'xsf': s.write_to_xfs_file, 'vq': s.save_vq}
        if a in fn:
            fn[a](name)
        elif a == 'quasi':
            s.write_quasiparticles_data(name)
        elif a == 'quasix':
            s.write_quasiparticles_data(name, with_extra=True)
        elif a == 'displ':
            s.write_atomic_displacements([1, 0, 1], name)
        elif a == 'vc':
            s.save_vc(name, 1)
        elif a == 'h5':
            name = 'out.h5'
            s.save_velocity_hdf5(name)
        elif a == 'h5v':
            name = 'outv.h5'
            s.save_velocity_hdf5(name, save_trajectory=False)
        elif a == 'h5vc':
            name = 'outvc.h5'
            s.save_vc_hdf5(name)
        else:
            raise KeyError(a)
        return read_file(name)
    raise KeyError(k)


def normal(x):
    """Detach a result from the session."""
    if isinstance(x, np.ndarray):
        return np.array(x)
    if isinstance(x, dict):
        return {str(k): normal(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [normal(v) for v in x]
    if isinstance(x, (np.floating, np.integer, np.bool_)):
        return x.item()
    return x


FLOAT = re.compile(r'[-+]?(?:\d+\.?\d*(?:[eE][-+]?\d+)?|nan|inf)')


def difference(a, b, rtol, where='', atol=1e-13):
    """None, or a description of the first difference between two results."""
    if isinstance(a, str) and isinstance(b, str):
        if a == b:
            return None
        if FLOAT.sub('#', a) != FLOAT.sub('#', b):
            la, lb = a.split('\n'), b.split('\n')
            for x, y in zip(la, lb):
                if FLOAT.sub('#', x) != FLOAT.sub('#', y):
                    return '%s text %r expected %r' % (where, x[:80], y[:80])
            return '%s text has %d lines, expected %d' % (where, len(la), len(lb))
        na, nb = np.array([float(x) for x in FLOAT.findall(a)]), np.array([float(x) for x in FLOAT.findall(b)])
        # printed numbers carry a rounding of their own
        return difference(na, nb, max(rtol, 2e-6), where + ' text', atol)
    if isinstance(a, dict) and isinstance(b, dict):
        if sorted(a) != sorted(b):
            return '%s has entries %s, expected %s' % (where, sorted(a), sorted(b))
        for k in a:
            d = difference(a[k], b[k], rtol, where + '/' + k, atol)
            if d:
                return d
        return None
    if isinstance(a, list) and isinstance(b, list):
        try:
            aa, bb = np.array(a, dtype=float), np.array(b, dtype=float)
        except (ValueError, TypeError):
            aa = None
        if aa is None:
            if len(a) != len(b):
                return '%s has %d items, expected %d' % (where, len(a), len(b))
            for i, (x, y) in enumerate(zip(a, b)):
                d = difference(x, y, rtol, '%s[%d]' % (where, i), atol)
                if d:
                    return d
            return None
        a, b = aa, bb
    if a is None or b is None:
        return None if a is b else '%s %r expected %r' % (where, a, b)
    aa, bb = np.asarray(a), np.asarray(b)
    if aa.shape != bb.shape:
        return '%s shape %s, expected %s' % (where, aa.shape, bb.shape)
    if aa.dtype.kind in 'USO' or bb.dtype.kind in 'USO':
        return None if aa.tolist() == bb.tolist() else '%s %r expected %r' % (where, str(a)[:80], str(b)[:80])
    if aa.size == 0:
        return None
    na, nb = np.isnan(aa), np.isnan(bb)
    if (na != nb).any():
        return '%s has %d nan, expected %d' % (where, na.sum(), nb.sum())
    aa, bb = np.where(na, 0, aa), np.where(nb, 0, bb)
    inf = np.isinf(bb)
    if (np.isinf(aa) != inf).any() or (aa[inf] != bb[inf]).any():
        return '%s infinite values differ' % where
    aa, bb = np.where(inf, 0, aa), np.where(inf, 0, bb)
    scale = max(np.abs(bb).max(), np.abs(aa).max())
    err = np.abs(aa - bb).max()
    if err <= rtol * scale + atol:
        return None
    return '%s differs by %.3e of %.3e (relative %.1e)' % (where, err, scale, err / scale)


def nearest(got, refs):
    """The reference with every number replaced by the one among the references which is nearest to what was got."""
    w = refs[0]
    if isinstance(w, str):
        if not isinstance(got, str) or any(FLOAT.sub('#', x) != FLOAT.sub('#', got) for x in refs):
            return min(refs, key=lambda x: FLOAT.sub('#', x) != FLOAT.sub('#', got)) if isinstance(got, str) else w
        cols = list(zip(*[FLOAT.findall(x) for x in refs]))
        it = iter([min(c, key=lambda x: abs(float(x) - float(g))) for c, g in zip(cols, FLOAT.findall(got))])
        return FLOAT.sub(lambda m: next(it), w)
    if isinstance(w, dict):
        return {k: nearest(got[k], [r[k] for r in refs]) for k in w} if isinstance(got, dict) and all(isinstance(r, dict) and sorted(r) == sorted(got) for r in refs) else w
    if isinstance(w, (list, tuple)):
        ok = isinstance(got, (list, tuple)) and all(isinstance(r, (list, tuple)) and len(r) == len(got) for r in refs)
        return [nearest(g, list(r)) for g, r in zip(got, zip(*refs))] if ok else w
    try:
        a = np.stack([np.asarray(r, dtype=complex) for r in refs])
        g = np.asarray(got, dtype=complex)
        if g.shape != a.shape[1:]:
            return w
    except (ValueError, TypeError):
        return w
    d = np.abs(a - g)
    d = np.where(np.isnan(d), np.inf, d)
    d = np.where(np.isnan(a) & np.isnan(g), 0, d)
    k = np.argmin(d, axis=0)
    r = np.take_along_axis(a, k[None], axis=0)[0]
    return r.real if not np.iscomplexobj(np.asarray(w)) else r


def settle(op, got, want, again, n=10):
    """None if the result agrees with the reference, else the difference. Some results are ill conditioned (line widths of modes at zero frequency, fits of nearly flat data): rounding, which
    depends on where the arrays lie in memory, decides between far values. A number which differs is therefore compared with further references, each computed afresh (again(k))."""
    diff = difference(got, want, tolerance(op), '', floor(op))
    if not diff:
        return None
    refs = [want]
    for k in range(1, n + 1):
        r = again(k)
        if r is None or isinstance(r, Failed):
            continue
        refs.append(r)
        if not difference(got, nearest(got, refs), tolerance(op), '', floor(op)):
            return None
    return diff


FIT_BASED = ('comm', 'comm_no', 'fc', 'rbands', 'mesh', 'props', 'thermal_fc', 'disp_thermal', 'peaks', 'scan', 'plot', 'file')


def tolerance(op):
    return 1e-5 if op[0] in FIT_BASED else 1e-7


THZ = (['freq'], ['print_bands'], ['comm'], ['comm_no'], ['rbands', 0], ['rbands', 1], ['mesh'], ['props'], ['plot', 'disp'], ['plot', ['rdisp', 0]], ['plot', ['rdisp', 1]],
       ['plot', 'lw'], ['plot', 'lwb'], ['plot', 'rdispl'], ['file', 'quasi'], ['file', 'quasix'], ['file', 'mesh'], ['file', 'bands'], ['shift'])


def floor(op):
    """Absolute tolerance: the frequencies of acoustic modes are square roots of rounding errors."""
    return 2e-5 if list(op) in THZ or list(op[:1]) in THZ else 1e-13


def wants_renormalized(op, got, want):
    """The plot of the full spectrum adds the renormalized curve when the session has it already."""
    if list(op) != ['plot', 'full'] or isinstance(want, Failed):
        return False
    return isinstance(got, Failed) or any(l[0] == 'Renormalized DoS' for x in got for l in x['lines'])


# ------------------------------------------------------------------------------------- the oracle
class Failed:
    """A request or setter that ended in an exception."""

    def __init__(self, kind, text=''):
        self.kind = kind
        self.text = text

    def __repr__(self):
        return 'failed with %s' % self.kind


def execute(session, op, out_stream=None, hook=None):
    """Run one op on a session with captured output. Returns result or Failed. Exceptions of class
    Injected pass through as Failed too."""
    stream = out_stream or Out()
    old = sys.stdout
    sys.stdout = stream
    PLOTS.take()
    try:
        if op[0] in SETTERS:
            op_set(session, op)
            res = None
        else:
            res = normal(request(session, op, stream))
    except SystemExit:
        res = Failed('SystemExit')
    except KeyboardInterrupt as e:
        res = Failed('KeyboardInterrupt', str(e))
    except Exception as e:
        res = Failed(type(e).__name__, str(e)[:200])
        res.exc = e
        res.trace = traceback.format_exc()[-1500:]
    finally:
        sys.stdout = old
    if isinstance(res, Failed):
        PLOTS.plt.close('all')
        PLOTS.take()
    return res


class Oracle:
    """A server process forked before any session exists; each query is answered by a fresh child of it."""

    def __init__(self, world):
        self.world = world
        self.memo = {}
        self.queries = 0
        a, b = os.pipe()
        c, d = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                os.close(b)
                os.close(c)
                self.serve(a, d)
            finally:
                os._exit(0)
        os.close(a)
        os.close(d)
        self.wfd, self.rfd = b, c

    @staticmethod
    def send(fd, obj):
        data = pickle.dumps(obj, protocol=4)
        mv = memoryview(struct.pack('<Q', len(data)) + data)
        while mv:
            mv = mv[os.write(fd, mv):]

    @staticmethod
    def recv(fd):
        def need(n):
            buf = b''
            while len(buf) < n:
                x = os.read(fd, min(1 << 20, n - len(buf)))
                if not x:
                    return None
                buf += x
            return buf
        h = need(8)
        if h is None:
            return None
        return pickle.loads(need(struct.unpack('<Q', h)[0]))

    def serve(self, rfd, wfd):
        base = os.getcwd()
        n = 0
        while True:
            msg = self.recv(rfd)
            if msg is None:
                return
            n += 1
            pid = os.fork()
            if pid == 0:
                try:
                    d = os.path.join(base, 'fresh%d' % n)
                    os.mkdir(d)
                    os.chdir(d)
                    try:
                        ans = self.answer(*msg)
                    except BaseException:
                        ans = ('error', traceback.format_exc()[-3000:])
                    self.send(wfd, ans)
                finally:
                    os._exit(0)
            _, st = os.waitpid(pid, 0)
            if st:
                self.send(wfd, ('error', 'fresh session process died, status %d' % st))
            import shutil
            shutil.rmtree(os.path.join(base, 'fresh%d' % n), ignore_errors=True)

    def answer(self, state, op, salt=0):
        # another layout of the memory for every repetition
        self.junk = [bytearray(16 * ((salt * 7919 + i * 104729) % 251 + 1)) for i in range(40 * salt)]
        del self.junk[::2]
        self.world.files('.')
        old = sys.stdout
        sys.stdout = Out()
        try:
            s = self.world.session(state['n'])
            apply_state(s, state)
        finally:
            sys.stdout = old
        res = execute(s, op)
        if isinstance(res, Failed):
            res.exc = None
        return ('ok', res, snapshot(s.parameters))

    def ask(self, state, op):
        """(result, promised settings afterwards) of a fresh session in this state."""
        key = repr((state['n'], state['temp'], state['qha'], sorted((k, value_text(v)) for k, v in state['params'].items()), op))
        if key not in self.memo:
            self.queries += 1
            self.send(self.wfd, (state, op))
            ans = self.recv(self.rfd)
            if ans is None or ans[0] == 'error':
                raise RuntimeError('oracle: %s' % (ans and ans[1]))
            res, after = ans[1:]
            if op[0] not in SETTERS or not isinstance(res, Failed):
                after = promised(state, op, after)
            self.memo[key] = (res, after)
        return self.memo[key]

    def again(self, state, op, salt):
        """The result of yet another fresh session, or None."""
        self.send(self.wfd, (state, op, salt))
        ans = self.recv(self.rfd)
        return None if ans is None or ans[0] == 'error' else ans[1]

    def differs(self, state, op, got, want, asked=None):
        return settle(op, got, want, lambda k: self.again(state, asked or op, k))

    def close(self):
        os.close(self.wfd)
        os.close(self.rfd)
        os.waitpid(self.pid, 0)


# -------------------------------------------------------------------------------------- generation
def commensurate(dims, rng):
    return [rng.randrange(0, d) / float(d) if d > 1 else 0.0 for d in dims]


CELLS = [('sc', (2, 2, 2)), ('sc', (2, 2, 2)), ('cscl', (2, 2, 2)), ('cscl', (2, 2, 1)), ('ortho', (2, 1, 1)), ('ortho', (2, 2, 1)),
         ('hex', (2, 2, 1)), ('tri', (1, 2, 1)), ('bcc', (2, 2, 2)), ('bcc', (2, 1, 1)), ('sc', (1, 2, 2))]


def gen_world(rng):
    crystal, dims = rng.choice(CELLS)
    return {'crystal': crystal, 'dims': list(dims), 'nsteps': rng.choice([40, 60, 90]), 'dt': 0.02, 'seed': rng.randrange(10 ** 6),
            'give': rng.choice(['pos', 'pos', 'both', 'both', 'vel']), 'memmap': rng.random() < .25, 'uneven': rng.random() < .1}


def gen_start(rng, case):
    d = case['dims']
    return {'number_of_coefficients_mem': rng.choice([6, 10, 14]), 'mem_scan_range': rng.choice([[5, 8, 11], [6, 9]]), 'spectrum_resolution': 0.25, 'frequency_range': [round(i * 0.25, 6) for i in range(0, 57)],
            'power_spectra_algorithm': rng.choice([1, 1, 0, 2]), 'mesh_phonopy': rng.choice([[3, 3, 3], [3, 3, 2], [5, 3, 3]]), 'use_symmetry': rng.random() < .6,
            'symmetrize': False, 'use_MD_cell_commensurate': rng.random() < .3, 'silent': rng.random() < .5,
            'band_ranges': {'ranges': [[[0, 0, 0], [.5, 0, 0]]]}, 'band_resolution': 4, 'integration_method': rng.choice([0, 1]),
            'correlation_function_step': rng.choice([1, 3, 10]), 'fitting_function': rng.choice([0, 0, 1, 2]), 'reduced_q_vector': commensurate(d, rng),
            'number_of_bins_histogram': 8, 'zero_padding': 0}


BANDS = [[[[0, 0, 0], [.5, 0, 0]]], [[[0, 0, 0], [0, .5, 0]], [[0, .5, 0], [.5, .5, 0]]], [[[0, 0, .5], [.5, 0, .5]]]]


def gen_pair(rng, case, request):
    """The same setting given twice, with a result in between and after: what a result remembers of a setting."""
    first = gen_setter(rng, case)
    if first[0] == 'q' and rng.random() < .5:
        request = rng.choice([['vc'], ['vq'], ['eig'], ['freq'], ['ps_ph']])
    second = near(rng, first) if rng.random() < .5 else gen_setter(rng, case, allow=(first[0],))
    return [first, list(request), second, list(request)]


def near(rng, setter):
    """The setting again with a value that is easily taken for the same."""
    k, v = setter
    if k == 'q':
        r = rng.random()
        if r < .35:
            v = [x * rng.choice([1, -1]) for x in v]
        elif r < .55:
            v = [x + rng.choice([0, 0, 1, -1]) for x in v]
        elif r < .75:
            v = rng.sample(v, 3)
        else:
            v = list(v)
            v[rng.randrange(3)] += rng.choice([1e-3, 1e-2, -1e-3])
    elif k == 'mem':
        v += rng.choice([1, -1])
    elif k == 'res':
        v = round(v * rng.choice([1.01, .99, 1.1]), 6)
    elif k == 'lim':
        v = rng.choice([[v[0], v[1] + .1], [v[0] + .1, v[1]], [v[0] + .05, v[1] + .05], [v[0], v[1] - 1]])
    elif k == 'temp' and v:
        v += rng.choice([.25, 1, -20])
    elif k == 'crop' and v:
        v -= 1
    elif k == 'bins' or k == 'bandres':
        v += 1
    elif k == 'bands':
        b = v['ranges'] if isinstance(v, dict) else v
        b = [[list(e) for e in r] for r in b]
        b[-1][1][rng.randrange(3)] -= .1
        v = dict(v, ranges=b) if isinstance(v, dict) else b
    return [k, v]


def wave_vector(dims, rng):
    q = commensurate(dims, rng)
    r = rng.random()
    if r < .1:
        # equivalent to another one
        q[rng.randrange(3)] += rng.choice([1, -1])
    elif r < .2:
        q[rng.randrange(3)] += rng.choice([0.001, 0.1, -0.25])
    return q


# settings without a method of their own
PARAMS = [['use_symmetry', False], ['use_symmetry', True], ['use_symmetry', False], ['use_symmetry', True], ['symmetrize', True], ['symmetrize', False], ['use_MD_cell_commensurate', True],
          ['use_MD_cell_commensurate', False], ['mesh_phonopy', [3, 3, 3]], ['mesh_phonopy', [3, 3, 2]], ['mesh_phonopy', [5, 3, 3]], ['correlation_function_step', 1],
          ['correlation_function_step', 3], ['correlation_function_step', 10], ['integration_method', 0], ['integration_method', 1], ['zero_padding', 0], ['zero_padding', 20]]


def gen_setter(rng, case, allow=None):
    d = case['dims']
    na = primitive_atoms(case['crystal'])
    table = [('q', 4), ('mem', 2), ('res', 2), ('lim', 2), ('alg', 3), ('fit', 2), ('proj', 3), ('bands', 2), ('nac', 1), ('temp', 2), ('crop', 4), ('qha', 2),
             ('silent', 1), ('bins', 1), ('bandres', 1), ('clear', 1), ('saverf', 1), ('param', 3)]
    if allow:
        table = [t for t in table if t[0] in allow]
    k = rng.choices([t[0] for t in table], [t[1] for t in table])[0]
    v = {'q': lambda: wave_vector(d, rng), 'mem': lambda: rng.choice([5, 6, 8, 10, 12]), 'res': lambda: rng.choice([0.2, 0.25, 0.3, 0.5]),
         'lim': lambda: rng.choice([[0, 14], [1, 12], [0.5, 10], [0, 8], [2, 10], [5, 13], [0.1, 14], [0, 13.9], [0, 12.1], [1.05, 12]]), 'alg': lambda: rng.choice([0, 1, 2, 1, 3]), 'fit': lambda: rng.choice([0, 1, 2]),
         'proj': lambda: rng.randrange(na), 'bands': lambda: (lambda b: rng.choice([b, {'ranges': b, 'labels': [['A%d' % i, 'B'] for i in range(len(b))]}]))(rng.choice(BANDS)),
         'nac': lambda: rng.random() < .5, 'temp': lambda: rng.choice([None, 300., 700., 301.]), 'crop': lambda: rng.choice([None, 24, 30, 32, 38, 50, 70, 10 ** 4]),
         'qha': lambda: rng.randrange(2), 'silent': lambda: rng.random() < .5, 'bins': lambda: rng.choice([5, 8, 12]), 'bandres': lambda: rng.choice([3, 4, 6]),
         'clear': lambda: rng.choice(['full_clear', 'power_spectra_clear', 'force_constants_clear', 'bands_clear']), 'saverf': lambda: rng.random() < .7,
         'param': lambda: rng.choice(PARAMS)}[k]()
    return [k, v]


SETTING_KINDS = ['q', 'mem', 'res', 'lim', 'alg', 'fit', 'proj', 'bands', 'nac', 'temp', 'crop', 'qha', 'silent', 'bins', 'bandres', 'clear', 'saverf'] + sorted({n for n, _ in PARAMS})
SETTING_NAMES = {'q': 'reduced_q_vector', 'mem': 'number_of_coefficients_mem', 'alg': 'power_spectra_algorithm', 'fit': 'fitting_function', 'proj': 'project_on_atom', 'nac': 'use_NAC',
                 'res': 'spectrum_resolution', 'bins': 'number_of_bins_histogram', 'silent': 'silent', 'bandres': 'band_resolution', 'saverf': 'save_renormalized_frequencies'}


def gen_change(rng, case, kind):
    """A setter of the given kind with another value than the one the session starts with."""
    start = case['start']
    for _ in range(30):
        if kind in {n for n, _ in PARAMS}:
            s = ['param', list(rng.choice([p for p in PARAMS if p[0] == kind]))]
            name, v = s[1]
        else:
            s = gen_setter(rng, case, allow=[kind])
            name, v = {'bands': 'band_ranges'}.get(kind, SETTING_NAMES.get(kind)), s[1]
        if kind == 'crop' and (not v or v >= case['nsteps']) or kind == 'temp' and not v:
            continue
        if name not in start or not np.array_equal(np.array(start[name], dtype=object), np.array(v, dtype=object)):
            break
    return s


def primitive_atoms(name):
    c = crystals.CRYSTALS[name]
    return len(c['pos']) if c['pm'] is None else 1


LIGHT = [['freq'], ['eig'], ['vc'], ['vq'], ['ps_ph'], ['ps_wv'], ['ps_full'], ['ps_full_x', 0], ['ps_full_x', 2], ['partials'], ['w_partials'], ['temperature'],
         ['thermal', 0], ['thermal', 1], ['time'], ['qpoint'], ['print_bands'], ['boltzmann'],['plot', 'full'], ['plot', 'wv'], ['plot', 'ph'], ['plot', 'disp'],
         ['plot', 'vq'], ['plot', 'vc'], ['plot', 'vel'], ['plot', 'energy'], ['file', 'full'], ['file', 'wv'], ['file', 'ph'], ['file', 'vq'], ['file', 'vc'],
         ['file', 'h5v'], ['file', 'h5vc'], ['shift', [0, 0, 0]], ['peaks'], ['scan']]
POS = [['adp', 'uvrs'], ['adp', 'cart'], ['msd', 0], ['msd', 1], ['avgpos', 1], ['avgpos', 0], ['displ', [1, 0, 0]], ['displ', [1, 1, 0]], ['file', 'displ'],
       ['file', 'h5'], ['plot', 'traj'], ['plot', ['dist', [0, 0, 1]]]]
HEAVY = [['comm'], ['comm_no'], ['fc'], ['rbands', 0], ['rbands', 1], ['mesh'], ['props'], ['thermal_fc', 0], ['thermal_fc', 1], ['disp_thermal', 0], ['disp_thermal', 1],
         ['disp_thermal', 2], ['file', 'quasi'], ['file', 'quasix'], ['file', 'mesh'], ['file', 'bands'], ['file', 'fc'], ['plot', ['rdisp', 0]], ['plot', ['rdisp', 1]],
         ['plot', 'lw'], ['plot', 'lwb']]


def gen_request(rng, case):
    r = rng.random()
    if r < .5:
        return rng.choice(LIGHT)
    if r < .7 and case['give'] != 'vel':
        return rng.choice(POS)
    if r < .8:
        return rng.choice(LIGHT)
    return rng.choice(HEAVY)


def boot_session(seams=False):
    boot.boot(seams=seams)
    boot_imports()


def boot_imports():
    import multiprocessing
    multiprocessing.cpu_count = lambda: 1
    import h5py  # noqa
    import yaml  # noqa
    import matplotlib.pyplot  # noqa
    import scipy.optimize  # noqa
    import scipy.integrate  # noqa
    import pyfftw  # noqa
    import dynaphopy.analysis.fitting.fitting_functions  # noqa
    import dynaphopy.interface.iofile.trajectory_parsers  # noqa
    PLOTS.install()
    # fill the pure caches of the crystals once, in the parent
    for name in crystals.CRYSTALS:
        crystals.force_constants(name)
        for k in (0, 1):
            crystals.force_constants(name, 1.1 + 0.1 * k)
        born_atoms(name)

"""Writes MANIFEST.json from the checks that exist."""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
TECH = {
    'C01': 'deterministic simulation: seeded session histories against a fresh session in the same settings',
    'C02': 'deterministic simulation with fault injection at the k-th call of the environment, against a fresh session',
    'C03': 'deterministic simulation: seeded interleavings of several sessions, against each one alone',
    'C04': 'deterministic simulation: twin runs with and without memory mapping under seeded histories',
    'C05': 'deterministic simulation with fault injection on the temporary directory, invariants after every step',
    'C06': 'deterministic simulation with fault injection: crash cuts and a writer that grows the file under the reader',
    'C07': 'deterministic simulation: seeded reading windows over simulated trajectory files, against the model of the file',
    'C08': 'deterministic simulation with crash and restart: save, die at any write, reload, reanalyse',
    'C09': 'deterministic simulation with fault injection on the file system calls of every output',
    'C10': 'deterministic simulation: seeded scheduling of the OpenMP threads at every memory access',
    'C11': 'deterministic simulation with a simulated allocator (stale contents, red zones, leak accounting) and checked memory accesses',
    'C12': 'deterministic simulation with fault injection: failing allocations at the k-th request',
    'C13': 'deterministic simulation: the MD engine behind its seam, with seeded atom storage orders',
    'C14': 'deterministic simulation: the terminal behind its seam, seeded key sequences against a fresh calculation',
    'C15': 'deterministic simulation: histories of program runs in one directory on a simulated disk with interruptions, against library sessions in fresh processes',
}
NOTE = {
    'C01': 'Seeded random search over histories; a sample, not an enumeration. The oracle is the same code in a fresh process with the same settings, so it decides independence of history, not correctness of the formulas.',
    'C02': 'Faults fire at seeded positions of the calls the code makes to its environment (libraries, kernels, files, terminal); and at entries of functions of the code under test; asynchronous failures between two lines of one function are not injected. Oracle as in C01.',
    'C03': 'Seeded interleavings; threads inside one process are not simulated (the sessions have no locks and no threads of their own). One known finding (settings are shared through a singleton) is worked around by giving all live sessions the same settings.',
    'C04': 'Seeded search over sources, windows, crops and request sequences; equality up to floating point rounding.',
    'C05': 'Seeded histories with failing removals, leftover and foreign files and unusable directories; what the code creates is seen by listing the simulated directories after each step.',
    'C06': 'Cuts at seeded byte positions (every structural boundary favoured) of generated files in each supported format.',
    'C07': 'Seeded windows on generated files of each supported format, including the command line loader.',
    'C08': 'Crash points are write calls to the file being saved (process death with what was written surviving); reordering of writes inside the kernel page cache is not simulated.',
    'C09': 'Faults are injected in the system calls on the output files through an interposed library; seeded position, kind and length.',
    'C10': 'The kernels are compiled with memory-access instrumentation and run on a simulated OpenMP runtime, one simulated thread at a time (sequentially consistent interleavings; no weak memory).',
    'C11': 'The kernels are compiled with memory-access instrumentation against a simulated allocator; the Python layer is run with poisoned numpy allocations. Seeded inputs.',
    'C12': 'Every data-sized allocation of a call is made to fail in turn where a run enumerates them, else at a seeded position; small interpreter objects are not failed.',
    'C13': 'The LAMMPS library is a simulated engine with the same Python interface; the real engine is not installed here.',
    'C14': 'curses and sleep are simulated; the screen is a recorded grid. Seeded key sequences.',
    'C15': 'Seeded histories; the oracle is the library with the settings the options name, so it decides the programs and the order of their products, not the formulas. Symmetrized force constants are also checked against the symmetry of the crystal.',
}
NA = {
    'N01': 'A pure function of one configuration and its lattice positions: no schedule, clock, I/O, crash or multi-party behaviour for a simulator to decide; its numbers depend on inputs only (input generation alone would be property-based testing, another technique).',
    'N02': 'A statement about the numerical accuracy of the estimators on given data; a pure function of the trajectory with no nondeterminism to simulate. (What depends on history, threads, memory or faults in that pipeline is C01, C02, C10, C11.)',
    'N03': 'A normalisation identity of pure numerical functions; there is no order of events, fault or environment for it to depend on.',
    'N04': 'Relations between values of pure functions of temperature and a density of states; nothing to schedule, delay, crash or fail.',
    'N05': 'A linear-algebra identity of pure functions of the trajectory and the eigenvectors; no environment is involved.',
    'N06': 'Parsing and generation of structures from one complete file is a pure function of its text; crash cuts and disk faults of those files are covered by C06 and C09 where a reader or writer depends on them.',
    'N07': 'A pure combinatorial function of one configuration; simulation has nothing to vary.',
}


def main():
    checks = []
    for pid in sorted(TECH):
        if not os.path.exists(os.path.join(HERE, 'checks', pid.lower() + '.py')):
            continue
        level = importlib.import_module('checks.' + pid.lower()).CHECK.level
        checks.append({'property': pid, 'quick_cmd': './check %s quick' % pid, 'thorough_cmd': './check %s thorough' % pid,
                       'evidence_file': 'evidence/%s.json' % pid, 'technique': TECH[pid], 'level': level, 'level_note': NOTE[pid]})
    have = {c['property'] for c in checks}
    na = [{'property': k, 'reason': v} for k, v in sorted(NA.items())]
    for pid in sorted(TECH):
        if pid not in have:
            na.append({'property': pid, 'reason': 'No check has been built for it yet; nothing is claimed.'})
    m = {'version': 1, 'setup_cmd': './setup', 'checks': checks, 'not_applicable': na,
         'notes': 'No hooks in /repo: the seams are the interfaces the code has already (modules it imports, files, the C runtime). Checks build the native kernels from '
                  '/repo in a scratch directory of their own and import the Python code from /repo. See DESIGN.md.'}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


main()

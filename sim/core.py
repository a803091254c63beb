"""Runner: seeded cases, one forked child per simulated run, minimisation, replay files, evidence.

A check object provides
    prop, level, rule, real, stub      (texts for the evidence)
    boot()                             import the code under test (once, in the parent)
    gen(rng, index, tier) -> case      JSON-able; the whole run is a pure function of it
    run(case) -> Outcome               executed in a fresh forked child
    shrink(case) -> iterable of cases  simpler candidates
    fixed_cases() -> [case]            optional directed cases, run first
"""
import gc
import hashlib
import json
import os
import random
import re
import select
import signal
import struct
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(HERE, 'known_findings.json')


VOLATILE = re.compile(r'(?<=time = )\w{3} \w{3} +\d+ [\d:]+ \d{4}|(?<=0x)[0-9a-f]+')


class HarnessError(Exception):
    pass


class Outcome:
    """What one simulated run did."""

    def __init__(self):
        self.violation = None      # {'class':..., 'detail':..., 'at':...}
        self.counts = {}           # fault kinds fired, probes hit, ...
        self.states = set()        # measure of distinct states/interleavings reached
        self.log = []
        self.simtime = 0.0
        self.steps = 0
        self.nontrivial = False

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def note(self, *a):
        # clock times and addresses in messages of libraries are no part of the history
        self.log.append(VOLATILE.sub('*', ' '.join(str(x) for x in a)))

    def fail(self, cls, detail, at=None):
        if self.violation is None:
            self.violation = {'class': cls, 'detail': str(detail)[:1500], 'at': at}
        self.note('VIOLATION', cls, detail, at)

    def pack(self):
        h = hashlib.sha256('\n'.join(self.log).encode()).hexdigest()[:16]
        return {'violation': self.violation, 'counts': self.counts, 'states': sorted(self.states), 'log': self.log[-400:],
                'digest': h, 'simtime': self.simtime, 'steps': self.steps, 'nontrivial': self.nontrivial}


def rng_for(*key):
    return random.Random(int.from_bytes(hashlib.sha256(repr(key).encode()).digest()[:8], 'big'))


def canon(case):
    return json.dumps(case, sort_keys=True)


# ---------------------------------------------------------------------------------------- child
CASE_CPU_S = 150
CASE_WALL_S = 400


def run_in_child(check, case):
    """Run one case in a forked child; returns the packed outcome."""
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        try:
            os.setpgid(0, 0)
            os.close(r)
            if not os.environ.get('VERIF_DEBUG'):
                null = os.open(os.devnull, os.O_WRONLY)
                os.dup2(null, 1)
                os.dup2(null, 2)
                os.close(null)
            import resource
            resource.setrlimit(resource.RLIMIT_CPU, (CASE_CPU_S, CASE_CPU_S + 5))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            try:
                res = check.run(case).pack()
            except BaseException:
                res = {'error': traceback.format_exc()[-4000:]}
            data = json.dumps(res).encode()
            os.set_blocking(w, True)
            mv = memoryview(struct.pack('<I', len(data)) + data)
            while mv:
                mv = mv[os.write(w, mv):]
        finally:
            os._exit(0)
    os.close(w)
    buf = b''
    end = time.monotonic() + CASE_WALL_S
    timed_out = False
    while True:
        left = end - time.monotonic()
        if left <= 0:
            timed_out = True
            break
        rd, _, _ = select.select([r], [], [], min(left, 5))
        if rd:
            b = os.read(r, 1 << 16)
            if not b:
                break
            buf += b
    os.close(r)
    if timed_out:
        try:
            os.killpg(pid, signal.SIGKILL)
        except OSError:
            pass
    _, status = os.waitpid(pid, 0)
    hook = getattr(check, 'after_child', None)
    if hook:
        hook(pid)
    if timed_out:
        return {'error': 'wall time limit of %d s passed' % CASE_WALL_S}
    if len(buf) >= 4 and len(buf) >= 4 + struct.unpack('<I', buf[:4])[0]:
        return json.loads(buf[4:])
    if os.WIFSIGNALED(status):
        sig = os.WTERMSIG(status)
        if sig == signal.SIGXCPU or (sig == signal.SIGKILL and False):
            v = {'class': 'no-progress', 'detail': 'run used more than %d s of CPU (normal runs use a few seconds)' % CASE_CPU_S, 'at': None}
        elif sig in (signal.SIGSEGV, signal.SIGBUS, signal.SIGABRT, signal.SIGFPE, signal.SIGILL):
            v = {'class': 'process-died', 'detail': 'the process was ended by signal %d' % sig, 'at': None}
        else:
            return {'error': 'child ended by signal %d' % sig}
        return {'violation': v, 'counts': {}, 'states': [], 'log': [], 'digest': 'died%d' % sig, 'simtime': 0, 'steps': 0, 'nontrivial': True}
    return {'error': 'child gave no result (status %d)' % status}


# -------------------------------------------------------------------------------------- workers
def _worker(check, cases, idx, wfd, stop_at):
    """Runs cases[i] for i in idx, streaming (i, outcome)."""
    for i in idx:
        if time.monotonic() > stop_at:
            break
        res = run_in_child(check, cases[i])
        res['i'] = i
        data = json.dumps(res).encode()
        mv = memoryview(struct.pack('<I', len(data)) + data)
        while mv:
            mv = mv[os.write(wfd, mv):]
    os._exit(0)


def run_batch(check, cases, workers, stop_at):
    """Run a list of cases on several workers (static round-robin). Returns {index: outcome}."""
    pipes = []
    pids = []
    sys.stdout.flush()
    for w in range(workers):
        idx = list(range(w, len(cases), workers))
        if not idx:
            continue
        r, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            for p in pipes:
                os.close(p[0])
            try:
                _worker(check, cases, idx, wr, stop_at)
            finally:
                os._exit(3)
        os.close(wr)
        pipes.append((r, bytearray()))
        pids.append(pid)
    out = {}
    live = {p[0]: p[1] for p in pipes}
    while live:
        rd, _, _ = select.select(list(live), [], [], 5)
        for fd in rd:
            b = os.read(fd, 1 << 16)
            if not b:
                os.close(fd)
                del live[fd]
                continue
            buf = live[fd]
            buf += b
            while len(buf) >= 4:
                n = struct.unpack('<I', bytes(buf[:4]))[0]
                if len(buf) < 4 + n:
                    break
                res = json.loads(bytes(buf[4:4 + n]))
                del buf[:4 + n]
                out[res['i']] = res
    for p in pids:
        os.waitpid(p, 0)
    return out


# -------------------------------------------------------------------------------- known findings
def known_for(prop):
    try:
        with open(KNOWN) as f:
            return [k for k in json.load(f)['findings'] if k['property'] == prop]
    except FileNotFoundError:
        return []


def match_known(prop, violation):
    for k in known_for(prop):
        m = k['match']
        if violation['class'] == m['class'] and all(s in violation['detail'] for s in m.get('contains', [])):
            return k
    return None


# ---------------------------------------------------------------------------------------- shrink
def minimise(check, case, vclass, budget_s=60, log=None):
    """Greedy: take the first simpler candidate which still shows the same violation class."""
    end = time.monotonic() + budget_s
    tried = 0
    cur = case
    improved = True
    seen = {canon(cur)}
    while improved and time.monotonic() < end:
        improved = False
        for cand in check.shrink(cur):
            if time.monotonic() > end:
                break
            c = canon(cand)
            if c in seen:
                continue
            seen.add(c)
            tried += 1
            res = run_in_child(check, cand)
            v = res.get('violation')
            if v and v['class'] == vclass and match_known(check.prop, v) is None:
                cur = cand
                improved = True
                break
    return cur, tried


def shrink_list(items):
    """ddmin-style candidates for a list: drop halves, quarters, ..., single items."""
    n = len(items)
    size = n // 2
    while size >= 1:
        for i in range(0, n, size):
            cand = items[:i] + items[i + size:]
            if cand != items:
                yield cand
        size //= 2


def reproduces(check, case, violation, times=6):
    """A violation counts when the case alone shows it again."""
    for _ in range(times):
        again = run_in_child(check, case).get('violation')
        if again and again['class'] == violation['class']:
            return True
    return False


# ------------------------------------------------------------------------------------------ main
def start(check):
    check.boot()
    # what is loaded now stays: keep the collector of the runs away from it
    gc.collect()
    gc.freeze()


def replay(check, path):
    with open(path) as f:
        rep = json.load(f)
    start(check)
    res = run_in_child(check, rep['case'])
    if 'error' in res:
        print('HARNESS-ERROR', res['error'])
        return 2
    v = res['violation']
    for line in res['log']:
        print('  ', line)
    if v is None:
        print('replay of %s: no violation' % path)
        return 0
    print('replay of %s: class=%s at=%s\n%s' % (path, v['class'], v['at'], v['detail']))
    print('same violation class as recorded: %s; identical history: %s' %
          (v['class'] == rep['violation']['class'], res['digest'] == rep['digest']))
    print('VIOLATION property=%s replay=%s' % (check.prop, path))
    return 1


def survey(check, n):
    """Development aid: run n cases, group every violation and error instead of stopping at the first."""
    seed = int(os.environ.get('VERIF_SEED', '1'))
    start(check)
    cases = (list(check.fixed_cases()) if hasattr(check, 'fixed_cases') else []) + \
        [check.gen(rng_for(check.prop, seed, i), i, 'quick') for i in range(n)]
    t = time.monotonic()
    out = run_batch(check, cases, int(os.environ.get('VERIF_WORKERS', '8')), time.monotonic() + 3600)
    groups, counts, states = {}, {}, set()
    for i in sorted(out):
        r = out[i]
        for k, v in r.get('counts', {}).items():
            counts[k] = counts.get(k, 0) + v
        states.update(r.get('states', []))
        v = r.get('violation')
        if 'error' in r:
            key = ('HARNESS', r['error'].strip().split('\n')[-1][:150])
        elif v:
            key = (v['class'] + (' KNOWN' if match_known(check.prop, v) else ''), re.sub(r'[-\d.e+]+', '#', v['detail'])[:160])
        else:
            continue
        groups.setdefault(key, []).append(i)
    for key, idx in sorted(groups.items(), key=lambda x: -len(x[1]))[:int(os.environ.get('VERIF_SHOW', '12'))]:
        i = idx[0]
        print(len(idx), key, 'e.g. case', i)
        print('      ', canon(cases[i])[:600])
        print('      ', (out[i].get('violation') or {}).get('detail', out[i].get('error', ''))[-500:])
    print('%d runs, %d bad, %d states, %.1f s' % (len(out), sum(map(len, groups.values())), len(states), time.monotonic() - t))
    for k, v in sorted(counts.items()):
        print('   ', k, v)
    return 0


def main(check, argv):
    if argv and argv[0] == 'replay':
        return replay(check, argv[1])
    if argv and argv[0] == 'survey':
        return survey(check, int(argv[1]) if len(argv) > 1 else 200)
    tier = argv[0] if argv else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    workers = int(os.environ.get('VERIF_WORKERS', str(min(8, os.cpu_count() or 8))))
    t0 = time.monotonic()
    print('%s tier=%s seed=%d workers=%d' % (check.prop, tier, seed, workers))
    sys.stdout.flush()
    start(check)
    t_boot = time.monotonic() - t0
    if tier == 'quick':
        n_target = int(os.environ.get('VERIF_RUNS', check.quick_runs))
        budget = float(os.environ.get('VERIF_BUDGET_S', 420))
    else:
        n_target = int(os.environ.get('VERIF_RUNS', 10 ** 9))
        budget = float(os.environ.get('VERIF_BUDGET_S', 1500))
    stop_at = t0 + budget
    batch = max(workers * 4, getattr(check, 'batch', 64))
    counts, states, digests, seen, kinds_nt = {}, set(), [], set(), 0
    runs = 0
    simtime = 0.0
    steps = 0
    samples = []
    known_seen = {}
    bad = None
    errors = []
    unrepeated = []
    fixed = list(check.fixed_cases()) if hasattr(check, 'fixed_cases') else []
    corpus_dir = os.path.join(HERE, 'corpus', check.prop)
    if os.path.isdir(corpus_dir):
        for fn in sorted(os.listdir(corpus_dir)):
            if fn.endswith('.json'):
                with open(os.path.join(corpus_dir, fn)) as f:
                    fixed.append(json.load(f)['case'])
    index = 0
    truncated = False
    while bad is None and not errors and len(unrepeated) < 8 and runs < n_target and time.monotonic() < stop_at:
        cases, origin = [], []
        if fixed:
            cases, origin = fixed, ['fixed%d' % i for i in range(len(fixed))]
            fixed = []
        else:
            for _ in range(min(batch, n_target - index)):
                cases.append(check.gen(rng_for(check.prop, seed, index), index, tier))
                origin.append(index)
                index += 1
            if not cases:
                break
        out = run_batch(check, cases, workers, stop_at)
        for i in range(len(cases)):
            if i not in out:
                truncated = True
                continue
            res = out[i]
            if 'error' in res:
                errors.append((origin[i], cases[i], res['error']))
                break
            runs += 1
            for k, v in res['counts'].items():
                counts[k] = counts.get(k, 0) + v
            states.update(res['states'])
            digests.append(res['digest'])
            simtime += res['simtime']
            steps += res['steps']
            c = canon(cases[i])
            if res['nontrivial'] and c not in seen:
                seen.add(c)
                if len(samples) < 2:
                    samples.append({'origin': origin[i], 'case': cases[i], 'log_tail': res['log'][-6:]})
            v = res['violation']
            if v:
                k = match_known(check.prop, v)
                if k:
                    known_seen[k['id']] = k
                    counts['known_finding_runs'] = counts.get('known_finding_runs', 0) + 1
                elif reproduces(check, cases[i], v):
                    bad = (origin[i], cases[i], res)
                    break
                else:
                    # something uncontrolled took part: look for a violation that can be repeated
                    unrepeated.append((origin[i], cases[i], v))
    wall = time.monotonic() - t0
    for k in known_seen.values():
        print('KNOWN-FINDING: property=%s %s' % (check.prop, k['what']))
    rc = 0
    min_tried = 0
    if errors:
        o, case, err = errors[0]
        print('HARNESS-ERROR run=%s %s\ncase=%s' % (o, err, canon(case)[:2000]))
        rc = 2
    elif bad:
        o, case, res = bad
        v = res['violation']
        small, min_tried = minimise(check, case, v['class'], budget_s=float(os.environ.get('VERIF_MIN_S', '60')))
        fin = run_in_child(check, small)
        if not fin.get('violation'):
            small, fin = case, res
        rdir = os.path.join(HERE, 'replays')
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, '%s-%s-s%d-%s.json' % (check.prop, fin['violation']['class'].replace(' ', '_'), seed, o))
        with open(path, 'w') as f:
            json.dump({'property': check.prop, 'seed': seed, 'run': o, 'violation': fin['violation'], 'digest': fin['digest'],
                       'case': small, 'original_case': case, 'log': fin['log']}, f, indent=1)
        print('class: %s\ndetail: %s\nat: %s' % (fin['violation']['class'], fin['violation']['detail'], fin['violation']['at']))
        print('minimised after %d candidate runs; replay with: ./replay %s' % (min_tried, path))
        print('VIOLATION property=%s replay=%s' % (check.prop, path))
        rc = 1
    elif unrepeated:
        o, case, v = unrepeated[0]
        print('HARNESS-ERROR %d violations which did not reproduce, run=%s %s\ncase=%s' % (len(unrepeated), o, v, canon(case)[:2000]))
        rc = 2
    wall = time.monotonic() - t0
    faults = {k[6:]: v for k, v in sorted(counts.items()) if k.startswith('fault:')}
    probes = {k[6:]: v for k, v in sorted(counts.items()) if k.startswith('probe:')}
    ev = {'property': check.prop, 'tier': tier, 'seed': seed, 'level': check.level,
          'coverage': {
              'evaluations': runs, 'distinct_nontrivial': len(seen), 'rule': check.rule, 'samples': samples,
              'runs_per_hour': round(runs / max(wall - t_boot, 1e-3) * 3600), 'seeds': [seed],
              'run_seeds_derived': index,
              'simulated_time_ps_or_steps': round(simtime, 3), 'simulated_steps': steps,
              'faults_injected': faults, 'probes': probes,
              'other_counts': {k: v for k, v in sorted(counts.items()) if ':' not in k},
              'distinct_states': len(states), 'distinct_states_measure': check.state_measure,
              'history_digest': hashlib.sha256(''.join(digests).encode()).hexdigest()[:16],
              'real_components': check.real, 'stub_components': check.stub,
              'stopped_by_wall_budget': bool(truncated or (rc == 0 and runs < n_target and tier == 'quick')),
              'known_findings_seen': sorted(known_seen)},
          'assumptions': check.assumptions, 'wall_s': round(wall, 2), 'violations': 1 if rc == 1 else 0}
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', check.prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s: %d runs, %d distinct non-trivial, %d states, faults %s, digest %s, %.1f s -> exit %d' %
          (check.prop, runs, len(seen), len(states), faults, ev['coverage']['history_digest'], wall, rc))
    for k, n in probes.items():
        if n == 0:
            print('probe never hit:', k)
    return rc

"""mkbug.py SPEC.py...: writes seeded/<id>/ from a spec (ID, PROPERTY, EDITS [(file, old, new)], NEEDS, BREAKS, DEMO)."""
import difflib
import json
import os
import shutil
import subprocess
import sys

SHIM = '''
#define _GNU_SOURCE
#include <dlfcn.h>
#include <stddef.h>
static size_t size; static long skip, count;
/* of the allocations of exactly this size: let k succeed, then refuse n */
void arm(size_t s, long k, long n) { size = s; skip = k; count = n; }
void *malloc(size_t n) {
    static void *(*real)(size_t);
    if (!real) real = dlsym(RTLD_NEXT, "malloc");
    if (size && n == size) { if (skip > 0) skip--; else if (count > 0) { count--; return NULL; } }
    return real(n);
}
'''
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for spec in sys.argv[1:]:
    ns = {}
    exec(open(spec).read(), ns)
    d = os.path.join(HERE, 'seeded', ns['ID'])
    os.makedirs(d, exist_ok=True)
    patch = ''
    files = {}
    for f, old, new in ns['EDITS']:
        s = files.get(f) or open('/repo/' + f).read()
        assert s.count(old) == 1, (ns['ID'], f, s.count(old), old)
        files[f] = s.replace(old, new)
        at = s[:s.index(old)].count('\n') + 1
        blame = subprocess.run(['git', '-C', '/repo', 'blame', '-s', '-L', '%d,%d' % (at, at + max(old.rstrip('\n').count('\n'), 0)), f], capture_output=True, text=True).stdout
        if not any(l.startswith('^44c2eae') for l in blame.splitlines()):
            print('WARNING', ns['ID'], 'does not touch original lines', blame)
    for f, new in files.items():
        old = open('/repo/' + f).read()
        patch += 'diff --git a/%s b/%s\n' % (f, f) + ''.join(
            l if l.endswith('\n') else l + '\n\\ No newline at end of file\n'
            for l in difflib.unified_diff(old.splitlines(True), new.splitlines(True), 'a/' + f, 'b/' + f))
    open(os.path.join(d, 'patch.diff'), 'w').write(patch)
    r = subprocess.run(['git', '-C', '/repo', 'apply', '--check', os.path.join(d, 'patch.diff')])
    assert r.returncode == 0
    json.dump({'property': ns['PROPERTY'], 'needs': ns['NEEDS'], 'what_it_breaks': ns['BREAKS']}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    open(os.path.join(d, 'demo.py'), 'w').write(ns['DEMO'].lstrip('\n'))
    if 'mdfiles' in ns['DEMO']:
        open(os.path.join(d, 'mdfiles.py'), 'w').write(open(os.path.join(HERE, 'sim', 'mdfiles.py')).read().replace('from sim import crystals', 'import crystals'))
    if ', engine' in ns['DEMO']:
        open(os.path.join(d, 'engine.py'), 'w').write(open(os.path.join(HERE, 'sim', 'engine.py')).read().replace('from sim import crystals', 'import crystals'))
    if 'crystals' in ns['DEMO']:
        shutil.copy(os.path.join(HERE, 'sim', 'crystals.py'), os.path.join(d, 'crystals.py'))
    open(os.path.join(d, 'demo.sh'), 'w').write('''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d)
trap 'rm -rf "$work"' EXIT
cd "$work"
export PYTHONPATH=/repo:"$here" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg MPLCONFIGDIR="$work" OMP_NUM_THREADS=1
%s/opt/venv/bin/python -W ignore "$here/demo.py"
''' % ns.get('PREFIX', ''))
    os.chmod(os.path.join(d, 'demo.sh'), 0o755)
    if ns.get('SH'):
        open(os.path.join(d, 'shim.c'), 'w').write(SHIM.lstrip('\n'))
        p = os.path.join(d, 'demo.sh')
        t = open(p).read().replace('cd "$work"\n', 'cd "$work"\ngcc -shared -fPIC -O1 "$here/shim.c" -o shim.so -ldl || exit 3\n')
        t = t.replace('/opt/venv/bin/python -W', 'LD_PRELOAD="$work/shim.so" /opt/venv/bin/python -W')
        open(p, 'w').write(t)
    print('wrote', ns['ID'])

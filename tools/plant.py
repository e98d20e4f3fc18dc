#!/usr/bin/env python3
"""Development aid: make a planted bug and confirm it.  plant.py SPECFILE...
A spec file is Python defining ID, PROPERTY, NEEDS, BREAKS, EDITS = [(file, old, new), ...] and DEMO (source of demo.py).
Confirms, in scratch copies of /repo: the edit applies, the stable test scripts pass with it, the demonstration passes
without it and fails with it, and says what the property's check reports.  Writes seeded/<ID>."""
import json, os, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = '''#!/bin/bash
# run in /repo after the build: exit 0 if the property holds
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OMP_NUM_THREADS=1
NUMBA_CACHE_DIR="$(mktemp -d)"; export NUMBA_CACHE_DIR
trap 'rm -rf "$NUMBA_CACHE_DIR"' EXIT
/opt/venv/bin/python "$here/demo.py"
'''


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


def one(path):
    ns = {}; exec(open(path).read(), ns)
    i = ns['ID']; d = os.path.join(ROOT, 'seeded', i)
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(prefix='plant_'); r = os.path.join(w, 'repo')
    try:
        sh('cp -a /repo %s' % r)
        sh('git -C %s checkout -q -- .' % r)
        open(os.path.join(d, 'demo.py'), 'w').write(ns['DEMO'].lstrip('\n'))
        open(os.path.join(d, 'demo.sh'), 'w').write(SH); os.chmod(os.path.join(d, 'demo.sh'), 0o755)
        json.dump(dict(property=ns['PROPERTY'], needs=ns['NEEDS'], what_it_breaks=ns['BREAKS']), open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        a = sh('bash %s/demo.sh' % d, cwd=r, timeout=300)
        if a.returncode: return i, 'DEMO FAILS ON CLEAN ' + (a.stdout + a.stderr)[-600:]
        for f, old, new in ns['EDITS']:
            p = os.path.join(r, 'pipedream_solver', f); s = open(p).read()
            if s.count(old) != 1: return i, 'EDIT matches %d times: %s' % (s.count(old), old[:80])
            open(p, 'w').write(s.replace(old, new))
        open(os.path.join(d, 'patch.diff'), 'w').write(sh('git -C %s diff' % r).stdout)
        b = sh('bash %s/demo.sh' % d, cwd=r, timeout=300)
        if b.returncode == 0: return i, 'DEMO PASSES WITH THE BUG ' + b.stdout[-300:]
        env = dict(os.environ, PYTHONPATH=r, PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg', OMP_NUM_THREADS='1', NUMBA_CACHE_DIR=os.path.join(w, 'nb'))
        ps = [subprocess.Popen(['timeout', '300', '/opt/venv/bin/python', f], cwd=os.path.join(r, 'test'), env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
              for f in sorted(os.listdir(os.path.join(r, 'test'))) if f.endswith('.py') and not f.startswith(('__', 'test_')) and '14-16' not in f and 'Table3' not in f]
        if any([p.wait() for p in ps]): return i, 'STABLE TESTS FAIL'
        c = sh('python3 %s/check.py %s' % (ROOT, ns['PROPERTY']), env=dict(os.environ, VP_REPO=r, VERIF_SEED='1'), timeout=900)
        out = [l for l in c.stdout.splitlines() if l.startswith(('VIOLATION', 'labels', 'CHECK-BROKEN'))]
        return i, 'ok; check %s: rc=%d %s' % (ns['PROPERTY'], c.returncode, ' | '.join(out)[:300])
    finally:
        shutil.rmtree(w, ignore_errors=True)


for p in sys.argv[1:]:
    print(*one(p), flush=True)

"""Development aid (no check uses it): builds seeded/<id>/ from a Python definition and confirms it.

usage: mkseed.py DEFS.py [ID...]   DEFS.py holds SEEDS = {id: dict(property, needs, breaks, edits=[(file, old, new)], demo=python text)}
       mkseed.py --check ID... [-- CHECK...]   run checks (default: the bug's own property) on a copy with the bug
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '#!/bin/sh\n# exit 0: behaves as promised; non-zero: the planted bug shows\nexport PYTHONDONTWRITEBYTECODE=1\nPYTHONPATH="$PWD" exec /opt/venv/bin/python -B "$(dirname "$0")/demo.py"\n'


def sh(cmd, cwd=None, **kw):
    return subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def copy():
    d = tempfile.mkdtemp(prefix='seed', dir='/tmp')
    shutil.copytree('/repo', d + '/r', symlinks=True)
    sh('git checkout -q -- . && git clean -fdq', d + '/r')
    return d


def tests(r):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONPATH=r, TZ='UTC', PYTEST_DISABLE_PLUGIN_AUTOLOAD='1')
    p = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', 'tests', '-o', 'python_files=test*.py'],
                       cwd=r, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode == 0, p.stdout[-1500:]


def build(i, s):
    dst = os.path.join(ROOT, 'seeded', i)
    d = copy()
    r = d + '/r'
    try:
        for f, old, new in s['edits']:
            t = open(os.path.join(r, f)).read()
            if t.count(old) != 1:
                return 'edit does not apply (%d times): %r' % (t.count(old), old[:60])
            open(os.path.join(r, f), 'w').write(t.replace(old, new))
        diff = subprocess.run('git diff', shell=True, cwd=r, stdout=subprocess.PIPE, text=True).stdout
        os.makedirs(dst, exist_ok=True)
        open(dst + '/patch.diff', 'w').write(diff)
        open(dst + '/demo.sh', 'w').write(DEMO)
        os.chmod(dst + '/demo.sh', 0o755)
        open(dst + '/demo.py', 'w').write(s['demo'].lstrip('\n'))
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(dst + '/meta.json', 'w'), indent=1)
        a = sh(dst + '/demo.sh', '/repo')
        b = sh(dst + '/demo.sh', r)
        if a.returncode:
            return 'demo fails on the unchanged tree: ' + a.stdout[-600:]
        if not b.returncode:
            return 'demo passes with the bug'
        ok, out = tests(r)
        if not ok:
            return 'tests fail: ' + out
        return 'ok (demo: %s)' % (b.stdout.strip().splitlines() or ['exit %d' % b.returncode])[-1][:150]
    finally:
        shutil.rmtree(d)


def check(i, pids):
    d = copy()
    r = d + '/r'
    try:
        meta = json.load(open(os.path.join(ROOT, 'seeded', i, 'meta.json')))
        a = sh('git apply %s/seeded/%s/patch.diff' % (ROOT, i), r)
        if a.returncode:
            return 'patch: ' + a.stdout
        res = []
        for p in pids or [meta['property']]:
            b = sh('%s/bin/check %s' % (ROOT, p), env=dict(os.environ, VERIF_REPO=r, VERIF_EVIDENCE=d + '/ev'))
            v = [l for l in b.stdout.splitlines() if l.startswith('VIOLATION property=%s ' % p)]
            first = b.stdout.splitlines()
            k = next((n for n, l in enumerate(first) if l.startswith('VIOLATION')), None)
            res.append('%s %s %s' % (p, 'CAUGHT' if v and b.returncode == 1 else 'MISSED' if b.returncode == 0 else 'ERROR %d %s' % (b.returncode, b.stdout[-500:]),
                                     (first[k + 1].strip()[:140] if k is not None and k + 1 < len(first) else '')))
        return '; '.join(res)
    finally:
        shutil.rmtree(d)


if __name__ == '__main__':
    if sys.argv[1] == '--check':
        a = sys.argv[2:]
        pids = a[a.index('--') + 1:] if '--' in a else []
        a = a[:a.index('--')] if '--' in a else a
        for i in a or sorted(os.listdir(ROOT + '/seeded')):
            print(i, check(i, pids), flush=True)
    else:
        ns = {}
        exec(open(sys.argv[1]).read(), ns)
        for i in sys.argv[2:] or sorted(ns['SEEDS']):
            res = build(i, ns['SEEDS'][i])
            print(i, res, flush=True)
            if not res.startswith('ok'):
                shutil.rmtree(os.path.join(ROOT, 'seeded', i), ignore_errors=True)

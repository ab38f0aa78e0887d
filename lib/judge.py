"""Runs a judging module of the specification over recorded events, in parallel."""
import errno
import json
import os
import signal
import tempfile
import traceback

import core
import kdbxlib as K
import tlc
import vf


def judge(module, events, heap='2g', strip=('_',)):
    """Returns [(event index, {'p':..., 'c':...})]."""
    if not events:
        return []
    fd, path = tempfile.mkstemp(suffix='.ndjson')
    with os.fdopen(fd, 'w') as f:
        for e in events:
            f.write(json.dumps({k: v for k, v in e.items() if k not in strip}))
            f.write('\n')
    try:
        rc, out = tlc.run(module, env={'TRACE': path}, heap=heap)
        pr = tlc.printed(out, 'FAILS ')
        if not pr and tlc.outside(out):
            if len(events) == 1:
                return [(0, {'p': '*', 'c': 'the recorded behaviour has no place in the specification', 'l': 1})]
            m = len(events) // 2
            return judge(module, events[:m], heap, strip) + [(i + m, x) for i, x in judge(module, events[m:], heap, strip)]
        if not pr or pr[0]['n'] != len(events):
            raise tlc.TLCError('%s: %s' % (module, out[-3000:]))
        return [(x['l'] - 1, x) for x in pr[0]['fails']]
    finally:
        os.unlink(path)


def environment(x):
    """an exception that says nothing about the code under test"""
    return isinstance(x, (MemoryError, tlc.TLCError, SyntaxError, NameError, ImportError)) or \
        (isinstance(x, OSError) and x.errno in (errno.ENOSPC, errno.EMFILE, errno.ENFILE, errno.ENOMEM, errno.EAGAIN, errno.EROFS))


class Timeout(Exception):
    pass


def _alarm(*_):
    raise Timeout('the call did not come back')


def guarded(fn, *a, limit=120):
    """fn(*a) with a time limit; exceptions come back as ('exc', type, text)."""
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    try:
        return ('ok', fn(*a))
    except Exception as e:
        return ('exc', e, traceback.format_exc())
    finally:
        signal.alarm(0)


def _job(a):
    fn, args, module, limit = a
    evs = []
    crashes = 0
    for x in args:
        if crashes >= 4:
            break
        r = guarded(fn, x, limit=limit if not crashes else min(limit, 30))
        if r[0] == 'ok':
            evs += r[1]
        else:
            lib = '/pykeepass/' in r[2] or not environment(r[1])
            crashes += 1
            evs.append({'k': 'crash', '_': {'args': repr(x)[:500], 'tb': r[2][-2500:]}, 'lib': lib})
    good = [e for e in evs if e['k'] != 'crash']
    fails = [dict(x, e=good[i]) for i, x in judge(module, good)]
    for e in evs:
        if e['k'] == 'crash':
            if not e['lib']:
                raise RuntimeError('harness: ' + e['_']['tb'])
            fails.append({'p': '*', 'c': 'a call that has to succeed failed: ' + e['_']['tb'].strip().splitlines()[-1][:120], 'e': e})
    kinds = {}
    for e in good:
        kinds[e['k']] = kinds.get(e['k'], 0) + 1
    return {'n': len(good), 'fails': fails[:60], 'kinds': kinds, 'sample': good[0] if good else None}


def run(check, what, fn, args, module, props=None, shards=None, limit=120, explain=None):
    """Records fn(arg) -> events for every arg, judges them with the module, and reports what concerns check."""
    args = list(args)
    n = shards or vf.NPROC
    jobs = [(fn, args[i::n], module, limit) for i in range(n) if args[i::n]]
    for r in core._pool(jobs, _job):
        check.add('traces_validated_against_impl' if check.level == 'model_checking' else 'evaluations', r['n'])
        d = check.cov.setdefault('judged', {})
        for k, v in r['kinds'].items():
            d[k] = d.get(k, 0) + v
        if r['sample']:
            s = json.dumps(r['sample'], default=repr)
            check.sample({what: s[:1500]})
        for f in r['fails']:
            if f['p'] == 'H':
                raise RuntimeError('harness: %s %s' % (f['c'], json.dumps(f['e'], default=repr)[:1500]))
            if f['p'] in ('*', check.pid):
                check.violation('%s/%s' % (what.split(' (')[0], f['c']), '%s: %s\n%s' % (what, f['c'], json.dumps(explain(f) if explain and f['p'] != '*' else f['e'].get('_', ''), default=repr)[:900]), explain(f) if explain and f['p'] != '*' else f['e'])

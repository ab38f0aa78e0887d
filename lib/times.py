"""C14, C18: times, expiry and credential-change bookkeeping at chosen instants of the clock."""
import ctypes
import datetime
import io
import os
import random
import shutil
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

import dbgen
import judge
import kdbxlib as K
import tlc
import vf
from project import enc_time

from pykeepass import PyKeePass

UTC = datetime.timezone.utc
EPOCH = datetime.datetime(1, 1, 1, tzinfo=UTC)
UNIX = 719162       # day of 1970-01-01
TAG = {'ctime': 'CreationTime', 'mtime': 'LastModificationTime', 'atime': 'LastAccessTime', 'expiry_time': 'ExpiryTime'}
ALL = {'c': 'CreationTime', 'm': 'LastModificationTime', 'a': 'LastAccessTime', 'x': 'ExpiryTime', 'l': 'LocationChanged'}
ZONES = ['UTC0', 'CET-1CEST,M3.5.0,M10.5.0/3', 'EST5EDT,M3.2.0,M11.1.0', 'XXX-5:45', 'YYY9:30', 'AAA-14', 'BBB12', 'NZST-12NZDT,M9.5.0,M4.1.0/3']
_lib = None


def shim():
    """Re-executes the process under the clock shim (once)."""
    global _lib
    path = os.environ.get('VERIF_CLOCK')
    if not path:
        d = tempfile.mkdtemp(prefix='clock')
        path = os.path.join(d, 'clock.so')
        subprocess.run(['gcc', '-O1', '-w', '-shared', '-fPIC', '-o', path, os.path.join(vf.ROOT, 'shim', 'clock.c')], check=True)
        env = dict(os.environ, LD_PRELOAD=path, VERIF_CLOCK=path)
        rc = subprocess.run([sys.executable, '-B'] + sys.argv, env=env).returncode
        shutil.rmtree(d, ignore_errors=True)
        os._exit(rc)
    _lib = ctypes.CDLL(path)
    os.environ.pop('LD_PRELOAD', None)
    stop([UNIX + 1, 5, 7])
    ok = datetime.datetime.now(UTC) == datetime.datetime(1970, 1, 2, 0, 0, 5, 7, tzinfo=UTC)
    go()
    if not ok:
        raise RuntimeError('harness: the clock cannot be stopped')


def stop(t):
    _lib.clock_stop(ctypes.c_long((t[0] - UNIX) * 86400 + t[1]), ctypes.c_long(t[2] * 1000))


def go():
    _lib.clock_go()


def zone(z):
    os.environ['TZ'] = z
    time.tzset()


def dt(t, off):
    """the instant t as an aware datetime at an offset of off seconds"""
    base = EPOCH + datetime.timedelta(days=t[0], seconds=t[1], microseconds=t[2])
    return base.astimezone(datetime.timezone(datetime.timedelta(seconds=off)))


def civil(d, off=None):
    if d is None:
        return []
    o = d.utcoffset()
    o = -1 if o is None else int(o.total_seconds())
    return [d.year, d.month, d.day, d.hour, d.minute, d.second, d.microsecond, o if off is None else off]


def codes(s):
    return [ord(c) for c in s] if s else []


def fresh(rng, v, ngroups=4, nentries=6):
    g = dbgen.Gen(rng, (v, 1))
    root, bins = g.db(ngroups=ngroups, nentries=nentries, nbin=0, nhist=0)
    p = dbgen.random_params(rng, (v, rng.choice([0, 1])))
    if p.cipher == 'twofish':
        p.cipher, p.iv = 'aes256', p.iv.ljust(16)[:16]
    return root, bins, p


def opened(root, bins, p, pw='x'):
    return PyKeePass(io.BytesIO(K.encode(p, root, bins, password=pw)), password=pw)


def raw(kp, uid, tag):
    """text of a time of the element with the uuid, straight from the tree"""
    for el in kp.tree.iter('Entry', 'Group'):
        if el.findtext('UUID') == uid and el.getparent().tag != 'History':
            return el.findtext('Times/' + tag)
    return None


def meta(kp, tag):
    return kp.tree.findtext('Meta/' + tag) if kp.tree.getroot().tag == 'KeePassFile' else kp.tree.findtext('.//Meta/' + tag)


def elems(kp):
    return [e for e in (kp.entries or []) if not e.is_a_history_entry] + kp.groups


def uid64(h):
    import base64
    return base64.b64encode(h.uuid.bytes).decode()


def byuid(kp, uid):
    for h in elems(kp):
        if uid64(h) == uid:
            return h
    return None


def get(h, f):
    try:
        return civil(getattr(h, f))
    except Exception:
        return []


def err(e):
    return type(e).__name__


def enc(rng, cases):
    v = cases[0]['v']
    zone(rng.choice(ZONES))
    root, bins, p = fresh(rng, v)
    kp = opened(root, bins, p)
    slots = [(h, f) for h in elems(kp) for f in TAG]
    rng.shuffle(slots)
    evs, later = [], []
    for c in cases:
        t, off, f = c['t'], c['off'], c['f']
        val = dt(t, off)
        e = {'k': 'enc', 'v': v, 'f': f, 'given': civil(val, off), 'err': '', 'text': [], 'got': [], 'again': [], '_': {'given': str(val), 'zone': os.environ['TZ'], 'field': f, 'v': v}}
        try:
            if f == 'credchange_date':
                kp.credchange_date = val
                e['text'] = codes(meta(kp, 'MasterKeyChanged'))
                e['got'] = get(kp, f)
                h = None
                # one value per file: reopened at once
                out = io.BytesIO()
                kp.save(out)
                e['again'] = get(PyKeePass(io.BytesIO(out.getvalue()), password='x'), f)
            elif f.startswith('new'):
                given = val
                if f == 'new naive':
                    zone('T%s%d:%02d:%02d' % ('TT-' if off >= 0 else 'TT+', abs(off) // 3600, abs(off) // 60 % 60, abs(off) % 60))
                    given = val.replace(tzinfo=None)
                h = kp.add_entry(rng.choice(kp.groups), 'new%d' % len(later), 'u', 'p', expiry_time=given)
                if f == 'new naive':
                    zone(rng.choice(ZONES))
                later.append((e, uid64(h), 'expiry_time'))
                e['text'] = codes(raw(kp, uid64(h), 'ExpiryTime'))
                e['got'] = get(h, 'expiry_time')
            else:
                s = next((s for s in slots if s[1] == f), None)
                if s is None:
                    continue
                slots.remove(s)
                h = s[0]
                setattr(h, f, val)
                later.append((e, uid64(h), f))
                e['text'] = codes(raw(kp, uid64(h), TAG[f]))
                e['got'] = get(h, f)
        except Exception as x:
            e['err'] = err(x)
        evs.append(e)
    zone(rng.choice(ZONES))
    out = io.BytesIO()
    kp.save(out)
    kp2 = PyKeePass(io.BytesIO(out.getvalue()), password='x')
    for e, uid, f in later:
        h = byuid(kp2, uid)
        e['again'] = get(h, f) if h is not None else []
    return evs


def write(t, off, form):
    """the text of an instant in one of the textual forms"""
    if form == 'bin':
        return enc_time(t, 4)
    d = dt(t, off if form in ('off', 'us off') else 0)
    s = '%04d-%02d-%02d%s%02d:%02d:%02d' % (d.year, d.month, d.day, ' ' if form == 'space Z' else 'T', d.hour, d.minute, d.second)
    if form == 'ms Z':
        s += '.%03d' % (d.microsecond // 1000)
    if form == 'us off':
        s += '.%06d' % d.microsecond
    if form.endswith('Z'):
        return s + 'Z'
    if form == '+00:00':
        return s + '+00:00'
    if form.endswith('off'):
        return s + '%s%02d:%02d' % ('+' if off >= 0 else '-', abs(off) // 3600, abs(off) // 60 % 60)
    return s


def dec(rng, cases):
    v = cases[0]['v']
    zone(rng.choice(ZONES))
    root, bins, p = fresh(rng, v)
    els = list(root.iter('Entry', 'Group'))
    slots = [(el, f) for el in els for f in TAG]
    rng.shuffle(slots)
    use = []
    for c in cases:
        f = c['f']
        s = write(c['t'], c['off'], c['form'])
        if f == 'credchange_date':
            if any(u[1] == f for u in use):
                continue
            root.find('Meta/MasterKeyChanged').text = s
            use.append((None, f, s, c))
        else:
            x = next((x for x in slots if x[1] == f), None)
            if x is None:
                continue
            slots.remove(x)
            x[0].find('Times/' + TAG[f]).text = s
            use.append((x[0].findtext('UUID'), f, s, c))
    data = K.encode(p, root, bins, password='x')
    kp = PyKeePass(io.BytesIO(data), password='x')
    zone(rng.choice(ZONES))
    out = io.BytesIO()
    kp.save(out)
    kp2 = PyKeePass(io.BytesIO(out.getvalue()), password='x')
    evs = []
    for uid, f, s, c in use:
        e = {'k': 'dec', 'v': v, 'f': f, 'form': c['form'], 'text': codes(s), 'err': '', 'got': [], 'again': [], '_': {'text': s, 'field': f, 'v': v, 'zone': os.environ['TZ']}}
        try:
            e['got'] = civil(getattr(byuid(kp, uid) if uid else kp, f))
            e['again'] = civil(getattr(byuid(kp2, uid) if uid else kp2, f))
            e['_']['got'] = repr(e['got'])
        except Exception as x:
            e['err'] = err(x)
        evs.append(e)
    return evs


def exp(rng, cases):
    v = cases[0]['c']['v']
    zone(rng.choice(ZONES))
    root, bins, p = fresh(rng, v, ngroups=12, nentries=24)
    ent, grp = list(root.iter('Entry')), list(root.iter('Group'))
    evs, use = [], []
    for case in cases:
        c = case['c']
        pool = grp if c['el'] == 'group' else ent
        if not pool:
            continue
        el = pool.pop()
        s = write(c['x'], 0, 'bin' if v == 4 and rng.random() < .8 else 'Z')
        el.find('Times/ExpiryTime').text = s
        el.find('Times/Expires').text = str(c['on'])
        use.append((el.findtext('UUID'), c, case['now'], s))
    kp = opened(root, bins, p)
    for uid, c, now, s in use:
        e = {'k': 'exp', 'v': v, 'el': c['el'], 'on': c['on'], 'now': now, 'text': codes(s), 'err': '', 'got': False, 'goton': False,
             '_': {'expiry': s, 'expires': c['on'], 'now': str(dt(now, 0)), 'zone': os.environ['TZ']}}
        h = byuid(kp, uid)
        try:
            if c['el'] == 'history':
                h.save_history()
                h = h.history[-1]
            if rng.random() < .3:
                h.expires = c['on']
            if rng.random() < .3:
                h.expiry_time = dt(c['x'], rng.choice([0, 3600, -34200]))
            stop(now)
            try:
                e['got'] = bool(h.expired)
                e['goton'] = bool(h.expires)
            finally:
                go()
        except Exception as x:
            e['err'] = err(x)
        evs.append(e)
    return evs


def texts(kp, uid):
    return {k: codes(raw(kp, uid, t)) for k, t in ALL.items()}


def touch(rng, now, v):
    """touches and creations at the instant now"""
    zone(rng.choice(ZONES))
    root, bins, p = fresh(rng, v)
    kp = opened(root, bins, p)
    evs = []
    for _ in range(6):
        h = rng.choice(elems(kp))
        uid, el = uid64(h), type(h).__name__.lower()
        old = texts(kp, uid)
        how = rng.choice(['()', '(True)', '(modify=True)', '(modify=False)', '(False)'])
        e = {'k': 'touch', 'v': v, 'el': el, 'mod': 'True' in how, 'now': now, 'old': old, 'new': old, 'err': '', '_': {'call': 'touch' + how, 'now': str(dt(now, 0)), 'zone': os.environ['TZ']}}
        stop(now)
        try:
            h.touch(**({'modify': 'True' in how})) if 'modify' in how else h.touch(*([] if how == '()' else [how == '(True)']))
        except Exception as x:
            e['err'] = err(x)
        finally:
            go()
        e['new'] = texts(kp, uid)
        evs.append(e)
    for what in ('entry', 'group', 'expiring entry'):
        e = {'k': 'new', 'v': v, 'el': what, 'now': now, 'new': {}, 'err': '', '_': {'now': str(dt(now, 0)), 'zone': os.environ['TZ']}}
        stop(now)
        try:
            par = rng.choice(kp.groups)
            if what == 'entry':
                h = kp.add_entry(par, 'n', 'u', 'p', force_creation=True)
            elif what == 'group':
                h = kp.add_group(par, 'n')
            else:
                h = kp.add_entry(par, 'n', 'u', 'p', expiry_time=datetime.datetime(2030, 1, 1, tzinfo=UTC), force_creation=True)
            go()
            e['new'] = texts(kp, uid64(h))
            if what == 'expiring entry':
                e['new'].pop('x')
        except Exception as x:
            e['err'] = err(x)
        finally:
            go()
        evs.append(e)
    return evs


def cred(rng, case):
    c, now = case['c'], case['now']
    v = c['v']
    zone(rng.choice(ZONES))
    root, bins, p = fresh(rng, v, 1, 0)
    m = root.find('Meta')
    s = write(c['x'], 0, 'bin' if v == 4 and rng.random() < .8 else 'Z') if c['set'] else ''
    e = m.find('MasterKeyChanged')
    if s:
        e.text = s
    else:
        e.text = None
        if rng.random() < .5:
            m.remove(e)
    other = rng.choice([-99, -1, 0, 1, 5, 20000])
    n = {'MasterKeyChangeForce': other if c['rec'] else c['n'], 'MasterKeyChangeRec': c['n'] if c['rec'] else other}
    late = {}
    for tag, k in n.items():
        e = m.find(tag)
        if k == -99:
            e.text = None
            if rng.random() < .5:
                m.remove(e)
        elif rng.random() < .3:
            e.text = rng.choice(['-1', '3', None])
            late[tag] = k
        else:
            e.text = str(k)
    kp = opened(root, bins, p)
    ev = {'k': 'cred', 'v': v, 'text': codes(s), 'now': now, 'nreq': n['MasterKeyChangeForce'], 'nrec': n['MasterKeyChangeRec'], 'err': '', 'req': False, 'rec': False, 'gotreq': -98, 'gotrec': -98,
          '_': {'changed': s, 'now': str(dt(now, 0)), 'days': n, 'assigned': late, 'zone': os.environ['TZ']}}
    try:
        if 'MasterKeyChangeForce' in late:
            kp.credchange_required_days = late['MasterKeyChangeForce']
        if 'MasterKeyChangeRec' in late:
            kp.credchange_recommended_days = late['MasterKeyChangeRec']
        if s and rng.random() < .2:
            kp.credchange_date = dt(c['x'], rng.choice([0, 3600, -34200]))
        if rng.random() < .3:
            out = io.BytesIO()
            kp.save(out)
            kp = PyKeePass(io.BytesIO(out.getvalue()), password='x')
        stop(now)
        try:
            ev['req'], ev['rec'] = bool(kp.credchange_required), bool(kp.credchange_recommended)
        finally:
            go()
        q, r = kp.credchange_required_days, kp.credchange_recommended_days
        ev['gotreq'], ev['gotrec'] = -99 if q is None else q, -99 if r is None else r
    except Exception as x:
        ev['err'] = err(x)
    return [ev]


OPS = ['password', 'same password', 'no password', 'keyfile', 'no keyfile', 'save', 'save as', 'reload', 'read', 'edit', 'touch', 'name', 'days', 'look', 'trash', 'bad save', 'bad read', 'days', 'binary', 'use']


def steps(rng, v, n):
    """a history of calls, the clock advancing in between; the recorded time after each"""
    top = tempfile.mkdtemp(prefix='cred')
    evs = []
    zone(rng.choice(ZONES))
    try:
        root, bins, p = fresh(rng, v, 3, 4)
        if rng.random() < .3:
            root.find('Meta/MasterKeyChanged').text = None
        fn = os.path.join(top, 'db.kdbx')
        with open(fn, 'wb') as f:
            f.write(K.encode(p, root, bins, password='x'))
        keys = []
        for i in range(3):
            keys.append(os.path.join(top, 'key%d' % i))
            with open(keys[-1], 'wb') as f:
                f.write(bytes([i]) * rng.choice([0, 32, 40]))
        now = [rng.randint(UNIX + 1, UNIX + 60000), rng.randint(0, 86399), rng.choice([0, 1, 900000])]
        cur = {'p': 'x', 'k': None}
        filed = dict(cur)
        ftext = meta_text(root)
        kp = PyKeePass(fn, password='x')
        log = []
        for _ in range(n):
            op = rng.choice(OPS)
            d = rng.choice([1, 59, 3600, 86399, 86400, 10**6])
            now = [now[0] + (now[1] + d) // 86400, (now[1] + d) % 86400, rng.choice([0, 1, 500000, 900000])]
            if now[0] > UNIX + 100000:
                break
            old = meta(kp, 'MasterKeyChanged')
            e = {'k': 'step', 'v': v, 'op': op, 'old': codes(old), 'assigns': False, 'now': now, 'err': '', 'new': []}
            ents = [x for x in kp.entries if not x.is_a_history_entry]
            ent = rng.choice(ents) if ents else None
            stop(now)
            try:
                if op in ('password', 'same password', 'no password'):
                    e['assigns'] = True
                    w = {'password': rng.choice(['x', 'y', '']), 'same password': cur['p'], 'no password': None}[op]
                    kp.password = w
                    cur['p'] = w
                elif op in ('keyfile', 'no keyfile'):
                    e['assigns'] = True
                    w = rng.choice(keys) if op == 'keyfile' else None
                    kp.keyfile = w
                    cur['k'] = w
                elif op == 'save':
                    kp.save()
                    filed, ftext = dict(cur), meta(kp, 'MasterKeyChanged')
                elif op == 'save as':
                    kp.save(os.path.join(top, 'other.kdbx'))
                elif op == 'reload':
                    # shows the time in the file
                    if cur == filed:
                        kp.reload()
                        e['old'] = codes(ftext)
                elif op == 'read':
                    kp.read(fn, password=filed['p'], keyfile=filed['k'])
                    cur = dict(filed)
                    e['old'] = codes(ftext)
                elif op == 'edit' and ent:
                    ent.title = rng.choice(['a', 'b'])
                    ent.password = 'pw%d' % rng.randint(0, 5)
                elif op == 'touch' and ent:
                    ent.touch(modify=True)
                elif op == 'name':
                    kp.database_name = rng.choice(['n1', 'n2'])
                elif op == 'days':
                    kp.credchange_required_days = rng.choice([0, 1, -1])
                    kp.credchange_recommended_days = rng.choice([0, 1, -1])
                elif op == 'look':
                    kp.credchange_required, kp.credchange_recommended, kp.password, kp.keyfile, kp.transformed_key
                elif op == 'trash' and ent:
                    try:
                        kp.trash_entry(ent)
                    except ValueError:
                        pass
                elif op == 'bad save':
                    kp.save(os.path.join(top, 'nowhere', 'x.kdbx'))
                elif op == 'bad read':
                    kp.read(fn, password='wrong')
                elif op == 'binary':
                    kp.add_binary(b'data')
                elif op == 'use' and ent:
                    ent.save_history()
            except Exception as x:
                e['err'] = err(x)
            finally:
                go()
            e['new'] = codes(meta(kp, 'MasterKeyChanged'))
            log.append(op)
            e['_'] = {'calls': log[-8:], 'now': str(dt(now, 0)), 'old': old, 'new': meta(kp, 'MasterKeyChanged'), 'v': v}
            evs.append(e)
    finally:
        go()
        shutil.rmtree(top, ignore_errors=True)
    return evs


def meta_text(root):
    return root.findtext('Meta/MasterKeyChanged') or ''


def job(a):
    kind, x, seed = a
    rng = random.Random(seed)
    try:
        if kind == 'enc':
            return enc(rng, x)
        if kind == 'dec':
            return dec(rng, x)
        if kind == 'exp':
            return exp(rng, x)
        if kind == 'touch':
            return touch(rng, *x)
        if kind == 'cred':
            return [e for c in x for e in cred(rng, c)]
        return steps(rng, *x)
    finally:
        go()


def enumerated(what):
    rc, out = tlc.run('TimesMC', cfg='SPECIFICATION Spec\nCONSTANT EMIT = %s\nCONSTANT WHAT = "%s"\nINVARIANT Calendar\nINVARIANT Codec\nINVARIANT Monotone\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n' % (
        'FALSE' if what == 'cal' else 'TRUE', what), workers=2)
    if rc != 0:
        raise tlc.TLCError('TimesMC: ' + out[-2000:])
    return what, tlc.stats(out), tlc.printed(out, 'TM ')


def groups(rng, cases, n, key):
    """n cases in batches of one version, covering every value of every dimension"""
    rng.shuffle(cases)
    first, rest, seen = [], [], set()
    for c in cases:
        k = key(c)
        (rest if k in seen else first).append(c)
        seen.add(k)
    return (first + rest)[:max(n, len(first))]


def batches(cases, v, size):
    r = []
    for w in (3, 4):
        xs = [c for c in cases if v(c) == w]
        r += [xs[i:i + size] for i in range(0, len(xs), size)]
    return r


def run(check, c14, limits):
    kinds = ['cal', 'enc', 'dec', 'exp', 'cred'] if c14 else ['cal', 'cred']
    with ThreadPoolExecutor(4) as p:
        res = {w: (s, x) for w, s, x in p.map(enumerated, kinds)}
    for w, ((g, d), x) in res.items():
        check.add('states', d)
        check.add('transitions', g)
        if w != 'cal':
            check.cov['enumerated_' + w] = len(x)
    rng = random.Random(vf.SEED)
    jobs = []
    if c14:
        xs = [x['c'] for x in res['enc'][1] if x['c']['f'] != 'credchange_date' or x['c']['t'][1] in (0, 45296)]
        xs = groups(rng, xs, limits['enc'], lambda c: (c['v'], c['f'], c['off'], tuple(c['t'])[0]))
        rng.shuffle(xs)
        jobs += [('enc', b, 0) for b in batches(xs, lambda c: c['v'], 30)]
        xs = groups(rng, [x['c'] for x in res['dec'][1]], limits['dec'], lambda c: (c['v'], c['f'], c['off'], c['form'], c['t'][0] % 3))
        rng.shuffle(xs)
        jobs += [('dec', b, 0) for b in batches(xs, lambda c: c['v'], 24)]
        xs = groups(rng, res['exp'][1], limits['exp'], lambda x: (x['c']['v'], x['c']['on'], x['c']['el'], tuple(x['c']['n'])))
        rng.shuffle(xs)
        jobs += [('exp', b, 0) for b in batches(xs, lambda c: c['c']['v'], 24)]
        nows = [x['now'][:2] + [min(x['now'][2], 900000)] for x in res['exp'][1]]
        jobs += [('touch', (rng.choice(nows), v), 0) for v in (3, 4) for _ in range(limits['touch'])]
    else:
        xs = groups(rng, res['cred'][1], limits['cred'], lambda x: (x['c']['v'], x['c']['n'], x['c']['k'], tuple(x['c']['o']), x['c']['rec'], x['c']['set']))
        rng.shuffle(xs)
        jobs += [('cred', xs[i:i + 20], 0) for i in range(0, len(xs), 20)]
        jobs += [('steps', (v, 25), 0) for v in (3, 4) for _ in range(limits['steps'])]
    jobs = [(k, x, vf.SEED * 99991 + i) for i, (k, x, _) in enumerate(jobs)]
    rng.shuffle(jobs)
    judge.run(check, 'times', job, jobs, 'TimesTrace')

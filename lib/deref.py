"""Conformance of field references with spec/Deref.tla."""
import io
import random
import re
import uuid as _uuid

import dbgen
import judge
import kdbxlib as K
import tlc
import vf
from dbgen import b64, sub
from pykeepass import PyKeePass

ATTR = {'T': 'title', 'U': 'username', 'P': 'password', 'A': 'url', 'N': 'notes', 'I': 'uuid'}
KEY = {'T': 'Title', 'U': 'UserName', 'P': 'Password', 'A': 'URL', 'N': 'Notes'}
REF = re.compile(r'\{REF:[TUPANI]@[TUPANI]:[^}]+\}')


def codes(t):
    return [ord(c) for c in t]


def result(fn):
    try:
        r = fn()
    except RecursionError:
        return {'k': 'endless recursion', 't': []}
    except Exception as e:
        return {'k': 'exception ' + type(e).__name__, 't': []}
    if r is None:
        return {'k': 'none', 't': []}
    if isinstance(r, _uuid.UUID):
        return {'k': 'uuid', 't': codes(r.hex.upper())}
    return {'k': 'text', 't': codes(r)} if isinstance(r, str) else {'k': 'a ' + type(r).__name__, 't': []}


def session(rng, n, nhist, prepare=None):
    maj = rng.choice([3, 4])
    g = dbgen.Gen(rng, (maj, 1))
    root, bins = g.db(ngroups=3, nentries=n, nbin=0, nhist=nhist, bin='none')
    if prepare:
        prepare(root)
    p = dbgen.random_params(rng, (maj, 1))
    if p.cipher == 'twofish':
        p.cipher, p.iv = 'aes256', p.iv.ljust(16)[:16]
    return PyKeePass(io.BytesIO(K.encode(p, root, bins, 'pw')), password='pw')


def entries(kp):
    out = []
    for e in kp.tree.getroot().iter('Entry'):
        f = {}
        for s in e.findall('String'):
            k = next((x for x, y in KEY.items() if y == s.findtext('Key')), None)
            if k:
                f[k] = codes(s.findtext('Value') or '')
        out.append({'hist': e.getparent().tag == 'History', 'id': [int(c, 16) for c in K.base64.b64decode(e.findtext('UUID')).hex()], 'f': f or {'-': []}, '_': e})
    return out


def ask(kp, E, text, log, qs):
    qs.append({'what': 'text', 's': codes(text), 'e': 0, 'w': '', 'res': result(lambda: kp.deref(text))})
    log.append(text)


def model_job(a):
    """Databases of the model, one after the other in one session."""
    dbs, seed = a
    rng = random.Random(seed)
    n = len(dbs[0])
    kp = session(rng, n, 1)
    es = kp.entries
    # the history entries hold what would be found wrongly
    evs = []
    ids = [e.uuid.hex.upper() for e in es]

    def text(x):
        if x in ('a', 'b'):
            return x
        if x == 'none':
            return ''
        if x == 'bad':
            return '{REF:T@I:zz}'
        if x == 'lost':
            return '{REF:T@I:%032X}' % rng.getrandbits(128)
        if x == 'byTa':
            return '{REF:U@T:a}'
        if x == 'byUb':
            return '{REF:T@U:b}'
        i = ids[int(x[-1]) - 1]
        return '{REF:%s@I:%s}' % (x[0], i) if x[0] != 'x' else 'x{REF:T@I:%s}y{REF:T@I:%s}' % (i, i)
    for d in dbs:
        for e, x in zip(es, d):
            e.title = text(x['t'])
            e.username = text(x['u'])
        E = entries(kp)
        qs, log = [], []
        for k, e in enumerate(es):
            for at, w in (('title', 'T'), ('username', 'U')):
                v = getattr(e, at) or ''
                qs.append({'what': 'text', 's': codes(v), 'e': 0, 'w': '', 'res': result(lambda: kp.deref(v))})
                log.append('deref(%r)' % v)
                if v:
                    qs.append({'what': 'text', 's': codes(v), 'e': 0, 'w': '', 'res': result(lambda: e.deref(at))})
                    log.append('entry.deref(%s) %r' % (at, v))
                i = next(j for j, y in enumerate(E) if not y['hist'] and y['_'].findtext('UUID') == b64(e.uuid.bytes))
                r = e.ref(at)
                qs.append({'what': 'ref', 's': codes(r), 'e': i + 1, 'w': w, 'res': result(lambda: kp.deref(r))})
                log.append('ref %r' % r)
        for y in E:
            y.pop('_')
        evs.append({'k': 'deref', 'E': E, 'qs': qs, '_': {'seed': seed, 'model': d, 'calls': log}})
    return evs


WORDS = ['alice', 'bob', 'pw"1', "o'x", 'a b', '', 'é', '日本', ']', '100%', '{USERNAME}', '{', '{ref:T@I:x}', '{REF:X@I:1}', 'REF:T@I', '{REF:T@I:}', '\\1', '\\g<0>', '{REF:T}', 'x@y:z', '<b>', '{0}', '%s', ' lead', 'trail ', 'a\tb', 'a\nb', '  ', 'Alice', 'ALICE', '0', 'a/b', 'a\u00a0b', '/', '//', "'", '"', '*', '(', '[1]', 'a@b', ':', 'REF', 'x' * 100, '12345678123456781234567812345678']


def random_job(a):
    seed, n = a
    rng = random.Random(seed)
    words = rng.sample(WORDS, 7) + ['']
    kp = session(rng, rng.randint(2, 5), None)
    els = list(kp.tree.getroot().iter('Entry'))

    def ident(el):
        h = K.base64.b64decode(el.findtext('UUID')).hex()
        return rng.choice([h.upper(), h.upper(), h, str(_uuid.UUID(h)), str(_uuid.UUID(h)).upper()])

    def ref():
        w, i = rng.choice('TUPANI'), rng.choice('TUPANIII')
        if i == 'I':
            r = rng.random()
            v = ident(rng.choice(els)) if r < .85 else rng.choice(['zz', 'G' * 32, '0' * 31, '0' * 33, '%032x' % rng.getrandbits(128), '-', 'é' * 32])
        else:
            v = rng.choice([x for x in words if x and '}' not in x])
            if rng.random() < .05:
                v = '{REF:U@T:x'       # what an inner reference looks like
        return '{REF:%s@%s:%s}' % (w, i, v)

    def txt(p):
        r = rng.random()
        if r > p:
            return rng.choice(words)
        parts = [ref()]
        if rng.random() < .2:
            parts.append(rng.choice([parts[0], ref()]))
        for _ in range(rng.randint(0, 2)):
            parts.insert(rng.randint(0, len(parts)), rng.choice(words))
        return ''.join(parts)
    evs = []
    for _ in range(n):
        p = rng.choice([.1, .3, .5, .8])
        for el in els:
            for s in el.findall('String'):
                if s.findtext('Key') in KEY.values():
                    s.find('Value').text = txt(p) or None
        if rng.random() < .3 and kp.entries:
            rng.choice(kp.entries).save_history()
            els = list(kp.tree.getroot().iter('Entry'))
        E = entries(kp)
        objs = {e.uuid.hex: e for e in kp.entries}
        qs, log = [], []
        for _ in range(8):
            v = txt(.9)
            qs.append({'what': 'text', 's': codes(v), 'e': 0, 'w': '', 'res': result(lambda: kp.deref(v))})
            log.append('deref(%r)' % v)
        for i, y in enumerate(E):
            if y['hist']:
                continue
            e = objs[K.base64.b64decode(y['_'].findtext('UUID')).hex()]
            w = rng.choice('TUPANI')
            r = e.ref(ATTR[w])
            qs.append({'what': 'ref', 's': codes(r), 'e': i + 1, 'w': w, 'res': result(lambda: kp.deref(r))})
            log.append('ref %r' % r)
            at = rng.choice(['title', 'username', 'password', 'url', 'notes'])
            v = getattr(e, at)
            if v:
                qs.append({'what': 'text', 's': codes(v), 'e': 0, 'w': '', 'res': result(lambda: e.deref(at))})
                log.append('entry.deref(%s) %r' % (at, v))
        fields = {i: {k: ''.join(map(chr, v)) for k, v in y['f'].items()} for i, y in enumerate(E)}
        for y in E:
            y.pop('_')
        evs.append({'k': 'deref', 'E': E, 'qs': qs, '_': {'seed': seed, 'calls': log, 'fields': fields}})
    return evs


def explain(f):
    e = f['e']
    i = f['i'] - 1
    return {'call': e['_']['calls'][i], 'got': e['qs'][i]['res']['k'], 'got text': ''.join(map(chr, e['qs'][i]['res']['t'])), 'want': f['want']['k'], 'want text': ''.join(map(chr, f['want']['t'])), 'entries': e['_'].get('fields') or e['_'].get('model'), 'seed': e['_']['seed']}


def run(check, ne, syms, limit, nrandom, per):
    cfg = 'SPECIFICATION Spec\nCONSTANTS EMIT=TRUE IdLen=2 NE=%d Syms={%s}\nINVARIANT Laws\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n' % (ne, ', '.join('"%s"' % s for s in syms))
    rc, out = tlc.run('DerefMC', cfg=cfg, workers=8, heap='6g')
    if rc != 0:
        raise tlc.TLCError('DerefMC: ' + '\n'.join(x for x in out.splitlines() if not x.startswith('"'))[-2500:])
    g, d = tlc.stats(out)
    check.add('states', d)
    check.add('transitions', g)
    dbs = tlc.printed(out, 'DB ')
    check.cov['model_databases_%d' % ne] = len(dbs)
    random.Random(vf.SEED).shuffle(dbs)
    dbs = dbs[:limit]
    check.cov['model_databases_replayed_%d' % ne] = len(dbs)
    jobs = [(dbs[i:i + 50], vf.SEED * 333 + i) for i in range(0, len(dbs), 50)]
    if jobs:
        judge.run(check, 'references of the model', model_job, jobs, 'DerefTrace', shards=min(len(jobs), vf.NPROC * 2), explain=explain)
    if nrandom:
        judge.run(check, 'random references', random_job, [(vf.SEED * 881 + i, per) for i in range(nrandom)], 'DerefTrace', shards=vf.NPROC, explain=explain)

"""Conformance of find_entries, find_groups, find_attachments with spec/Search.tla."""
import io
import random
import re
import uuid as _uuid
from datetime import datetime, timedelta, timezone

import dbgen
import judge
import kdbxlib as K
import project as P
import tlc
import vf
from dbgen import b64, sub
from pykeepass import PyKeePass

POOL = [t for t in dbgen.NASTY if t != '\u0130' and len(t) < 30] + ['ab', 'aB', 'AB', 'abc', 'a"b', "a'b", '"]|//*["', '")', "')]", '\'"\'"', 'ab;cd', 'x\ny', 'foo\n', 'ab ab',
        '{}{}', '{flags}', '{0}"', '\\d', 'a\\', '"\\', 'text()="a"', "a' or 'a", '1', '10', 'True', 'False', '&quot;', '$1', 'A\u030a', 'aaaa', 'a' * 20, 'Tag', 'otp', 'Title']
KEYS = ['k1', 'k2', 'say "k"', "it's", '\'"', ']', 'otp2', 'Title', '{k}', 'a"]|//*["']
TAGS = ['tag1', 'tag2', 'ta', 'x y', 'q"t', "q't", 'b"\'', ']', 'TAG1']
T0 = datetime(2001, 1, 1, tzinfo=timezone.utc)


def codes(t):
    return [ord(c) for c in t]


# ------------------------------------------------------------------ expressions

def N(o, **k):
    return dict({'o': o}, **k)


def chars(t):
    return [N('chr', c=ord(c)) for c in t]


def rx(rng, t, t2):
    """An expression near the text t."""
    r = rng.random()
    if r < .12:
        return N('cat', a=chars(t))
    if r < .24:
        return N('cat', a=[N('bol')] + chars(t) + [N('eol')])
    if r < .30:
        return N('rep', lo=0, hi=-1, a=[N('any')])
    if r < .34:
        return N('cat', a=[N('bol'), N('eol')])
    if r < .40:
        return N('cat', a=[N('bol'), N('rep', lo=1, hi=-1, a=[N('any')]), N('eol')])
    if r < .50:
        return N('alt', a=[N('cat', a=chars(t)), N('cat', a=chars(t2))])
    if r < .56:
        return N('cat', a=[N('bol'), N('alt', a=[N('cat', a=chars(t[:2])), N('set', cs=codes(t2[:3]) or [97], neg=rng.random() < .5)])])
    xs = []
    for c in t[:8]:
        q = rng.random()
        if q < .15:
            x = N('any')
        elif q < .3:
            x = N('set', cs=sorted({ord(c)} | {ord(rng.choice(POOL[rng.randrange(len(POOL))] or 'a')) for _ in range(2)}), neg=rng.random() < .25)
        else:
            x = N('chr', c=ord(c))
        q = rng.random()
        if q < .1:
            x = N('rep', lo=0, hi=1, a=[x])
        elif q < .17:
            x = N('rep', lo=0, hi=-1, a=[x])
        elif q < .24:
            x = N('rep', lo=1, hi=-1, a=[x])
        elif q < .28:
            lo = rng.randint(0, 2)
            x = N('rep', lo=lo, hi=lo + rng.randint(0, 2), a=[x])
        xs.append(x)
    if rng.random() < .4:
        xs.insert(0, N('bol'))
    if rng.random() < .4:
        xs.append(N('eol'))
    return N('cat', a=xs)


def cls(c):
    c = chr(c)
    return '\\' + c if c in '\\]^-[&~|' else c


def render(x):
    o = x['o']
    if o == 'chr':
        return re.escape(chr(x['c']))
    if o == 'any':
        return '.'
    if o == 'set':
        return '[' + ('^' if x['neg'] else '') + ''.join(map(cls, x['cs'])) + ']'
    if o == 'cat':
        return ''.join(map(render, x['a']))
    if o == 'alt':
        return '(?:' + '|'.join(map(render, x['a'])) + ')'
    if o == 'rep':
        q = {(0, -1): '*', (1, -1): '+', (0, 1): '?'}.get((x['lo'], x['hi'])) or '{%d,%d}' % (x['lo'], x['hi'])
        return '(?:' + render(x['a'][0]) + ')' + q
    return {'bol': '^', 'eol': '$'}[o]


# ------------------------------------------------------------------ databases

class Db:
    def __init__(self, rng):
        self.rng = rng
        self.maj = rng.choice([3, 4])
        g = dbgen.Gen(rng, (self.maj, 1))
        self.root, self.bins = g.db(ngroups=1, nentries=0, nbin=12, bin='none')
        self.g = g
        self.pool = rng.sample(POOL, 5) + ['']
        base = rng.choice(self.pool[:5])
        self.pool += [base + 'x', base.swapcase(), base + '"', base[:-1]]
        self.n = 0
        top = self.root.find('Root/Group')
        self.fix(top)
        top.find('Name').text = self.val()
        groups = [top]
        for _ in range(rng.randint(3, 9)):
            par = rng.choice(groups[-3:])
            if rng.random() < .4:
                x = g.group(par, self.val())
                if x.find('Notes') is not None:
                    x.find('Notes').text = self.val()
                if rng.random() < .1:
                    x.remove(x.find('Name'))
                groups.append(x)
            else:
                x = self.entry(sub(par, 'Entry'), g.uuid())
                if rng.random() < .4:
                    h = sub(x, 'History')
                    for _ in range(rng.randint(1, 2)):
                        self.entry(sub(h, 'Entry'), K.base64.b64decode(x.find('UUID').text))
            self.fix(x)
        self.E = []
        self.times = {}
        self.collect(top, 0, False)
        p = dbgen.random_params(rng, (self.maj, 1))
        if p.cipher == 'twofish':
            p.cipher, p.iv = 'aes256', p.iv.ljust(16)[:16]
        self.kp = PyKeePass(io.BytesIO(K.encode(p, self.root, self.bins, 'pw')), password='pw')

    def recollect(self):
        self.E, self.times = [], {}
        self.collect(self.kp.tree.getroot().find('Root/Group'), 0, False)

    def edit(self):
        kp, rng = self.kp, self.rng
        es, gs = kp.entries, kp.groups
        r = rng.random()
        if r < .5 and es:
            e = rng.choice(es)
            k = rng.choice(['title', 'username', 'password', 'url', 'notes', 'otp', 'autotype_sequence', 'tags', 'custom'])
            v = rng.choice(self.pool)
            if k == 'custom':
                e.set_custom_property(rng.choice(['k1', 'k2', 'say "k"']), v)
            elif k == 'tags':
                e.tags = rng.sample(TAGS, 2)
            else:
                setattr(e, k, v)
        elif r < .65:
            rng.choice(gs).name = rng.choice(self.pool)
        elif r < .75:
            rng.choice(gs).notes = rng.choice(self.pool)
        elif r < .85 and es:
            kp.move_entry(rng.choice(es), rng.choice(gs))
        elif r < .92 and len(gs) > 1:
            g = rng.choice(gs[1:])
            inside = [x for x in kp.find_groups(group=g)] + [g]
            ids = {self.at(x) for x in inside}
            kp.move_group(g, rng.choice([x for x in gs if self.at(x) not in ids]))
        elif len(es) > 2:
            kp.delete_entry(rng.choice(es))

    def val(self):
        v = self.rng.choice(self.pool)
        return v or None

    def fix(self, el):
        # times identify the elements
        self.n += 1
        t = T0 + timedelta(days=self.n, seconds=self.n * 7)
        d = t - datetime(1, 1, 1, tzinfo=timezone.utc)
        tm = el.find('Times')
        if tm is None:
            self.g.times(el)
            tm = el.find('Times')
        tm.find('CreationTime').text = P.enc_time([d.days, d.seconds, 0], self.maj)
        for h in el.findall('History/Entry'):
            self.fix(h)

    def entry(self, e, uid):
        rng = self.rng
        sub(e, 'UUID', b64(uid))
        if rng.random() < .1:
            e.find('UUID').text = b64(bytes([251 + rng.randrange(5)] * 3) + uid[3:])      # + and / in base64
        ks = ['Title', 'UserName', 'Password', 'URL', 'Notes', 'otp'] + rng.sample(KEYS[:-1], 2)
        ks = [k for i, k in enumerate(ks) if k not in ks[:i] and rng.random() < .9]
        rng.shuffle(ks)
        for k in ks:
            s = sub(e, 'String')
            sub(s, 'Key', k)
            v = sub(s, 'Value', self.val())
            if k in ('Password', 'otp') or rng.random() < .1:
                v.set('Protected', 'True')
        if rng.random() < .8:
            a = sub(e, 'AutoType')
            sub(a, 'Enabled', rng.choice(['True', 'False']))
            if rng.random() < .9:
                sub(a, 'DefaultSequence', self.val())
            for _ in range(rng.choice([0, 1, 1, 2])):
                s = sub(a, 'Association')
                sub(s, 'Window', self.val())
                sub(s, 'KeystrokeSequence', self.val())
        if rng.random() < .6:
            sub(e, 'Tags', rng.choice([';', ',']).join(rng.sample(TAGS, rng.randint(0, 3))) or None)
        fs = set()
        for _ in range(rng.choice([0, 0, 1, 2])):
            fn, r = self.val() or 'f', rng.randrange(12)
            if (fn, r) not in fs:
                fs.add((fn, r))
                b = sub(e, 'Binary')
                sub(b, 'Key', fn)
                sub(b, 'Value', Ref=str(r))
        return e

    def collect(self, el, par, hist):
        if el.tag == 'Binary':
            self.E.append(self.rec('att', par, False, '', [('filename', el.find('Key').text), ('id', el.find('Value').get('Ref'))]))
            self.times[(par, el.find('Key').text, int(el.find('Value').get('Ref')))] = len(self.E)
            return
        uid = el.find('UUID').text
        if el.tag == 'Group':
            f = [('name' if t == 'Name' else 'notes', el.find(t).text) for t in ('Name', 'Notes') if el.find(t) is not None]
            self.E.append(self.rec('group', par, False, uid, f))
        else:
            st = [(s.find('Key').text, s.find('Value').text) for s in el.findall('String')]
            names = {'Title': 'title', 'UserName': 'username', 'Password': 'password', 'URL': 'url', 'Notes': 'notes', 'otp': 'otp'}
            f = [(names[k], v) for k, v in st if k in names]
            for t, n in (('AutoType/Enabled', 'autotype_enabled'), ('AutoType/DefaultSequence', 'autotype_sequence')):
                if el.find(t) is not None:
                    f.append((n, el.find(t).text))
            tg = el.find('Tags')
            self.E.append(self.rec('entry', par, hist, uid, f, st, [w.text for w in el.findall('AutoType/Association/Window')], tg))
        i = len(self.E)
        ct = el.find('Times/CreationTime').text
        self.times[ct] = i
        for c in el:
            if c.tag in ('Group', 'Entry', 'Binary'):
                self.collect(c, i, False)
            elif c.tag == 'History':
                for h in c.findall('Entry'):
                    self.collect(h, i, True)

    def rec(self, kind, par, hist, uid, fields, strings=(), windows=(), tags=None):
        c = lambda t: codes(t or '')      # noqa: E731
        return {'kind': kind, 'par': par, 'hist': hist, 'uuid': uid, 'fields': [{'k': k, 'v': c(v)} for k, v in fields], 'strings': [{'k': self.key(k), 'v': c(v)} for k, v in strings],
                'windows': [c(w) for w in windows], 'hastags': tags is not None, 'tags': c(tags.text) if tags is not None else []}

    def key(self, k):
        return ''.join(c if c.isalnum() and ord(c) < 128 else '_%x_' % ord(c) for c in k)

    def at(self, obj):
        """Index of a returned object."""
        n = type(obj).__name__
        if n == 'Attachment':
            return self.times.get((self.at(obj.entry), obj.filename, obj.id), 0)
        d = obj.ctime - datetime(1, 1, 1, tzinfo=timezone.utc)
        i = self.times.get(P.enc_time([d.days, d.seconds, 0], self.maj), 0)
        return i if i and self.E[i - 1]['kind'] == ('group' if n == 'Group' else 'entry') else 0


DEPRECATED = {('entry', 'title'), ('entry', 'username'), ('entry', 'password'), ('entry', 'url'), ('entry', 'notes'), ('entry', 'uuid'), ('entry', 'string'), ('group', 'name'), ('group', 'uuid'), ('group', 'notes')}


def query(db, form, rng):
    """Fills a query form with values; returns (q for the specification, what, thunk)."""
    kp, E = db.kp, db.E
    kind = form['kind']
    ic = form['ic']
    q = {'kind': kind, 'rx': form['rx'], 'ic': ic, 'first': form.get('first', False), 'hist': form.get('hist', False), 'rec': form.get('rec', True), 'scope': 0, 'crit': [], 'bypath': 'len' in form, 'path': []}
    kw = {}

    els = [e for e in E if e['kind'] == kind and (form.get('hist') or not e['hist'])]
    wit = rng.choice(els) if els and rng.random() < .75 else None

    def value(f=None, k=None):
        t, t2 = rng.choice(db.pool), rng.choice(db.pool)
        if wit is not None and rng.random() < .9:
            # what some element has
            vs = [x['v'] for x in wit['fields'] if x['k'] == f] if f else [x['v'] for x in wit['strings'] if x['k'] == k]
            if f == 'autotype_window':
                vs = wit['windows']
            if vs:
                t = ''.join(map(chr, rng.choice(vs)))
        if not q['rx']:
            t = t or rng.choice(POOL)
            return {'t': codes(t)}, t
        x = rx(rng, t, t2)
        s = render(x)
        re.compile(s)
        return {'x': x}, s
    if form['rx']:
        kw['regex'] = True
    elif rng.random() < .1:
        kw['regex'] = False
    if ic:
        kw['flags'] = 'i'
    elif rng.random() < .1:
        kw['flags'] = None
    if q['bypath']:
        path = []
        # mostly along an existing path
        cand = [i for i, e in enumerate(E) if e['kind'] == kind and not e['hist']]
        names = []
        if cand and rng.random() < .8:
            i = rng.choice(cand)
            up = []
            while i >= 0:
                e = E[i]
                nm = next((''.join(map(chr, f['v'])) for f in e['fields'] if f['k'] == ('name' if e['kind'] == 'group' else 'title')), '')
                up.append(nm)
                i = e['par'] - 1
            names = up[::-1][1:]
        least = max(form['len'], int(kind == 'entry'))      # an entry's path ends in its title
        while len(names) < least:
            names.append(rng.choice(db.pool))
        if rng.random() < .5:
            names = names[:least]
        for t in names:
            if q['rx']:
                x = rx(rng, t, rng.choice(db.pool))
                s = render(x)
                if not s:
                    x, s = N('rep', lo=0, hi=-1, a=[N('any')]), '(?:.)*'
                q['path'].append({'x': x})
                path.append(s)
            else:
                t = t or 'nothing'
                q['path'].append({'t': codes(t)})
                path.append(t)
        kw['path'] = path if path or kind == 'entry' or rng.random() < .5 else ''
        if rng.random() < .3:
            kw['first'] = rng.random() < .5
        if rng.random() < .3 and kind != 'att':
            gs = kp.groups
            kw['group'] = rng.choice(gs)        # a path starts at the root all the same
        f = {'entry': kp.find_entries, 'group': kp.find_groups}[kind]
        if rng.random() < .2:
            f = {'entry': kp.find_entries_by_path, 'group': kp.find_groups_by_path}[kind]
            args = (kw.pop('path'),)
            return q, 'path', 'path', lambda: f(*args, **kw), repr((args, kw))
        return q, 'path', 'path', lambda: f(**kw), repr(kw)
    crit = sorted(form['crit'])
    for f in crit:
        c = {'f': f}
        if f == 'uuid':
            u = rng.choice([e['uuid'] for e in E if e['kind'] in ('entry', 'group')]) if rng.random() < .9 else b64(rng.randbytes(16))
            if wit is not None and wit['uuid'] and rng.random() < .8:
                u = wit['uuid']
            c['v'] = {'u': u}
            kw['uuid'] = _uuid.UUID(bytes=K.base64.b64decode(u))
        elif f == 'string':
            d = {}
            for k in rng.sample(KEYS, rng.choice([1, 1, 2])):
                v, s = value(k=db.key(k))
                d[k] = s
                q['crit'].append({'f': 'string', 'key': db.key(k), 'v': v})
            kw['string'] = d
            continue
        elif f == 'tags':
            ts = rng.sample(TAGS, rng.choice([1, 1, 2]))
            c['many'] = [codes(t) for t in ts]
            kw['tags'] = ts
        elif f == 'autotype_enabled':
            b = rng.random() < .5
            c['v'] = {'x': N('cat', a=chars(str(b)))} if q['rx'] else {'t': codes(str(b))}
            kw[f] = b
        elif f == 'id':
            n = rng.randrange(14)
            if wit is not None and rng.random() < .8:
                n = int(''.join(map(chr, next(x['v'] for x in wit['fields'] if x['k'] == 'id'))))
            c['v'] = {'x': N('cat', a=chars(str(n)))} if q['rx'] else {'t': codes(str(n))}
            kw[f] = n
        else:
            c['v'], kw[f] = value(f)
        q['crit'].append(c)
    # a criterion of None is none
    allf = {'entry': ['title', 'username', 'password', 'url', 'notes', 'uuid', 'tags', 'string', 'autotype_sequence', 'autotype_window', 'autotype_enabled', 'otp'], 'group': ['name', 'uuid', 'notes'], 'att': ['id', 'filename']}[kind]
    for f in allf:
        if f not in kw and rng.random() < .05:
            kw[f] = None
    items = list(kw.items())
    rng.shuffle(items)
    kw = dict(items)
    if form['first'] or rng.random() < .1:
        kw['first'] = form['first']
    if form['hist'] or rng.random() < .1:
        kw['history'] = form['hist']
    if not form['rec'] or rng.random() < .1:
        kw['recursive'] = form['rec']
    if form['scope'] != 'all':
        want = ('group',) if kind != 'att' else (('entry',) if form['scope'] == 'leaf' else ('group',))
        idx = [i + 1 for i, e in enumerate(E) if e['kind'] in want and not e['hist']]
        if form['scope'] == 'leaf' and kind != 'att':
            idx = idx[1:] or idx
        if kind == 'att' and want == ('entry',):
            # mostly those with attachments
            w = [i for i in idx if any(e['kind'] == 'att' and e['par'] == i for e in E)]
            idx = w or idx
        if not idx:
            return None
        i = rng.choice(idx)
        q['scope'] = i
        objs = {db.at(o): o for o in (kp.groups if 'group' in want else kp.entries)}
        if i not in objs:
            raise RuntimeError('the session does not list element %d: %r' % (i, objs))
        kw['group' if kind != 'att' else 'element'] = objs[i]
    elif rng.random() < .1:
        kw['group' if kind != 'att' else 'element'] = None
    if len(crit) == 1 and (kind, crit[0]) in DEPRECATED and form['rec'] and rng.random() < .25 and all(f not in kw for f in allf if f != crit[0]):
        k2 = dict(kw)
        k2.pop('recursive', None)
        args = (k2.pop(crit[0]),)
        if (kind, crit[0]) == ('group', 'name'):
            k2.pop('history', None)
        f = getattr(kp, 'find_%s_by_%s' % ('entries' if kind == 'entry' else 'groups', crit[0]))
        return q, 'deprecated ' + kind, crit[0], lambda: f(*args, **k2), repr((args, k2))
    f = {'entry': kp.find_entries, 'group': kp.find_groups, 'att': kp.find_attachments}[kind]
    return q, 'find ' + kind, '+'.join(crit), lambda: f(**kw), repr(kw)


def plain_queries(db):
    """Listings without a search."""
    kp = db.kp
    base = {'rx': False, 'ic': False, 'first': False, 'hist': False, 'rec': True, 'scope': 0, 'crit': [], 'bypath': False, 'path': []}
    yield dict(base, kind='entry'), 'entries', lambda: kp.entries
    yield dict(base, kind='group'), 'groups', lambda: kp.groups
    yield dict(base, kind='att'), 'attachments', lambda: kp.attachments
    for g in kp.groups:
        i = db.at(g)
        yield dict(base, kind='entry', scope=i, rec=False), 'group.entries', lambda g=g: g.entries
        yield dict(base, kind='group', scope=i, rec=False), 'group.subgroups', lambda g=g: g.subgroups
    for e in kp.find_entries(history=True):
        i = db.at(e)
        yield dict(base, kind='att', scope=i, rec=False, hist=True), 'entry.attachments', lambda e=e: e.attachments
        if not e.is_a_history_entry:
            yield dict(base, kind='entry', scope=i, rec=False, hist=True), 'entry.history', lambda e=e: e.history


def job(a):
    forms, seed = a
    rng = random.Random(seed)
    db = Db(rng)
    qs, log = [], []
    evs = []

    def put(q, what, crit, fn, text):
        try:
            r = fn()
            if isinstance(r, list):
                res = {'single': False, 'ids': [db.at(o) for o in r]}
            else:
                res = {'single': True, 'ids': [] if r is None else [db.at(r)]}
        except Exception as e:
            res = {'single': True, 'ids': [-1]}
            text += ' raised %r' % (e,)
        qs.append({'q': q, 'what': what, 'crit': crit, 'res': res})
        log.append(text)
    for q, what, fn in plain_queries(db):
        put(q, what, '', fn, what)
    for i, f in enumerate(forms):
        if i and i % 10 == 0:
            # the database changes between the searches
            evs.append({'k': 'search', 'db': db.E, 'qs': qs[:], '_': {'seed': seed, 'calls': log[:]}})
            qs.clear()
            log.clear()
            for _ in range(rng.randint(1, 3)):
                db.edit()
            db.recollect()
        x = query(db, f, rng)
        if x:
            put(*x)
    for q, what, fn in plain_queries(db):
        put(q, what, '', fn, what)
    return evs + [{'k': 'search', 'db': db.E, 'qs': qs, '_': {'seed': seed, 'calls': log}}]


def explain(f):
    """what a failing event is about"""
    e = f['e']
    i = f['i'] - 1
    return {'call': e['_']['calls'][i], 'got': e['qs'][i]['res'], 'want': f['want'], 'query': e['qs'][i]['q'], 'db': e['db']}


def searches(check, rounds, ne):
    rc, out = tlc.run('SearchMC', cfg='SPECIFICATION Spec\nCONSTANTS EMIT=TRUE NE=%d\nINVARIANT Laws\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n' % ne, workers=8, heap='6g')
    if rc != 0:
        raise tlc.TLCError('SearchMC: ' + '\n'.join(x for x in out.splitlines() if not x.startswith('"Q'))[-2500:])
    g, d = tlc.stats(out)
    check.add('states', d)
    check.add('transitions', g)
    qf, qp = tlc.printed(out, 'QF '), tlc.printed(out, 'QP ')
    check.cov['query_forms'] = len(qf) + len(qp)
    rng = random.Random(vf.SEED)
    jobs = []
    for r in range(rounds):
        fs = qf + qp * 30 + [f for f in qf if len(f['crit']) < 2 or f['kind'] != 'entry'] * 3
        rng.shuffle(fs)
        jobs += [(fs[i:i + 40], vf.SEED * 60013 + r * 1009 + i) for i in range(0, len(fs), 40)]
    check.cov['searches'] = sum(len(j[0]) for j in jobs)
    judge.run(check, 'search', job, jobs, 'SearchTrace', shards=vf.NPROC * (1 + rounds // 4), explain=explain)

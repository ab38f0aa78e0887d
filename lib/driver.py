"""Drives a real PyKeePass session through public calls and records a trace for
spec/KPTrace.tla: call, arguments, outcome, projected database (as delta) and
what the getters report."""
import datetime
import io
import os
import random
import tempfile
import time
import uuid
from pathlib import Path

from pykeepass import PyKeePass
from pykeepass.entry import Entry
from pykeepass.group import Group

import dbgen
import kdbxlib as K
import project as P

UTC = datetime.timezone.utc
STD = {'Title': 'title', 'UserName': 'username', 'Password': 'password', 'URL': 'url', 'Notes': 'notes', 'otp': 'otp'}
TATTR = {'c': 'ctime', 'm': 'mtime', 'a': 'atime', 'x': 'expiry_time'}


def now_t(delta=0):
    return P.dt_time(datetime.datetime.now(UTC) + datetime.timedelta(seconds=delta))[:3]


def delta(a, b):
    d = {'g': {k: v for k, v in b['g'].items() if a['g'].get(k) != v},
         'e': {k: v for k, v in b['e'].items() if a['e'].get(k) != v},
         'gd': [k for k in a['g'] if k not in b['g']], 'ed': [k for k in a['e'] if k not in b['e']],
         'dups': b['dups'], 'bp': b['bp']}
    if any(a[k] != b[k] for k in ('root', 'bins', 'rb', 'm', 'v')):
        d['rest'] = {k: b[k] for k in ('root', 'bins', 'rb', 'm', 'v')}
    return d


class Recorder:
    def __init__(self, kp, ctx=None, ids=None, bp=None):
        self.kp = kp
        self.c = ctx or P.Ctx()
        self.ids = ids or P.Ids(self.c)
        self.events = []
        self.pyfails = []       # failures seen by the recorder itself (getter raised, projection impossible)
        self.script = []        # human readable
        self.h = {}
        self.s = self.proj()
        self.rehandle()
        self.events.append({'op': 'init', 'post': dict(self.s, bp={'k': bp is not None, 's': bp or []})})
        self.dead = False
        self.alt = None         # if set, calls are made on objects obtained anew, and the old ones are looked at
        self.held = {}          # entry id -> (objects of its snapshots, objects of its attachments) obtained earlier

    # ---- state
    def proj(self):
        return P.project_kp(self.kp, self.c, self.ids)

    def rehandle(self):
        """fresh handles for every element, straight from the tree"""
        self.h = self._fresh()
        self.held = {}

    def handle(self, k):
        if self.alt is not None and self.alt.random() < .5:
            u = self.ids.u.get(k)
            if self.alt.random() < .4 and list(self.ids.u.values()).count(u) == 1:
                x = self.old(k)
                return self.kp.find_entries(uuid=x.uuid, first=True) if isinstance(x, Entry) else self.kp.find_groups(uuid=x.uuid, first=True)
            return self._fresh()[k]
        return self.old(k)

    def old(self, k):
        if k not in self.h:
            self.h = dict(self._fresh(), **self.h)
        return self.h[k]

    def _fresh(self):
        return {i: (Entry if el.tag == 'Entry' else Group)(element=el, kp=self.kp)
                for el, i in self.ids.update(self.kp.tree.getroot()).items()}

    def adopt(self, obj):
        """the element that a call created and returned"""
        u = self.idof(obj)
        before = set(self.ids.m)
        for el, i in self.ids.update(self.kp.tree.getroot()).items():
            if el not in before and self.ids.u[i] == u:
                self.h[i] = obj
                return {'new': i, 'u': u}
        for i, t in self.ids.u.items():         # nothing new: it can only be one that was there before
            if t == u:
                return {'new': i, 'u': u}
        return {'new': u, 'u': u}

    def appeared(self):
        """a group that the last call created, without returning it"""
        before = set(self.ids.m)
        for el, i in self.ids.update(self.kp.tree.getroot()).items():
            if el not in before and el.tag == 'Group':
                self.h[i] = Group(element=el, kp=self.kp)
                return i
        return None

    def idof(self, obj):
        """token of the UUID an object shows"""
        return self.c.uid(obj.uuid.bytes)

    def fail(self, cat, x, k):
        self.pyfails.append({'l': len(self.events) + 1, 'op': self.cur, 'res': 'ok', 'f': {'c': cat, 'x': str(x), 'k': str(k)}})

    # ---- views
    def get(self, fn, x, k, default):
        try:
            return fn()
        except Exception as e:
            self.fail('view', x, '%s raised %s' % (k, type(e).__name__))
            return None

    def tm(self, dt):
        return [] if dt is None else P.dt_time(dt)

    def atts(self, h):
        out = []
        for a in h.attachments:
            try:
                d = [self.c.s(bytes(a.data))]
            except Exception:
                d = []
            out.append({'n': self.c.s(a.filename), 'r': a.id, 'd': d})
        return out

    def view_e(self, k, h=None):
        c = self.c
        h = self.old(k) if h is None else h
        parts = {
            'f': lambda: {K_: c.s(getattr(h, at)) for K_, at in STD.items()},
            'c': lambda: {c.s(x): c.s(v) for x, v in h.custom_properties.items()},
            'p': lambda: {c.s(x): bool(h.is_custom_property_protected(x)) for x in h.custom_properties},
            'tags': lambda: [c.s(t) for t in h.tags],
            'icon': lambda: c.s(h.icon),
            'ae': lambda: '' if h.autotype_enabled is None else str(h.autotype_enabled),
            'as': lambda: c.s(h.autotype_sequence),
            'aw': lambda: c.s(h.autotype_window),
            't': lambda: dict({a: self.tm(getattr(h, at)) for a, at in TATTR.items()},
                              e='' if h.expires is None else str(h.expires)),
            'att': lambda: self.atts(h),
            'ish': lambda: bool(h.is_a_history_entry),
            'hist': lambda: [self.view_h(x) for x in h.history],
            'par': lambda: self.idof(h.group),
            'idx': lambda: h.index,
            'path': lambda: [c.s(p) for p in h.path],
        }
        v = {}
        for kk, fn in parts.items():
            r = self.get(fn, k, kk, None)
            if r is not None:
                v[kk] = r
        # custom getters one by one agree with the dictionary
        def one():
            for x, val in h.custom_properties.items():
                assert h.get_custom_property(x) == val
            return 1
        self.get(one, k, 'get_custom_property', None)
        return {'k': 'e', 'id': k, 'v': v}

    def view_h(self, x):
        c = self.c
        return {'id': self.idof(x), 'f': {K_: c.s(getattr(x, at)) for K_, at in STD.items()},
                'c': {c.s(a): c.s(v) for a, v in x.custom_properties.items()},
                'tags': [c.s(t) for t in x.tags], 'icon': c.s(x.icon),
                't': dict({a: self.tm(getattr(x, at)) for a, at in TATTR.items()},
                          e='' if x.expires is None else str(x.expires)),
                'att': self.atts(x), 'ish': bool(x.is_a_history_entry)}

    def view_g(self, k, h=None):
        c = self.c
        h = self.old(k) if h is None else h
        parts = {
            'name': lambda: c.s(h.name), 'notes': lambda: c.s(h.notes), 'icon': lambda: c.s(h.icon),
            't': lambda: dict({a: self.tm(getattr(h, at)) for a, at in TATTR.items()},
                              e='' if h.expires is None else str(h.expires)),
            'ents': lambda: [self.idof(x) for x in h.entries], 'subs': lambda: [self.idof(x) for x in h.subgroups],
            'par': lambda: '' if h.parentgroup is None else self.idof(h.parentgroup),
            'isroot': lambda: bool(h.is_root_group),
            'path': lambda: [c.s(p) for p in h.path],
        }
        v = {}
        for kk, fn in parts.items():
            r = self.get(fn, k, kk, None)
            if r is not None:
                v[kk] = r
        return {'k': 'g', 'id': k, 'v': v}

    def view_db(self):
        c, kp = self.c, self.kp
        parts = {
            'groups': lambda: [self.idof(x) for x in kp.groups],
            'entries': lambda: [self.idof(x) for x in kp.entries],
            'bins': lambda: [c.s(bytes(b)) for b in kp.binaries],
            'rb': lambda: '' if kp.recyclebin_group is None else self.idof(kp.recyclebin_group),
            'root': lambda: self.idof(kp.root_group),
            'name': lambda: c.s(kp.database_name), 'desc': lambda: c.s(kp.database_description),
            'user': lambda: c.s(kp.default_username),
            'atts': lambda: [{'n': c.s(a.filename), 'r': a.id} for a in kp.find_attachments()],
        }
        v = {}
        for kk, fn in parts.items():
            r = self.get(fn, 'db', kk, None)
            if r is not None:
                v[kk] = r
        return {'k': 'db', 'id': '', 'v': v}

    # ---- performing one call
    def do(self, op, a, thunk, bad='', desc='', views=(), dbview=False, post=None, obs=None):
        """thunk() -> dict of additional arguments learnt from the result (e.g. new ids), or None"""
        if self.dead:
            return None
        self.cur = op
        self.script.append(desc or '%s %r' % (op, a))
        t0 = now_t(-1)
        res, exc, extra, ret = 'ok', '', None, 0
        try:
            extra = thunk()
        except Exception as e:
            res, exc = 'err', type(e).__name__
        t1 = now_t(+1)
        a = dict(a)
        if isinstance(extra, dict):
            ret = extra.pop('ret', 0)
            a.update(extra)
        try:
            s = post() if post else self.proj()
        except Exception as e:
            self.fail('fatal', type(e).__name__, str(e)[:80])
            self.dead = True
            return None
        ev = {'op': op, 'a': a, 'bad': bad, 'res': res, 'exc': exc, 't0': t0, 't1': t1, 'ret': ret,
              'd': delta(self.s, s), 'obs': []}
        for k in list(self.held):       # what was deleted is not held any longer
            was, now = self.s['e'].get(k), s['e'].get(k)
            if was is None or now is None or len(now['hist']) < len(was['hist']) or len(now['att']) < len(was['att']):
                del self.held[k]
        self.s = s
        vs = [k for k in dict.fromkeys(views) if k in s['e'] or k in s['g']]
        try:
            if not s['dups']:
                for k in vs:
                    ev['obs'].append(self.view_e(k) if k in s['e'] else self.view_g(k))
                if dbview:
                    ev['obs'].append(self.view_db())
                if obs:
                    ev['obs'] += obs()
        except Exception as e:
            self.fail('fatal', type(e).__name__, 'view: ' + str(e)[:80])
        self.events.append(ev)
        return res == 'ok'


def rand_dt(rng, v):
    day, sec, _ = dbgen.rand_time(rng, v)
    off = rng.choice([0, 0, 60, -60, 330, 345, -570, 840, -720, 839, 1, -1])
    us = rng.choice([0, 0, 1, 500000, 999000])
    day = min(max(day, 2), 3652050)
    tz = datetime.timezone(datetime.timedelta(minutes=off))
    base = datetime.datetime(1, 1, 1, tzinfo=UTC) + datetime.timedelta(days=day, seconds=sec, microseconds=us)
    return base.astimezone(tz)


class Walker:
    """Random histories.  profile: {op name: weight}"""

    def __init__(self, rng, rec, profile, nerr=0.08):
        self.rng, self.r, self.profile, self.nerr = rng, rec, profile, nerr
        self.names = list(profile)
        self.w = [profile[n] for n in self.names]
        self.cnt = 0
        self.focus = set()
        self.maxe, self.maxg, self.maxb = len(rec.s['e']) + 10, len(rec.s['g']) + 9, len(rec.s['bins']) + 5

    # -- choices
    def ents(self):
        return sorted(self.r.s['e'])

    def grps(self):
        return sorted(self.r.s['g'])

    def pe(self):
        e = self.ents()
        if self.focus and self.rng.random() < .6:       # the same few again and again
            e = [x for x in e if x in self.focus] or e
        return self.rng.choice(e) if e else None

    def pg(self):
        g = self.grps()
        if self.focus and self.rng.random() < .5:
            g = [x for x in g if x in self.focus] or g
        return self.rng.choice(g)

    def badval(self):
        rng = self.rng
        if rng.random() < .7:
            return 'bad', rng.choice(dbgen.UNCARRIABLE)
        return 'odd', rng.choice([None, 5, b'by\xfftes', b'abc', object(), 1.5, ['x', 3]])

    def text(self):
        if self.rng.random() < .22:      # a text that is in use somewhere else in the database
            ts = sorted({e.text for e in self.r.kp.tree.getroot().iter('Name', 'Value', 'Notes', 'Key') if e.text and len(e.text) < 60})
            if ts:
                return self.rng.choice(ts)
        return dbgen.text(self.rng)

    def burst(self, kinds):
        """a long run of one kind of call"""
        rng, r = self.rng, self.r
        kind = rng.choice(kinds)
        n = rng.randint(11, 16)
        k = self.pe()
        if kind == 'hist' and k:
            for i in range(n):
                if r.dead:
                    return
                self.do('save_hist', {'x': k}, lambda: r.handle(k).save_history(), desc='%s.save_history()' % k, views=[k] if i >= n - 2 else [])
                if rng.random() < .4 and not r.dead:
                    v = 'v%d' % i
                    self.do('set_f', {'x': k, 'k': 'Notes', 'v': r.c.s(v)}, lambda: setattr(r.handle(k), 'notes', v), desc='%s.notes = %r' % (k, v))
        elif kind == 'bins':
            for i in range(n):
                if r.dead:
                    return
                d = rng.choice([b'dup', b'b%d' % i, b'b%d' % i])
                self.do('add_bin', {'v': r.c.s(d), 'p': True}, lambda: {'ret': r.kp.add_binary(d)}, desc='add_binary(%r)' % d)
            for i in range(n):
                x = self.pe()
                if r.dead or not x:
                    return
                j = rng.randrange(len(r.s['bins']))
                self.do('add_att', {'x': x, 'i': j, 'n': r.c.s('f%d' % j)}, lambda: r.handle(x).add_attachment(j, 'f%d' % j) and None,
                        desc='%s.add_attachment(%d)' % (x, j), views=[x] if i >= n - 3 else [])
            for _ in range(4):
                if not r.dead:
                    self.op_del_bin()
        elif kind == 'sibs':
            g = self.pg()
            for i in range(n):
                if r.dead:
                    return
                self._plain_entry(g, 's%d' % i)
            for _ in range(4):
                es = [x for x in r.s['g'].get(g, {'kids': []})['kids'] if x in r.s['e']]
                if es and not r.dead:
                    x, i = rng.choice(es), rng.randint(0, len(es) + 1)
                    self.do('reindex', {'x': x, 'i': i}, lambda: r.handle(x).reindex(i), desc='%s.reindex(%d)' % (x, i), views=rng.sample(es, min(3, len(es))) + [g])
        elif kind == 'deep':
            d = self.pg()
            for i in range(n):
                if r.dead:
                    return
                nm = rng.choice(['d', 'd%d' % i])

                def go():
                    g = r.kp.add_group(r.handle(d), nm)
                    return r.adopt(g)
                self.do('add_group', {'d': d, 'name': r.c.s(nm), 'notes': '', 'icon': '', 'new': '', 'u': ''}, go, desc='add_group(%s,%r)' % (d, nm), views=[])
                d = r.events[-1]['a'].get('new') or d
            if not r.dead:
                self._plain_entry(d, 'deepest')
                self.do('noop', {}, lambda: None, views=[d], desc='observe deepest group')
        elif kind == 'props' and k:
            for i in range(n):
                if r.dead:
                    return
                key, v, pr = 'p%d' % i, self.text(), rng.random() < .5
                self.do('set_c', {'x': k, 'k': r.c.s(key), 'v': r.c.s(v), 'p': pr}, lambda: r.handle(k).set_custom_property(key, v, protect=pr),
                        desc='%s.set_custom_property(%r,%r,protect=%r)' % (k, key, v, pr), views=[k] if i >= n - 2 else [])

    def _plain_entry(self, g, t):
        r = self.r

        def go():
            e = r.kp.add_entry(r.handle(g), t, 'u', 'p', force_creation=True)
            return r.adopt(e)
        self.do('add_entry', {'d': g, 'title': r.c.s(t), 'username': r.c.s('u'), 'password': r.c.s('p'), 'url': '', 'notes': '', 'otp': '', 'tags': [], 'icon': '',
                              'exp': [], 'force': True, 'tnone': False, 'unone': False, 'new': '', 'u': ''}, go, desc='add_entry(%s,%r)' % (g, t))

    def step(self):
        r, rng = self.r, self.rng
        op = rng.choices(self.names, self.w)[0]
        m = getattr(self, 'op_' + op)
        return m()

    def run(self, n):
        for _ in range(n):
            if self.r.dead:
                break
            self.step()
            if self.r.s['dups']:
                break
            self.cnt += 1
        self.final()

    def final(self):
        r = self.r
        if not r.dead and not r.s['dups']:
            ids = sorted(r.s['e']) + sorted(r.s['g'])
            r.do('noop', {}, lambda: None, desc='observe everything', views=ids, dbview=True)

    def do(self, op, a, thunk, views=(), **kw):
        vs = list(views)
        if self.rng.random() < .3:
            vs.append(self.rng.choice(self.ents() + self.grps()))
        if self.focus:
            vs += self.focus
        return self.r.do(op, a, thunk, views=vs, dbview=self.rng.random() < .15, **kw)

    # -- tree
    def op_add_group(self):
        r, rng, c = self.r, self.rng, self.r.c
        d = self.pg()
        if len(self.grps()) > self.maxg:
            return
        name = rng.choice(['g1', 'g2', 't1', self.text() or 'n'])
        notes = rng.choice([None, None, '', self.text()])
        icon = rng.choice([None, None, '3', '48'])
        bad = ''
        if rng.random() < self.nerr:
            bad, v = self.badval()
            w = rng.random()
            if w < .4:
                name = v
            elif w < .7:
                notes = v
                if not v:
                    bad = ''
            else:
                icon = v
                if not v:
                    bad = ''

        def go():
            g = r.kp.add_group(r.handle(d), name, icon=icon, notes=notes)
            return r.adopt(g)
        tok = lambda x: c.s(x) if isinstance(x, str) and not bad else ''
        self.do('add_group', {'d': d, 'name': tok(name), 'notes': tok(notes), 'icon': tok(icon), 'new': '', 'u': ''}, go, bad=bad,
                desc='add_group(%s, %r, icon=%r, notes=%r)' % (d, name, icon, notes), views=[d])

    def op_add_entry(self):
        r, rng, c = self.r, self.rng, self.r.c
        d = self.pg()
        if len(self.ents()) > self.maxe:
            return
        es = [k for k in r.s['g'][d]['kids'] if k in r.s['e']]
        title = rng.choice([None, 't1', 't2', 'g1', self.text(), self.text(), self.text()])
        user = rng.choice([None, 'u1', self.text(), ''])
        if es and rng.random() < .25:
            h = r.handle(rng.choice(es))
            title, user = h.title, rng.choice([h.username, None, 'other'])
        pw = rng.choice([None, '', self.text()])
        opt = {}
        for k in ('url', 'notes', 'otp'):
            if rng.random() < .4:
                opt[k] = rng.choice([None, '', self.text()])
        if rng.random() < .3:
            opt['icon'] = rng.choice(['1', '40'])
        if rng.random() < .4:
            opt['tags'] = rng.choice([None, [], ['x'], ['x', 'y z'], 'a;b', 'single', ['b', 'a', 'b'], ['x', '', 'x'], ['', ''], ','])
        exp = None
        if rng.random() < .3:
            exp = rand_dt(rng, r.s['v'])
            opt['expiry_time'] = exp
        force = rng.random() < .3
        if force:
            opt['force_creation'] = True
        bad = ''
        if rng.random() < self.nerr:
            bad, v = self.badval()
            if bad == 'odd' and not v:
                bad = ''
            else:
                w = rng.choice(['title', 'user', 'pw', 'url', 'notes', 'otp', 'icon', 'tags', 'expiry_time'])
                if w == 'expiry_time':
                    bad, v = 'odd', rng.choice([5, 'yesterday', object(), b'2020'])
                    exp = None
                elif w == 'tags':
                    v = rng.choice([v, ['ok', v]])
                if w == 'title':
                    title = v
                elif w == 'user':
                    user = v
                elif w == 'pw':
                    pw = v
                else:
                    opt[w] = v
        tags = [] if bad else opt.get('tags') or []
        tags = P.split_tags(';'.join(tags) if isinstance(tags, list) else tags)
        tok = lambda x: c.s(x) if isinstance(x, str) and not bad else ''
        a = {'d': d, 'title': tok(title), 'username': tok(user), 'password': tok(pw), 'url': tok(opt.get('url')),
             'notes': tok(opt.get('notes')), 'otp': tok(opt.get('otp')), 'tags': [c.s(t) for t in tags],
             'icon': tok(opt.get('icon')), 'exp': P.dt_time(exp) if exp else [], 'force': force,
             'tnone': title is None, 'unone': user is None, 'new': '', 'u': ''}

        def go():
            e = r.kp.add_entry(r.handle(d), title, user, pw, **opt)
            return r.adopt(e)
        self.do('add_entry', a, go, bad=bad, desc='add_entry(%s, %r, %r, %r, %r)' % (d, title, user, pw, opt), views=[d])
        new = r.events[-1]['a'].get('new')
        if new:
            self.do('noop', {}, lambda: None, views=[new], desc='observe new entry')

    def op_del_e(self):
        k = self.pe()
        if k:
            h = self.r.handle(k)
            if self.rng.random() < .5:
                self.do('del_e', {'x': k}, lambda: self.r.kp.delete_entry(h), desc='delete_entry(%s)' % k)
            else:
                self.do('del_e', {'x': k}, lambda: h.delete(), desc='%s.delete()' % k)

    def op_del_g(self):
        k = self.pg()
        if k != self.r.s['root']:
            h = self.r.handle(k)
            self.do('del_g', {'x': k}, lambda: self.r.kp.delete_group(h), desc='delete_group(%s)' % k)

    def op_move_e(self):
        k, d = self.pe(), self.pg()
        if k:
            self.do('move_e', {'x': k, 'd': d}, lambda: self.r.kp.move_entry(self.r.handle(k), self.r.handle(d)),
                    desc='move_entry(%s,%s)' % (k, d), views=[k, d])

    def op_move_g(self):
        k, d = self.pg(), self.pg()
        if k != self.r.s['root']:
            self.do('move_g', {'x': k, 'd': d}, lambda: self.r.kp.move_group(self.r.handle(k), self.r.handle(d)),
                    desc='move_group(%s,%s)' % (k, d), views=[k, d])

    def op_append(self):
        es = self.ents() + (self.grps() if self.rng.random() < .35 else [])
        if es:
            xs = self.rng.sample(es, min(len(es), self.rng.randint(0, 3)))
            d = self.pg()
            if xs and self.rng.random() < .12:
                # something in the list is no element
                other = self.rng.choice([None, 'x', 7, self.r.kp])
                at = self.rng.randint(0, len(xs))
                self.do('append', {'xs': xs, 'd': d},
                        lambda: self.r.handle(d).append([self.r.handle(x) for x in xs[:at]] + [other] + [self.r.handle(x) for x in xs[at:]]),
                        bad='bad', desc='%s.append([%s] and %r)' % (d, xs, other), views=xs + [d])
            elif len(xs) == 1 and self.rng.random() < .5:
                self.do('append', {'xs': xs, 'd': d}, lambda: self.r.handle(d).append(self.r.handle(xs[0])),
                        desc='%s.append(%s)' % (d, xs), views=xs + [d])
            else:
                self.do('append', {'xs': xs, 'd': d}, lambda: self.r.handle(d).append([self.r.handle(x) for x in xs]),
                        desc='%s.append([%s])' % (d, xs), views=xs + [d])

    def op_reindex(self):
        k = self.pe()
        if k:
            p = [g for g in self.r.s['g'] if k in self.r.s['g'][g]['kids']][0]
            n = len([x for x in self.r.s['g'][p]['kids'] if x in self.r.s['e']])
            i = self.rng.randint(0, n + 1)
            self.do('reindex', {'x': k, 'i': i}, lambda: self.r.handle(k).reindex(i), desc='%s.reindex(%d)' % (k, i),
                    views=[x for x in self.r.s['g'][p]['kids'] if x in self.r.s['e']][:4] + [p])

    def op_trash_e(self):
        k = self.pe()
        if k:
            self._trash('trash_e', k, lambda: self.r.kp.trash_entry(self.r.handle(k)))

    def op_trash_g(self):
        k = self.pg()
        if self.rng.random() < .15:
            k = self.rng.choice([self.r.s['root']] + [g for g, x in self.r.s['g'].items() if x['u'] == self.r.s['rb']])
        self._trash('trash_g', k, lambda: self.r.kp.trash_group(self.r.handle(k)))

    def _trash(self, op, k, fn):
        r = self.r

        def go():
            fn()
            g = r.appeared()
            return {'new': g, 'u': r.ids.u[g], 'binname': r.c.s(r.h[g].name)} if g else {}
        self.do(op, {'x': k, 'new': '', 'u': '', 'binname': ''}, go, desc='%s(%s)' % (op, k), views=[k])

    def op_empty_g(self):
        k = self.pg()
        if k == self.r.s['root'] and self.rng.random() < .8:
            return
        self.do('empty_g', {'x': k}, lambda: self.r.kp.empty_group(self.r.handle(k)), desc='empty_group(%s)' % k, views=[k])

    # -- fields
    def op_set_f(self):
        k = self.pe()
        if not k:
            return
        f = self.rng.choice(list(STD))
        v, bad = self.text(), ''
        if self.rng.random() < self.nerr:
            bad, v = self.badval()
        h = self.r.handle(k)
        self.do('set_f', {'x': k, 'k': f, 'v': self.r.c.s(v) if not bad else ''}, lambda: setattr(h, STD[f], v), bad=bad,
                desc='%s.%s = %r' % (k, STD[f], v), views=[k])

    CKEYS = ['k1', 'k2', "it's", 'say "k"', 'a b', '<k>', 'title', 'é', 'Key', '{0}', 'password', '"', "'", '"\'', 'x]', 'Username', 'OTP', 'k', 'k10', 'a', 'K1', 'k1 ', 'Titles']

    def op_set_c(self):
        k = self.pe()
        if not k:
            return
        key = self.rng.choice(self.CKEYS if self.rng.random() < .6 else ['k', 'k1', 'k10', 'K1', 'k1 '])
        v, bad = self.text(), ''
        p = self.rng.choice([True, False, False])
        if self.rng.random() < self.nerr:
            r = self.rng.random()
            if r < .4:
                key = self.rng.choice(list(STD) + ['Tags', 'IconID', 'Times', 'History'])
                bad = 'bad'
            elif r < .6:
                bad, key = 'bad', self.rng.choice(dbgen.UNCARRIABLE)
            else:
                bad, v = self.badval()
        h = self.r.handle(k)
        dflt = not p and self.rng.random() < .5
        self.do('set_c', {'x': k, 'k': self.r.c.s(key), 'v': self.r.c.s(v) if not bad else '', 'p': p},
                lambda: h.set_custom_property(key, v) if dflt else h.set_custom_property(key, v, protect=p), bad=bad,
                desc='%s.set_custom_property(%r,%r,protect=%s)' % (k, key, v, p), views=[k])

    def op_del_c(self):
        k = self.pe()
        if not k:
            return
        h = self.r.handle(k)
        have = [x for x in self.CKEYS if self.r.c.s(x) in self.r.s['e'][k]['f']]
        key = self.rng.choice(have) if have and self.rng.random() < .8 else self.rng.choice(self.CKEYS)
        bad = ''
        if self.rng.random() < self.nerr:
            key, bad = self.rng.choice(list(STD)), 'bad'
        self.do('del_c', {'x': k, 'k': self.r.c.s(key)}, lambda: h.delete_custom_property(key), bad=bad,
                desc='%s.delete_custom_property(%r)' % (k, key), views=[k])

    def op_set_tags(self):
        k = self.pe()
        if not k:
            return
        v = self.rng.choice([[], ['a'], ['a', 'b'], ['tag one', 'é', "q'"], 'x', 'x;y', 'p,q', ['m', 'n', 'o'], '', ['a', 'b', 'a'], ['x', 'x'],
                             ['z', 'a', 'M', 'm'], ['x', '', 'y'], ['x', ''], ['', ''], ';', ',', 'b;a;b', 'q,p;q', [' pad', 'pad '], ['a', 'A']])
        bad = ''
        if self.rng.random() < self.nerr:
            bad, b = self.badval()
            v = self.rng.choice([b, [b], ['ok', b]])
            if v == [] or v == '':
                bad = ''
        h = self.r.handle(k)
        toks = [] if bad else [self.r.c.s(t) for t in P.split_tags(';'.join(v) if isinstance(v, list) else v)]
        self.do('set_tags', {'x': k, 'v': toks}, lambda: setattr(h, 'tags', v), bad=bad, desc='%s.tags = %r' % (k, v), views=[k])

    def op_set_icon(self):
        k = self.pe() if self.rng.random() < .6 else self.pg()
        if not k:
            return
        v, bad = self.rng.choice(['0', '1', '13', '68', '']), ''
        if self.rng.random() < self.nerr:
            bad, v = self.badval()
        h = self.r.handle(k)
        self.do('set_icon', {'x': k, 'v': self.r.c.s(v) if not bad else ''}, lambda: setattr(h, 'icon', v), bad=bad,
                desc='%s.icon = %r' % (k, v), views=[k])

    def op_autotype(self):
        k = self.pe()
        if not k:
            return
        h = self.r.handle(k)
        w = self.rng.choice(['ae', 'as', 'aw'])
        bad = ''
        if w == 'ae':
            v = self.rng.choice([True, False, None])
            tok = '' if v is None else str(v)
        else:
            v = self.rng.choice([None, '', self.text(), '{TAB}'])
            tok = self.r.c.s(v)
            if self.rng.random() < self.nerr:
                bad, v, tok = 'bad', self.rng.choice(dbgen.UNCARRIABLE), ''
        attr = {'ae': 'autotype_enabled', 'as': 'autotype_sequence', 'aw': 'autotype_window'}[w]
        self.do('set_' + w, {'x': k, 'v': tok}, lambda: setattr(h, attr, v), bad=bad, desc='%s.%s = %r' % (k, attr, v), views=[k])

    def op_g_field(self):
        k = self.pg()
        w = self.rng.choice(['name', 'notes'])
        v, bad = self.text(), ''
        if self.rng.random() < self.nerr:
            bad, v = self.badval()
        h = self.r.handle(k)
        self.do('g_' + w, {'x': k, 'v': self.r.c.s(v) if not bad else ''}, lambda: setattr(h, w, v), bad=bad,
                desc='%s.%s = %r' % (k, w, v), views=[k])

    def op_meta(self):
        r = self.r
        w = self.rng.choice(['name', 'desc', 'user', 'force', 'rec'])
        attr = {'name': 'database_name', 'desc': 'database_description', 'user': 'default_username',
                'force': 'credchange_required_days', 'rec': 'credchange_recommended_days'}[w]
        bad = ''
        if w in ('force', 'rec'):
            v = self.rng.choice([-1, 0, 5, 182, 100000])
            tok = str(v)
        else:
            v = self.text()
            tok = r.c.s(v)
            if self.rng.random() < self.nerr:
                bad, v, tok = 'bad', self.rng.choice(dbgen.UNCARRIABLE), ''
        self.do('meta', {'k': w, 'v': tok}, lambda: setattr(r.kp, attr, v), bad=bad, desc='kp.%s = %r' % (attr, v))

    # -- times
    def op_set_t(self):
        k = self.pe() if self.rng.random() < .6 else self.pg()
        if not k:
            return
        h = self.r.handle(k)
        w = self.rng.choice(list(TATTR))
        dt = rand_dt(self.rng, self.r.s['v'])
        bad = ''
        v = dt
        if self.rng.random() < self.nerr:
            v, bad = self.rng.choice([None, 5, 'yesterday']), 'odd'
        self.do('set_t', {'x': k, 'k': w, 'v': P.dt_time(dt)}, lambda: setattr(h, TATTR[w], v), bad=bad,
                desc='%s.%s = %s' % (k, TATTR[w], v), views=[k])

    def op_set_exp(self):
        k = self.pe() if self.rng.random() < .6 else self.pg()
        if not k:
            return
        h = self.r.handle(k)
        v = self.rng.choice([True, False])
        self.do('set_exp', {'x': k, 'v': str(v)}, lambda: setattr(h, 'expires', v), desc='%s.expires = %s' % (k, v), views=[k])

    def op_touch(self):
        k = self.pe() if self.rng.random() < .6 else self.pg()
        if not k:
            return
        h = self.r.handle(k)
        v = self.rng.choice([True, False])
        dflt = not v and self.rng.random() < .5
        self.do('touch', {'x': k, 'mod': v}, lambda: h.touch() if dflt else h.touch(modify=v), desc='%s.touch(modify=%s)' % (k, v), views=[k])

    def op_cred(self):
        r = self.r
        v = self.rng.choice(['', 'pw', 'päss"', None])
        self.do('cred', {}, lambda: setattr(r.kp, 'password', v), desc='kp.password = %r' % v)

    def op_set_mkc(self):
        r = self.r
        dt = rand_dt(self.rng, r.s['v'])
        self.do('set_mkc', {'v': P.dt_time(dt)}, lambda: setattr(r.kp, 'credchange_date', dt), desc='kp.credchange_date = %s' % dt)

    # -- history
    def op_save_hist(self):
        k = self.pe()
        if k and len(self.r.s['e'][k]['hist']) < 5:
            self.do('save_hist', {'x': k}, lambda: self.r.handle(k).save_history(), desc='%s.save_history()' % k, views=[k])

    def op_del_hist(self):
        k = self.pe()
        if not k:
            return
        h = self.r.handle(k)
        n = len(self.r.s['e'][k]['hist'])
        if self.rng.random() < .2:
            self.do('del_hist_all', {'x': k}, lambda: h.delete_history(all=True), desc='%s.delete_history(all)' % k, views=[k])
        elif n:
            i = self.rng.randrange(n)
            self.do('del_hist', {'x': k, 'i': i}, lambda: h.delete_history(h.history[i]), desc='%s.delete_history(#%d)' % (k, i), views=[k])
        else:
            oth = [x for x in self.ents() if self.r.s['e'][x]['hist']]
            if oth:
                o = self.r.handle(self.rng.choice(oth))
                self.do('del_hist', {'x': k, 'i': -1}, lambda: h.delete_history(o.history[0]),
                        desc='%s.delete_history(foreign)' % k, views=[k])

    def op_noop_del_foreign_hist(self):
        es = [x for x in self.ents() if self.r.s['e'][x]['hist']]
        if len(es) > 1:
            a, b = self.rng.sample(es, 2)
            h, o = self.r.handle(a), self.r.handle(b)
            self.do('del_hist', {'x': a, 'i': -1}, lambda: h.delete_history(o.history[0]), desc='%s.delete_history(item of %s)' % (a, b), views=[a, b])

    # -- binaries
    def op_add_bin(self):
        r = self.r
        if len(r.s['bins']) > self.maxb:
            return
        d = self.rng.choice([b'', b'x', b'hello', b'dup', bytes(range(256)), bytes([self.rng.randrange(256) for _ in range(30)]), b'\x00', b'\x1f\x8b', dbgen.GZ, b'\x00abc', b'\x01abc'])
        kw = {}
        if self.rng.random() < .5:
            kw['compressed'] = self.rng.choice([True, False])
        if self.rng.random() < .5:
            kw['protected'] = self.rng.choice([True, False])
        self.do('add_bin', {'v': r.c.s(d), 'p': kw.get('protected', True)}, lambda: {'ret': r.kp.add_binary(d, **kw)}, desc='add_binary(%r,%r)' % (d, kw))

    def op_del_bin(self):
        r = self.r
        n = len(r.s['bins'])
        i = self.rng.randrange(n) if n and self.rng.random() < .8 else self.rng.choice([n, n + 3, -1, -n, -n - 1])
        self.do('del_bin', {'i': i}, lambda: r.kp.delete_binary(i), desc='delete_binary(%d)' % i,
                views=[x for x in self.ents() if r.s['e'][x]['att'] or any(h['att'] for h in r.s['e'][x]['hist'])])

    def op_add_att(self):
        r = self.r
        k = self.pe()
        n = len(r.s['bins'])
        if not k or not n:
            return
        i = self.rng.randrange(n) if self.rng.random() < .92 else n + self.rng.randrange(2)     # a binary that is not there (yet)
        name = self.rng.choice(['a.txt', 'b.bin', self.text() or 'n'])
        bad = ''
        if self.rng.random() < self.nerr:
            bad, name = self.badval()
        self.do('add_att', {'x': k, 'i': i, 'n': r.c.s(name) if not bad else ''}, lambda: r.handle(k).add_attachment(i, name) and None,
                bad=bad, desc='%s.add_attachment(%d,%r)' % (k, i, name), views=[k])

    def _att(self):
        es = [x for x in self.ents() if self.r.s['e'][x]['att']]
        if not es:
            return None, None
        k = self.rng.choice(es)
        return k, self.rng.randrange(len(self.r.s['e'][k]['att']))

    def op_del_att(self):
        k, i = self._att()
        if k:
            h = self.r.handle(k)
            if self.rng.random() < .5:
                self.do('del_att', {'x': k, 'i': i}, lambda: h.delete_attachment(h.attachments[i]), desc='%s.delete_attachment(#%d)' % (k, i), views=[k])
            else:
                self.do('del_att', {'x': k, 'i': i}, lambda: h.attachments[i].delete(), desc='%s.attachments[%d].delete()' % (k, i), views=[k])

    def op_ren_att(self):
        k, i = self._att()
        if k:
            h = self.r.handle(k)
            v, bad = self.text() or 'x', ''
            if self.rng.random() < self.nerr:
                bad, v = 'bad', self.rng.choice(dbgen.UNCARRIABLE)
            self.do('ren_att', {'x': k, 'i': i, 'n': self.r.c.s(v) if not bad else ''}, lambda: setattr(h.attachments[i], 'filename', v),
                    bad=bad, desc='%s.attachments[%d].filename = %r' % (k, i, v), views=[k])

    def op_set_att(self):
        k, i = self._att()
        n = len(self.r.s['bins'])
        if k and n:
            j = self.rng.randrange(n)
            self.do('set_att', {'x': k, 'i': i, 'r': j}, lambda: setattr(self.r.handle(k).attachments[i], 'id', j), desc='%s.attachments[%d].id = %d' % (k, i, j), views=[k])

    # -- objects made by their classes
    def op_new(self):
        r, rng, c = self.r, self.rng, self.r.c
        d = self.pg()
        if len(self.ents()) > self.maxe or len(self.grps()) > self.maxg:
            return
        opt = {}
        exp = None
        if rng.random() < .5:
            opt['expires'] = rng.random() < .6
        if rng.random() < .5:
            exp = opt['expiry_time'] = rand_dt(rng, r.s['v'])
        if rng.random() < .4:
            opt['icon'] = rng.choice(['1', '40'])
        if rng.random() < .6:
            opt['notes'] = self.text()
        tok = lambda k: c.s(opt.get(k))
        a = {'d': d, 'new': '', 'u': '', 'icon': tok('icon'), 'notes': tok('notes'), 'exp': P.dt_time(exp) if exp else [], 'e': str(opt.get('expires', False))}
        if rng.random() < .3:
            opt['name'] = self.text()
            a['name'] = tok('name')
            op, cls = 'new_group', Group
        else:
            for k in ('title', 'username', 'password', 'url', 'otp', 'autotype_sequence', 'autotype_window'):
                if rng.random() < .6:
                    opt[k] = self.text()
                a[k] = tok(k)
            if rng.random() < .5:
                opt['autotype_enabled'] = rng.random() < .5
            if rng.random() < .5:
                opt['tags'] = rng.choice([['x'], ['x', 'y z'], 'a;b', []])
            tags = opt.get('tags') or []
            a['tags'] = [c.s(t) for t in P.split_tags(';'.join(tags) if isinstance(tags, list) else tags)]
            a['ae'] = str(opt.get('autotype_enabled', True))
            a['as'], a['aw'] = a.pop('autotype_sequence'), a.pop('autotype_window')
            op, cls = 'new_entry', Entry

        def go():
            x = cls(kp=r.kp, **opt)
            r.handle(d).append(x if rng.random() < .5 else [x])
            return r.adopt(x)
        self.do(op, a, go, desc='%s.append(%s(%r))' % (d, cls.__name__, opt), views=[d])
        new = r.events[-1]['a'].get('new')
        if new:
            self.do('noop', {}, lambda: None, views=[new], desc='observe new object')

    # -- every way to an element, and the database as text; reading changes nothing
    def op_look(self):
        r, rng = self.r, self.rng
        obs = []
        s = r.s

        def got(by, t, h, x='', i=0):
            if h is None:
                r.fail('view', x, '%s gave nothing' % by)
                return
            v = (r.view_e if t == 'e' else r.view_g)('%s of %s' % (by, x), h)['v']
            obs.append({'k': 'via', 'w': {'by': by, 'x': x, 'i': i}, 't': t, 'v': v})

        def ways():
            kp = r.kp
            e, g = self.pe(), self.pg()
            hg = r.old(g)
            for w in rng.sample(range(9), 3):
                if w == 0:
                    xs = kp.entries
                    for i in rng.sample(range(len(xs)), min(2, len(xs))):
                        got('entries', 'e', xs[i], i=i)
                elif w == 1:
                    xs = kp.groups
                    i = rng.randrange(len(xs))
                    got('groups', 'g', xs[i], i=i)
                elif w == 2:
                    xs = hg.entries
                    for i in rng.sample(range(len(xs)), min(2, len(xs))):
                        got('ents', 'e', xs[i], x=g, i=i)
                    xs = hg.subgroups
                    for i in rng.sample(range(len(xs)), min(1, len(xs))):
                        got('subs', 'g', xs[i], x=g, i=i)
                elif w == 3:
                    if g != s['root']:
                        got('parent', 'g', rng.choice([lambda: hg.parentgroup, lambda: hg.group])(), x=g)
                    if e:
                        got('parent', 'g', rng.choice([lambda: r.old(e).parentgroup, lambda: r.old(e).group])(), x=e)
                elif w == 4 and e:
                    u = r.old(e).uuid
                    got('uuid_e', 'e', rng.choice([lambda: kp.find_entries(uuid=u, first=True), lambda: (kp.find_entries(uuid=u) or [None])[0], lambda: kp.find_entries_by_uuid(u, first=True)])(), x=e)
                elif w == 5:
                    u = hg.uuid
                    got('uuid_g', 'g', rng.choice([lambda: kp.find_groups(uuid=u, first=True), lambda: (kp.find_groups(uuid=u) or [None])[0], lambda: kp.find_groups_by_uuid(u, first=True)])(), x=g)
                elif w == 6:
                    xs = kp.find_attachments()
                    for i in rng.sample(range(len(xs)), min(2, len(xs))):
                        got('owner', 'e', xs[i].entry, i=i)
                elif w == 7:
                    got('root', 'g', kp.root_group)
                    if kp.recyclebin_group is not None:
                        got('bin', 'g', kp.recyclebin_group)
                elif w == 8 and e:
                    for a in r.old(e).attachments[:2]:
                        got('self', 'e', a.entry, x=e)

        def owners():
            # the owner of an attachment of a snapshot is that snapshot
            for x in self.ents():
                for i, y in enumerate(r.old(x).history if s['e'][x]['hist'] else []):
                    for a in y.attachments[:1]:
                        obs.append({'k': 'snap', 'id': x, 'i': i, 'v': r.view_h(a.entry)})

        def fresh(x):
            return r.handle(x) if rng.random() < .5 else r._fresh()[x]

        def equalities():
            ids = self.ents() + self.grps()
            for _ in range(4):
                x = rng.choice(ids)
                y = x if rng.random() < .4 else rng.choice(self.ents() if x in s['e'] else self.grps())
                a, b = r.old(x), fresh(y)
                obs.append({'k': 'eq', 'x': x, 'y': y, 'e': bool(a == b), 'n': bool(a != b), 'h': hash(a) == hash(b)})
                if a == None or a == 'x' or not a != 5 or (a in [b]) != (a == b) or (a in {b}) != (a == b):
                    r.fail('equality', x, 'with others')
            hs = [x for x in self.ents() if s['e'][x]['hist']]
            if hs:
                for _ in range(3):
                    x = rng.choice(hs)
                    y = x if rng.random() < .7 else rng.choice(hs)
                    i, j = rng.randrange(len(s['e'][x]['hist'])), rng.randrange(-1, len(s['e'][y]['hist']))
                    if rng.random() < .3 and x == y:
                        j = i
                    a, b = r.old(x).history[i], fresh(y) if j == -1 else fresh(y).history[j]
                    if rng.random() < .5:
                        obs.append({'k': 'heq', 'x': x, 'i': i, 'y': y, 'j': j, 'e': bool(a == b), 'n': bool(a != b), 'h': hash(a) == hash(b)})
                    else:
                        obs.append({'k': 'heq', 'x': y, 'i': j, 'y': x, 'j': i, 'e': bool(b == a), 'n': bool(b != a), 'h': hash(a) == hash(b)})

        def text():
            if rng.random() < .5:
                b = r.kp.xml()
            else:
                fd, fn = tempfile.mkstemp()
                os.close(fd)
                try:
                    r.kp.dump_xml(rng.choice([fn, Path(fn)]))
                    with open(fn, 'rb') as f:
                        b = f.read()
                finally:
                    os.unlink(fn)
            root = P.etree.fromstring(b if isinstance(b, bytes) else b.encode('utf-8'))
            bins = r.kp.binaries if r.kp.version[0] == 4 else P.kdbx3_binaries(root)
            t = P.project(root, bins, r.kp.version, r.c, r.ids.other(root))
            obs.append({'k': 'xml', 'v': delta(s, t)})
            k = rng.choice(self.ents() + self.grps())
            x = P.etree.fromstring(fresh(k).dump_xml(**rng.choice([{}, {'pretty_print': True}, {'pretty_print': False}])))
            obs.append({'k': 'outline', 'id': k, 'v': P.outline(x, r.c, s['v'])})

        def held():
            for k in rng.sample(sorted(r.held), min(3, len(r.held))):
                hs, at = r.held[k]
                obs.append({'k': 'heldh', 'id': k, 'v': [r.view_h(x) for x in hs]})
                box = type('Held', (), {'attachments': at})
                obs.append({'k': 'helda', 'id': k, 'v': r.atts(box)})
            for k in rng.sample(self.ents(), min(2, len(self.ents()))):
                if k not in r.held:
                    h = r.handle(k)
                    r.held[k] = (h.history, h.attachments)

        def print_():
            return P.etree.tostring(r.kp.tree, method='c14n')

        def reads():
            kp = r.kp
            for x in [r.old(k) for k in rng.sample(self.ents(), min(2, len(self.ents())))] + [r.old(self.pg())]:
                repr(x), str(x), hash(x), x.expired, x.uuid, x.path, x.icon, x.ctime
                if isinstance(x, Entry):
                    [(repr(y), str(y), y.uuid, y.title) for y in x.history]
                    [(repr(y), y.data) for y in x.attachments if 0 <= y.id < len(s['bins'])]
                    x.tags, x.index, x.custom_properties, x.autotype_enabled
                    try:
                        x.deref('title')
                        x.ref('username')
                    except Exception:
                        pass        # C13
                    kp.find_entries(title=x.title, username=x.username or None, history=True)
                    kp.find_entries(title='.*', regex=True, flags='i', tags=['x'])
                    kp.find_entries(path=x.path)
                    kp.find_entries(string={'Title': x.title or '', 'URL': ''})
                else:
                    kp.find_groups(path=x.path), kp.find_groups(name=x.name or 'n', recursive=False)
            kp.find_attachments(filename='.', regex=True)
            kp.credchange_date, kp.credchange_required, kp.credchange_recommended, kp.version, kp.encryption_algorithm, kp.kdf_algorithm
            kp.database_salt, kp.transformed_key, kp.password, kp.keyfile, kp.default_username, kp.binaries, kp.attachments, kp.recyclebin_group

        def all_():
            for f in (held, ways, owners, equalities, text):
                try:
                    f()
                except Exception as e:
                    r.fail('view', '', '%s raised %s' % (f.__name__, type(e).__name__))
            obs.append({'k': 'reads', 'same': before == print_()})
            return obs
        before = print_()
        self.do('look', {}, reads, desc='look', obs=all_)

    def op_two_snapshots(self):
        """snapshots that differ in one thing"""
        k = self.pe()
        if k and len(self.r.s['e'][k]['hist']) < 5:
            self.do('save_hist', {'x': k}, lambda: self.r.handle(k).save_history(), desc='%s.save_history()' % k)
            if not self.r.dead:
                w = self.rng.choice(['m', 'm', 'a', 'c', 'x', 'f'])
                if w == 'f':
                    v = self.text()
                    self.do('set_f', {'x': k, 'k': 'Notes', 'v': self.r.c.s(v)}, lambda: setattr(self.r.handle(k), 'notes', v), desc='%s.notes = %r' % (k, v))
                else:
                    dt = rand_dt(self.rng, self.r.s['v'])
                    self.do('set_t', {'x': k, 'k': w, 'v': P.dt_time(dt)}, lambda: setattr(self.r.handle(k), TATTR[w], dt), desc='%s.%s = %r' % (k, TATTR[w], dt))
            if not self.r.dead:
                self.do('save_hist', {'x': k}, lambda: self.r.handle(k).save_history(), desc='%s.save_history()' % k, views=[k])
            if not self.r.dead:
                self.op_look()

    # -- identity, persistence
    def op_set_uuid(self):
        r = self.r
        k = self.pe() if self.rng.random() < .6 else self.pg()
        if not k:
            return
        u = uuid.UUID(bytes=bytes(self.rng.getrandbits(8) for _ in range(16)))
        if k in r.s['e'] and self.rng.random() < .5:      # the UUID of another entry
            u = r.handle(self.pe()).uuid
        h = r.handle(k)
        self.do('set_uuid', {'x': k, 'u': r.c.uid(u.bytes)}, lambda: setattr(h, 'uuid', u), desc='%s.uuid = %s' % (k, r.c.uid(u.bytes)), views=[k])

    def op_persist(self):
        r = self.r
        box = {}

        def go():
            b = io.BytesIO()
            r.kp.save(b)
            box['b'] = b.getvalue()

        def post():
            if 'b' not in box:
                return r.proj()
            d = K.decode(box['b'], r.kp.password, None)
            return P.project_decoded(d, r.c, r.ids)
        # the session itself must be unchanged by saving
        self.do('persist', {}, go, desc='save (session)', views=[])
        if 'b' not in box or r.dead:
            return
        # the file, read by the independent decoder, holds the database
        self.r.do('persist', {}, lambda: None, desc='save (file)', post=post)
        if r.dead:
            return

        def reopen():
            r.kp = PyKeePass(io.BytesIO(box['b']), password=r.kp.password)
            r.rehandle()
        # and so does a new session on it
        self.do('persist', {}, reopen, desc='reopen', views=self.rng.sample(self.ents(), min(2, len(self.ents()))))


ALL = dict(add_group=3, add_entry=4, del_e=2, del_g=1, move_e=3, move_g=3, append=2, reindex=3, trash_e=2, trash_g=2, empty_g=1,
           set_f=6, set_c=4, del_c=2, set_tags=2, set_icon=2, autotype=2, g_field=2, meta=2, set_t=2, set_exp=1, touch=2, cred=1,
           set_mkc=1, save_hist=4, del_hist=2, noop_del_foreign_hist=1, add_bin=2, del_bin=2, add_att=3, del_att=1, ren_att=1,
           set_uuid=1, persist=2, set_att=.6, new=.8, look=.4, two_snapshots=.4)


def profile(**kw):
    base = {k: 0.25 * v for k, v in ALL.items()}
    base.update(kw)
    return base


PROFILES = {
    'all': ALL,
    'tree': profile(add_group=4, add_entry=4, del_e=3, del_g=1.5, move_e=5, move_g=5, append=4, reindex=8, empty_g=.7, set_uuid=2, trash_e=1, trash_g=1),
    'fields': profile(add_entry=5, add_group=3, set_f=12, set_c=8, del_c=5, set_tags=3, set_icon=3, autotype=4, g_field=5, meta=4, persist=2, save_hist=2),
    'history': profile(save_hist=10, del_hist=4, noop_del_foreign_hist=2, set_f=6, set_c=4, del_c=2, set_tags=2, set_t=2, add_att=3, del_att=2, del_bin=1, move_e=2, persist=1.5),
    'attach': profile(add_bin=8, del_bin=6, add_att=9, del_att=4, ren_att=2, save_hist=4, del_hist=1, persist=2.5, add_entry=2, move_e=1, del_e=.5, del_g=.2),
    'trash': profile(trash_e=8, trash_g=8, empty_g=2, del_g=2, move_g=4, move_e=2, add_group=3, add_entry=2, persist=1.5, del_e=1),
    'times': profile(set_t=10, set_exp=4, touch=8, add_entry=3, add_group=3, set_mkc=2, cred=2, persist=3, set_f=2, move_e=2, save_hist=2),
    'persist': dict(ALL, persist=8),
    'objects': dict(ALL, look=10, two_snapshots=3, persist=.7, set_c=9, set_f=9, g_field=5, set_tags=4, set_t=4, autotype=4),
}


BURSTS = {'all': ['hist', 'bins', 'sibs', 'deep', 'props'], 'tree': ['sibs', 'deep'], 'fields': ['props'], 'history': ['hist'], 'attach': ['bins'],
          'trash': ['deep', 'sibs'], 'persist': ['hist', 'bins', 'sibs', 'deep', 'props']}


def make_session(rng, version=None, **dbargs):
    p = dbgen.random_params(rng, version)
    if p.cipher == 'twofish' and rng.random() < .7:
        p.cipher = 'aes256'
        p.iv = p.iv[:16]
    g = dbgen.Gen(rng, p.version)
    root, bins = g.db(**dbargs)
    pw = rng.choice(['pw', '', 'p"w'])
    data = K.encode(p, root, bins, pw)
    return PyKeePass(io.BytesIO(data), password=pw), p, data, pw


ZONES = ['UTC0', 'UTC0', 'AAA-05:30', 'BBB+09:30', 'CCC-13', 'DDD+11', 'EEE+3FFF,M3.2.0,M11.1.0']


def set_zone(z):
    """the local time zone must not matter"""
    os.environ['TZ'] = z
    time.tzset()


def one_trace(seed, prof, steps, nerr=0.08):
    rng = random.Random(seed)
    set_zone(rng.choice(ZONES))
    v = rng.choice([(3, 1), (4, 0)])
    size = dict(ngroups=rng.randint(1, 5), nentries=rng.randint(0, 6), nbin=rng.randint(0, 4))
    if seed % 61 == 7:          # a large one
        size = dict(ngroups=rng.choice([2, 5, 40]), nentries=rng.choice([40, 130, 270]), nbin=rng.choice([0, 12, 130]), nhist=rng.choice([0, 1]))
        steps = min(steps, 25)
    kp, p, data, pw = make_session(rng, v, **size)
    rec = Recorder(kp, bp=P.binary_flags(K.decode(data, pw, None)))
    w = Walker(rng, rec, PROFILES[prof], nerr)
    if prof == 'objects':
        rec.alt = random.Random(seed + 1)
        w.focus = set(rng.sample(w.ents(), min(2, len(w.ents()))) + rng.sample(w.grps(), min(2, len(w.grps()))))
    if seed % 8 == 0 and prof in BURSTS:
        w.burst(BURSTS[prof])
    w.run(steps)
    return rec

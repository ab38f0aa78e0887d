"""Conformance of the real library with spec/KPCore.tla: random histories and
exhaustive small-scope transitions, validated by spec/KPTrace.tla."""
import concurrent.futures
import io
import json
import multiprocessing as mp
import os
import random
import resource
import signal
import tempfile
import time
import traceback
import zlib

import dbgen
import driver
import kdbxlib as K
import project as P
import tlc
import vf

# ------------------------------------------------------------------ which property does a failing clause break
CAT = {'tree': 'C07', 'uuid': 'C07', 'binflag': 'C10 C06', 'dup': 'C07', 'efield': 'C08', 'gfield': 'C08', 'meta': 'C08', 'eprot': 'C16 C08', 'etimes': 'C14', 'gtimes': 'C14',
       'eatt': 'C10', 'bins': 'C10', 'ehist': 'C09', 'equality': 'C20', 'outline': 'C20', 'held': 'C20', 'reads': 'C20', 'eother': 'C07 C08', 'gother': 'C07 C08', 'rb': 'C12', 'mkc': 'C18'}
VIEWK = {'f': 'C08', 'c': 'C08', 'p': 'C16 C08', 'tags': 'C08', 'icon': 'C08', 'ae': 'C08', 'as': 'C08', 'aw': 'C08', 't': 'C14', 'att': 'C10',
         'hist': 'C09', 'ish': 'C09', 'par': 'C07', 'idx': 'C07', 'path': 'C07', 'name': 'C08', 'notes': 'C08', 'desc': 'C08', 'user': 'C08', 'ents': 'C07',
         'subs': 'C07', 'isroot': 'C07', 'groups': 'C07 C11', 'entries': 'C07 C11', 'root': 'C07', 'bins': 'C10', 'atts': 'C10 C11', 'rb': 'C12',
         'get_custom_property': 'C08'}
OPP = {}
for k in 'add_group add_entry del_e del_g move_e move_g append reindex empty_g set_uuid'.split():
    OPP[k] = 'C07'
for k in 'set_f set_c del_c set_tags set_icon set_ae set_as set_aw g_name g_notes meta'.split():
    OPP[k] = 'C08'
OPP['add_entry'] = OPP['add_group'] = 'C07 C08'
for k in 'trash_e trash_g'.split():
    OPP[k] = 'C12'
for k in 'set_t set_exp touch'.split():
    OPP[k] = 'C14'
for k in 'save_hist del_hist del_hist_all'.split():
    OPP[k] = 'C09'
for k in 'add_bin del_bin add_att del_att ren_att'.split():
    OPP[k] = 'C10'
OPP['look'] = 'C20'
OPP['new_entry'] = OPP['new_group'] = 'C07 C08'
OPP['set_att'] = 'C10'
OPP['cred'] = 'C18'
OPP['set_mkc'] = 'C18 C14'
OPP['persist'] = 'C01'
OPP['open'] = 'C06 C01'


def props(f):
    c, k = f['f']['c'], f['f']['k']
    s = set()
    if f['op'] != 'noop':
        s |= set(OPP.get(f['op'], '').split())
    if c == 'view':
        s |= set(VIEWK.get(k.split(' raised')[0], '').split())
    s |= set(CAT.get(c, '').split())
    if f['res'] == 'err' or k.endswith('!'):
        s.add('C15')
    if c == 'outcome' and f['f']['x'] == 'ok':
        s.add('C15')
    if c == 'fatal':
        s = {'C%02d' % i for i in range(1, 30)}
    if f['op'] == 'persist':
        s |= {'C01', 'C06'}
    return s


# ------------------------------------------------------------------ validation of a batch of recorded traces
class Hang(Exception):
    pass


_hangs = 0


def _alarm(*_):
    global _hangs
    _hangs += 1
    raise Hang()


def validate(recs, heap='1500m'):
    """recs: list of (events, script, pyfails, meta).  Returns (n events, failures)."""
    fd, path = tempfile.mkstemp(suffix='.ndjson')
    idx = []
    with os.fdopen(fd, 'w') as f:
        for ti, (events, script, pyf, meta) in enumerate(recs):
            for i, e in enumerate(events):
                f.write(json.dumps(e))
                f.write('\n')
                idx.append((ti, i))
    try:
        if not idx:
            return 0, []
        rc, out = tlc.run('KPTrace', env={'TRACE': path}, heap=heap)
        pr = tlc.printed(out, 'FAILS ')
        fails = []
        if not pr and tlc.outside(out):
            if len(recs) > 1:
                m = len(recs) // 2
                n1, f1 = validate(recs[:m], heap)
                n2, f2 = validate(recs[m:], heap)
                return n1 + n2, f1 + [dict(x, trace=x['trace'] + m) for x in f2]
            fails.append({'trace': 0, 'i': 0, 'l': 1, 'op': 'noop', 'res': 'ok', 'f': {'c': 'fatal', 'x': 'outside', 'k': out[-1500:]}})
            pr = [{'fails': []}]
        if not pr:
            raise tlc.TLCError('KPTrace: ' + out[-2500:])
        for x in pr[0]['fails']:
            ti, i = idx[x['l'] - 1]
            x['trace'], x['i'] = ti, i
            fails.append(x)
        for ti, (events, script, pyf, meta) in enumerate(recs):
            for x in pyf:
                x = dict(x, trace=ti, i=x['l'] - 1)
                fails.append(x)
        return len(idx), fails
    finally:
        os.unlink(path)


def pack(rec, meta):
    return (rec.events, rec.script, rec.pyfails, meta)


def record_walk(seed, prof, steps, nerr):
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(120 if not _hangs else 30 if _hangs < 4 else 5)
    try:
        rec = driver.one_trace(seed, prof, steps, nerr)
        return pack(rec, {'seed': seed, 'profile': prof, 'steps': steps, 'nerr': nerr})
    except Exception as e:
        tb = traceback.format_exc()
        return ([], [], [{'l': 1, 'op': 'open' if 'make_session' in tb else 'noop', 'res': 'ok',
                          'f': {'c': 'fatal', 'x': type(e).__name__, 'k': str(e)[:200]}}], {'seed': seed, 'profile': prof, 'tb': tb})
    finally:
        signal.alarm(0)


def _summ(recs, fails, keep=40):
    out = []
    for x in fails[:keep]:
        events, script, _, meta = recs[x['trace']]
        i = x['i']
        out.append({'fail': {k: x[k] for k in ('op', 'res', 'f')}, 'meta': meta, 'script': script[max(0, i - 25):i + 1][:26],
                    'event': {k: v for k, v in (events[i] if 0 <= i < len(events) else {}).items() if k not in ('obs', 'post')}})
    return out


def _walk_job(a):
    seeds, prof, steps, nerr = a
    recs = [record_walk(s, prof, steps, nerr) for s in seeds]
    n, fails = validate(recs)
    ops = {}
    for r in recs:
        for e in r[0]:
            k = e['op'] + ('!' if e.get('res') == 'err' else '')
            ops[k] = ops.get(k, 0) + 1
    return {'traces': len([r for r in recs if r[0]]), 'events': n, 'fails': _summ(recs, fails), 'ops': ops, 'sample': recs[0][1][:12]}


def _limit():
    """A worker that runs out of memory gets a MemoryError in the call that asks for it (tlc.run lifts the limit)."""
    hard = resource.getrlimit(resource.RLIMIT_AS)[1]
    try:
        resource.setrlimit(resource.RLIMIT_AS, (3 << 30, hard))
    except (ValueError, OSError):
        pass


def _pool(jobs, fn):
    """fn of every job, in parallel.  What is not done when the time of the check is up is left out (and noted)."""
    left = max(20, vf.START + vf.BUDGET - time.time())
    ex = concurrent.futures.ProcessPoolExecutor(min(vf.NPROC, max(1, len(jobs))), mp.get_context('fork'), _limit)
    try:
        fs = [ex.submit(fn, j) for j in jobs]
        concurrent.futures.wait(fs, timeout=left, return_when=concurrent.futures.FIRST_EXCEPTION)
        for f in fs:
            if f.done() and not f.cancelled() and f.exception():
                raise f.exception()
        res = [f.result() for f in fs if f.done()]
        vf.CUT += len(fs) - len(res)
        return res
    finally:
        ps = list((ex._processes or {}).values())
        ex.shutdown(wait=False, cancel_futures=True)
        for p in ps:
            if p.is_alive():
                p.terminate()


def report(check, res, what):
    for r in res:
        check.add('traces_validated_against_impl', r['traces'])
        check.add('events', r['events'])
        for k, v in r.get('ops', {}).items():
            d = check.cov.setdefault('calls', {})
            d[k] = d.get(k, 0) + v
        if r.get('sample'):
            check.sample({what: r['sample']})
        for f in r['fails']:
            if check.pid in props(f['fail']) or f['fail']['f']['c'] == 'fatal':
                x = f['fail']
                check.violation('%s/%s/%s/%s' % (x['op'], x['res'], x['f']['c'], x['f']['k'] if x['f']['c'] in ('view', 'outcome') else ''),
                                '%s: call %s -> %s, deviating clause %s %s %s; last calls: %s' % (
                                    what, x['op'], x['res'], x['f']['c'], x['f']['x'], x['f']['k'], '; '.join(f['script'][-4:])), f)
    if not any(r['events'] for r in res) and not vf.CUT:
        check.violation('nothing', 'no database could be exercised at all: ' + repr([f['fail'] for r in res for f in r['fails']][:2]), {})


def walks(check, prof, ntraces, steps, nerr=0.08, salt=0):
    seeds = [vf.SEED * 1000003 + salt * 7919 + i for i in range(ntraces)]
    n = vf.NPROC if ntraces < 200 else vf.NPROC * 2
    jobs = [(seeds[i::n], prof, steps, nerr) for i in range(n) if seeds[i::n]]
    report(check, _pool(jobs, _walk_job), 'random history (%s)' % prof)


# ------------------------------------------------------------------ exhaustive small-scope transitions
MCPROPS = "NothingLost NothingInvented ContentIsolated OrderKept HistoryStable SnapshotExact Trashed BinStays"


def mc_cfg(ops, start, E=2, G=2, B=0, A=0, H=0, L=4, vals=('x',), keys=('Title',), emit=True):
    q = lambda xs: '{' + ','.join('"%s"' % x for x in xs) + '}'
    return ("SPECIFICATION Spec\nVIEW View\nCHECK_DEADLOCK FALSE\nINVARIANTS OneTree NoNested WaysAgree AttachmentsKeepData PasswordsProtected\n"
            "PROPERTIES %s\nCONSTANTS\nOPS = %s\nMaxE=%d\nMaxG=%d\nMaxB=%d\nMaxA=%d\nMaxH=%d\nMaxLen=%d\nVALS=%s\nKEYS=%s\nSTART=%d\nEMIT=%s\n" % (
                MCPROPS, q(ops), E, G, B, A, H, L, q(vals), q(keys), start, 'TRUE' if emit else 'FALSE'))


NAMINGS = [['g'], ['g', 't'], ['g', 't', 'u', 'v', 'w'], ['g', 'Recycle Bin'], [None, 'g']]


def base_file(start, v, rng, naming):
    """The initial database of KPCoreMC, as a file.  Returns bytes and {model id: uuid bytes}.
    Names and titles, which the model leaves open, come from naming."""
    g = dbgen.Gen(rng, (4, 0) if v == 4 else (3, 1))
    from lxml import etree
    sub = dbgen.sub
    root, _ = g.db(ngroups=1, nentries=0, nbin=0, bin='zero')
    top = root.find('Root/Group')
    top.find('Name').text = 'g'
    ids = {'g0': __import__('base64').b64decode(top.findtext('UUID'))}

    def entry(par, mid):
        e = g.entry(par, 0, 0)
        for x in e.findall('Binary') + e.findall('History') + e.findall('Tags'):
            e.remove(x)
        for s in e.findall('String'):
            if s.findtext('Key') not in ('Title', 'UserName', 'Password', 'URL'):
                e.remove(s)
            else:
                s.find('Value').text = rng.choice(naming) or '' if s.findtext('Key') in ('Title', 'UserName') else ''
                s.find('Value').attrib.pop('Protected', None)
                if s.findtext('Key') == 'Password':
                    s.find('Value').set('Protected', 'True')
        ids[mid] = __import__('base64').b64decode(e.findtext('UUID'))
        return e

    def group(par, mid):
        x = g.group(par, rng.choice(naming) or 'g')
        ids[mid] = __import__('base64').b64decode(x.findtext('UUID'))
        return x
    if start == 1:
        entry(top, 'e1')
        group(top, 'g1')
        entry(top, 'e2')
    elif start == 3:
        for mid, fs in (('e1', [('Title', None), ('UserName', 'True'), ('Password', rng.choice([None, 'False'])), ('otp', rng.choice([None, 'False']))]), ('e2', [('Title', None)])):
            e = entry(top, mid)
            for x in e.findall('String'):
                e.remove(x)
            for k, prot in fs:
                s = sub(e, 'String')
                sub(s, 'Key', k)
                sub(s, 'Value', rng.choice(['', None]), **({'Protected': prot} if prot else {}))
    elif start == 2:
        b = group(top, 'g1')
        entry(top, 'e1')
        g2 = group(top, 'g2')
        entry(g2, 'e2')
        root.find('Meta/RecycleBinUUID').text = b.findtext('UUID')
    p = K.Params(version=g.version, rng=rng, kdf='aeskdf', compression=False, cipher='chacha20')
    return K.encode(p, root, [], 'pw'), ids


class Replayer:
    def __init__(self, data, ids, naming, vmap):
        self.naming = naming
        self.kp = driver.PyKeePass(io.BytesIO(data), password='pw')
        self.vmap = vmap
        self.h = {}
        by = {u: m for m, u in ids.items()}
        self.c = P.Ctx()
        self.ids = P.Ids(self.c)
        self.tok = {}       # model id -> id
        for el, i in self.ids.update(self.kp.tree.getroot()).items():
            m = by[__import__('base64').b64decode(el.findtext('UUID'))]
            self.tok[m] = i
            self.h[m] = (driver.Entry if el.tag == 'Entry' else driver.Group)(element=el, kp=self.kp)

    def v(self, x):
        return self.vmap.get(x, x)

    def name(self, a):
        return self.naming[int(a['new'][1:]) % len(self.naming)]

    def bytes(self, x):
        return self.v(x).encode('utf-8', 'replace')

    def thunk(self, ev):
        """the real call for a model event; returns the created handle (model id) if any"""
        a, op, h, kp = ev['a'], ev['op'], self.h, self.kp
        if op == 'add_group':
            return lambda: (a['new'], kp.add_group(h[a['d']], self.name(a) or 'g'))
        if op == 'add_entry':
            return lambda: (a['new'], kp.add_entry(h[a['d']], self.name(a), self.name(a), None, force_creation=True))
        if op == 'del_e':
            return lambda: kp.delete_entry(h[a['x']])
        if op == 'del_g':
            return lambda: kp.delete_group(h[a['x']])
        if op == 'move_e':
            return lambda: kp.move_entry(h[a['x']], h[a['d']])
        if op == 'move_g':
            return lambda: kp.move_group(h[a['x']], h[a['d']])
        if op == 'append':
            return lambda: h[a['d']].append([h[x] for x in a['xs']])
        if op == 'reindex':
            return lambda: h[a['x']].reindex(a['i'])
        if op in ('trash_e', 'trash_g'):
            def go():
                (kp.trash_entry if op == 'trash_e' else kp.trash_group)(h[a['x']])
                if a['new']:
                    return a['new'], kp.recyclebin_group
            return go
        if op == 'empty_g':
            return lambda: kp.empty_group(h[a['x']])
        if op == 'set_f':
            return lambda: setattr(h[a['x']], driver.STD[a['k']], self.v(a['v']))
        if op == 'set_c':
            return lambda: h[a['x']].set_custom_property(self.v(a['k']), self.v(a['v']), protect=a['p'])
        if op == 'del_c':
            return lambda: h[a['x']].delete_custom_property(self.v(a['k']))
        if op == 'save_hist':
            return lambda: h[a['x']].save_history()
        if op == 'del_hist':
            return lambda: h[a['x']].delete_history(h[a['x']].history[a['i']])
        if op == 'add_bin':
            return lambda: {'ret': kp.add_binary(self.bytes(a['v']))}
        if op == 'del_bin':
            return lambda: kp.delete_binary(a['i'])
        if op == 'add_att':
            return lambda: h[a['x']].add_attachment(a['i'], a['n']) and None
        if op == 'set_uuid':
            return lambda: setattr(h[a['x']], 'uuid', h[a['of']].uuid)
        if op == 'del_att':
            return lambda: h[a['x']].delete_attachment(h[a['x']].attachments[a['i']])
        raise ValueError(op)

    def silent(self, ev):
        r = self.thunk(ev)()
        if isinstance(r, tuple):
            self.h[r[0]] = r[1]
            before, u = set(self.ids.m), self.c.uid(r[1].uuid.bytes)
            for el, i in self.ids.update(self.kp.tree.getroot()).items():
                if el not in before and self.ids.u[i] == u:
                    self.tok[r[0]] = i
        elif ev['op'] in ('del_e', 'del_g', 'empty_g'):
            self.ids.update(self.kp.tree.getroot())

    def recorded(self, ev, look=None):
        rec = driver.Recorder(self.kp, self.c, self.ids)
        c = rec.c
        live = set(self.ids.m.values())
        tok = {m: i for m, i in self.tok.items() if i in live}
        for m, t in tok.items():
            rec.h[t] = self.h[m]
        if look:
            # the call is made on objects obtained anew, the ones obtained before are looked at
            rec.alt = look
            wk = driver.Walker(look, rec, driver.ALL)
            wk.op_look()
            fresh = rec._fresh()
            for m, t in tok.items():
                self.h[m] = fresh[t]
        a = {}
        for k, x in ev['a'].items():
            if k in ('x', 'd'):
                a[k] = tok[x]
            elif k == 'xs':
                a[k] = [tok[y] for y in x]
            elif k == 'v':
                a[k] = c.s(self.bytes(x)) if ev['op'] == 'add_bin' else c.s(self.v(x))
            elif k == 'k':
                a[k] = x if x in driver.STD else c.s(self.v(x))
            elif k == 'n':
                a[k] = c.s(x)
            elif k == 'of' or (k == 'u' and ev['op'] == 'set_uuid'):
                a['u'] = self.ids.u[tok[ev['a']['of']]]
            elif k == 'name':
                a[k] = c.s(self.name(ev['a']) or 'g')
            elif k in ('title', 'username'):
                a[k] = c.s(self.name(ev['a']) or '')
            elif k in ('tnone', 'unone'):
                a[k] = self.name(ev['a']) is None
            else:
                a[k] = x
        th = self.thunk(ev)

        def go():
            r = th()
            if isinstance(r, tuple):
                d = rec.adopt(r[1])
                if ev['op'].startswith('trash'):
                    d['binname'] = c.s(r[1].name)
                return d
            return r
        if 'new' in a:
            a['new'] = a['u'] = ''
        rec.do(ev['op'], a, go, desc=json.dumps(ev), views=sorted(rec.s['e']) + sorted(rec.s['g']), dbview=True)
        if look and not rec.dead and not rec.s['dups']:
            for _ in range(3):
                wk.op_look()
        return rec


def _mc_job(args):
    trs, start, seed, look = args
    rng = random.Random(seed)
    files = {(v, i): base_file(start, v, random.Random(seed + v + 10 * i), nm) + (nm,) for v in (3, 4) for i, nm in enumerate(NAMINGS)}
    recs = []
    fatal = []
    signal.signal(signal.SIGALRM, _alarm)
    for n, t in enumerate(trs):
        v = 3 if (n % 2) else 4
        x, y, k = rng.choice(dbgen.NASTY), rng.choice(dbgen.NASTY), rng.choice(driver.Walker.CKEYS)
        if x == y:
            y = 'other'
        signal.alarm(60 if not _hangs else 20 if _hangs < 4 else 5)
        try:
            rp = Replayer(*files[v, n // 2 % len(NAMINGS)], {'x': x, 'y': y, 'k1': k})
            for ev in t['p']:
                rp.silent(ev)
            rec = rp.recorded(t['ev'], random.Random(seed + n) if look else None)
            recs.append((rec.events, [json.dumps(e) for e in t['p']] + rec.script, rec.pyfails, {'start': start, 'v': v, 'model path': [e['op'] for e in t['p']]}))
        except Exception as e:
            # the model says every call of the path succeeds
            recs.append(([], [json.dumps(e_) for e_ in t['p']], [{'l': 1, 'op': t['p'][-1]['op'] if t['p'] else 'open', 'res': 'ok', 'f': {
                'c': 'fatal', 'x': type(e).__name__, 'k': str(e)[:100]}}], {'tb': traceback.format_exc()[-1500:], 'ev': t['ev'], 'path': t['p']}))
        finally:
            signal.alarm(0)
    n, fails = validate(recs)
    return {'traces': len([r for r in recs if r[0]]), 'events': n, 'fails': _summ(recs, fails), 'ops': {}, 'sample': None}


def exhaustive(check, name, ops, start, limit, look=False, **kw):
    """Model-check KPCoreMC and replay (up to limit of) its transitions on the library."""
    rc, out = tlc.run('KPCoreMC', cfg=mc_cfg(ops, start, **kw), workers=1, heap='4g')
    if rc != 0:
        raise tlc.TLCError('KPCoreMC %s: %s' % (name, '\n'.join(l for l in out.splitlines() if not l.startswith('"TR '))[-2500:]))
    trs = tlc.printed(out, 'TR ')
    g, d = tlc.stats(out)
    check.add('states', d)
    check.add('transitions', len(trs))
    check.cov.setdefault('models', {})[name] = {'states': d, 'transitions': len(trs), 'constants': repr(kw), 'ops': list(ops)}
    if len(trs) > limit:
        rng = random.Random(vf.SEED)
        trs = [trs[i] for i in sorted(rng.sample(range(len(trs)), limit))]
    check.cov['models'][name]['replayed'] = len(trs)
    check.sample({'model transition (%s)' % name: trs[len(trs) // 2]})
    n = vf.NPROC * (1 if len(trs) < 8000 else 3)
    jobs = [(trs[i::n], start, vf.SEED * 31 + i, look) for i in range(n) if trs[i::n]]
    report(check, _pool(jobs, _mc_job), 'model transition (%s)' % name)


TREE = ['add_group', 'add_entry', 'del_e', 'del_g', 'move_e', 'move_g', 'append', 'reindex', 'empty_g', 'set_uuid']
TRASH = ['add_group', 'del_g', 'move_g', 'trash_e', 'trash_g', 'empty_g', 'move_e']
ATT = ['add_bin', 'del_bin', 'add_att', 'del_att', 'save_hist', 'del_hist']
FLD = ['set_f', 'set_c', 'del_c', 'save_hist', 'del_hist']

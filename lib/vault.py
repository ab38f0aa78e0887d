"""Conformance of real sessions, files and credentials with spec/Vault.tla."""
import datetime
import io
import json
import os
import pathlib
import random
import shutil
import signal
import tempfile
import traceback

import core
import dbgen
import driver
import kdbxlib as K
import project as P
import tlc
import vf
from pykeepass import PyKeePass, create_database

ERR = ('CredentialsError', 'HeaderChecksumError', 'PayloadChecksumError', 'FileNotFoundError')
FIELDS = {'f', 'pw', 'kf', 'b', 'mkc', 'r', 'open'}


def hdr_report(h):
    return repr((tuple(h.version), h.cipher, h.kdf['name'], bytes(h.kdf['S'])))


def kp_report(kp):
    return repr((tuple(kp.version), kp.encryption_algorithm, kp.kdf_algorithm, bytes(kp.database_salt)))


def body_of(s):
    """content token source: projection without mkc"""
    s = dict(s, m=dict(s['m'], mkc=None), bp=None)
    return json.dumps(s, sort_keys=True)


class World:
    """A scratch directory with files, key files and sessions; executes events and records the trace."""

    def __init__(self, rng, pws, kfs, version=None, params=None):
        self.rng = rng
        self.dir = tempfile.mkdtemp(prefix='vault')
        self.ctx = P.Ctx()
        self.tok = P.Interner('t')
        self.pws = dict(pws)           # token -> password
        self.kfc = {}                  # key file token -> bytes content (None: absent)
        self.kf_obj = {}               # how the key file is handed over
        self.tks = {}                  # token -> transformed key bytes
        self.tkt = {}                  # (par, pw, key) -> token
        self.kdf = {}                  # par token -> kdf dict
        self.ss = {}                   # session token -> kp
        self.events = []
        self.script = []
        self.pyfails = []
        self.cache = {}
        self.fnames = {}               # file token -> name
        self.blank = {'b': '', 'p': '', 'r': ''}
        self.params = params
        self.version = version
        for k, c in kfs.items():
            self.write_kf(k, c)
        # bystanders
        self.by = {}
        for n in ('note.txt', 'fa.tmp', 'fa.kdbx.tmp', 'x.tmp', '.fa', 'fa~', 'fa.bak', 'fb.old'):
            with open(os.path.join(self.dir, n), 'wb') as f:
                f.write(b'bystander ' + n.encode())
            self.by[n] = b'bystander ' + n.encode()
        os.mkdir(os.path.join(self.dir, 'subdir'))

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    # ---- key files
    def kpath(self, k):
        return os.path.join(self.dir, 'key_' + k)

    def write_kf(self, k, c):
        self.kfc[k] = c
        with open(self.kpath(k), 'wb') as f:
            f.write(c)

    def kfarg(self, k):
        """the object handed to the library for key file token k"""
        if k == 'none':
            return None
        if k not in self.kf_obj:
            m = self.rng.choice(['str', 'path', 'str'])
            self.kf_obj[k] = self.kpath(k) if m == 'str' else pathlib.Path(self.kpath(k))
        return self.kf_obj[k]

    def key(self, k):
        if k == 'none':
            return 'none'
        try:
            return self.tok(K.keyfile_key(self.kfc[k]))
        except K.KdbxError:
            return 'refused'

    # ---- files
    def path(self, f):
        return os.path.join(self.dir, self.fnames.setdefault(f, f))

    def farg(self, f):
        p = self.path(f)
        return pathlib.Path(p) if self.rng.random() < .3 else p

    def par(self, d):
        x = K.params_of(d)
        x['stream_key_len'] = len(d.stream_key)
        t = self.tok(repr(sorted(x.items(), key=lambda i: i[0])))
        self.kdf[t] = d.kdf
        return t

    def tkof(self, p, w, kf):
        """transformed key token of password token w and key file token kf under parameters p"""
        if p not in self.kdf or w not in self.pws:
            return {}
        kb = None
        if kf != 'none':
            if self.kfc.get(kf) is None:
                return {}
            try:
                kb = K.keyfile_key(self.kfc[kf])
            except K.KdbxError:
                return {}
        i = (p, w, 'none' if kb is None else self.tok(kb))
        if i not in self.tkt:
            comp = b''
            if self.pws[w] is not None:
                comp += K.sha(self.pws[w].encode('utf-8'))
            b = K.transform(self.kdf[p], K.sha(comp + (kb or b'')))
            self.tkt[i] = self.tok(b)
            self.tks[self.tkt[i]] = b
        return {'|'.join(i): self.tkt[i]}

    def keys(self):
        out = [('none', None)]
        for k, c in self.kfc.items():
            if c is not None:
                try:
                    kb = K.keyfile_key(c)
                    out.append((self.tok(kb), kb))
                except K.KdbxError:
                    pass
        return out

    def file_rec(self, data):
        h = K.sha(data)
        if h in self.cache:
            return self.cache[h]
        rec = {'k': 'junk', 'b': self.tok(h), 'mkc': [], 'p': '', 'r': ''}
        try:
            hd = K.read_header(data)
            cands = list(self.tks.values())
            tried = set()

            def attempt(tk):
                if tk in tried:
                    return None
                tried.add(tk)
                try:
                    return K.decode(data, tk=tk)
                except K.KdbxError as e:
                    if e.args[0] != 'credentials':
                        raise
            d = None
            for tk in cands:
                d = attempt(tk)
                if d:
                    break
            if not d and (hd.kdf.get('R', 0) + hd.kdf.get('M', 0) // 100 < 2000):
                for w in self.pws.values():
                    for _, kb in self.keys():
                        c = K.sha((K.sha(w.encode()) if w is not None else b'') + (kb or b''))
                        d = attempt(K.transform(hd.kdf, c))
                        if d:
                            break
                    if d:
                        break
            if d:
                s = P.project_decoded(d, self.ctx)
                t = self.tok(d.tk)
                self.tks[t] = d.tk
                rec = {'k': t, 'b': self.tok(body_of(s)), 'mkc': s['m']['mkc'], 'p': self.par(d), 'r': self.tok(hdr_report(d))}
            else:
                rec = {'k': 'junk', 'b': self.tok(h), 'mkc': [], 'p': '', 'r': self.tok(hdr_report(hd))}
        except (K.KdbxError, Exception):
            pass
        self.cache[h] = rec
        return rec

    def look_files(self):
        fs, stray = {}, []
        known = {n: f for f, n in self.fnames.items()}
        for root, dirs, files in os.walk(self.dir):
            for n in files:
                rel = os.path.relpath(os.path.join(root, n), self.dir)
                with open(os.path.join(root, n), 'rb') as fh:
                    data = fh.read()
                if rel in self.by:
                    if data != self.by[rel]:
                        stray.append('changed ' + rel)
                elif rel.startswith('key_'):
                    if data != self.kfc.get(rel[4:]):
                        stray.append('changed ' + rel)
                elif rel in known:
                    fs[known[rel]] = self.file_rec(data)
                else:
                    stray.append('new ' + rel)
            for dd in dirs:
                if os.path.relpath(os.path.join(root, dd), self.dir) != 'subdir':
                    stray.append('dir ' + dd)
        for n in self.by:
            if not os.path.exists(os.path.join(self.dir, n)):
                stray.append('lost ' + n)
        return fs, [str(self.tok(s)) + ' ' + ''.join(c if c.isalnum() else '_' for c in s) for s in stray]

    def pwtok(self, v):
        for t, x in self.pws.items():
            if x == v and type(x) is type(v):
                return t
        return 'other'

    def kftok(self, v):
        if v is None:
            return 'none'
        for k in self.kfc:
            if v is self.kf_obj.get(k) or (isinstance(v, (str, pathlib.Path)) and str(v) == self.kpath(k)):
                return k
        return 'other'

    def ftok(self, v):
        if isinstance(v, (str, pathlib.Path)):
            for f in self.fnames:
                if str(v) == self.path(f):
                    return f
        if hasattr(v, 'read'):
            return 'stream'
        return 'other'

    def look_sess(self):
        out, rk = {}, {}
        for s, kp in self.ss.items():
            op = self.opn[s]
            r = {'f': self.ftok(kp.filename), 'pw': self.pwtok(kp.password), 'kf': self.kftok(kp.keyfile), 'open': op,
                 'r': self.tok(kp_report(kp)), 'b': '', 'mkc': []}
            if op:
                st = P.project_kp(kp, self.ctx)
                r['b'] = self.tok(body_of(st))
                r['mkc'] = st['m']['mkc']
                rk[s] = self.tok(bytes(kp.transformed_key))
            else:
                for what in (lambda: kp.tree, lambda: kp.entries, lambda: kp.groups, lambda: kp.xml()):
                    try:
                        what()
                        r['b'] = 'shown'
                    except Exception:
                        pass
            out[s] = r
        return out, rk

    def post(self):
        fs, stray = self.look_files()
        ss, rk = self.look_sess()
        return {'fs': fs, 'ss': ss}, stray, rk

    # ---- events
    opn = None

    def start(self):
        self.opn = {}
        fs, stray = self.look_files()
        self.last, self.spar = {'fs': fs, 'ss': {}}, {}
        self.events.append({'op': 'init', 'post': {'fs': fs}, 'kfs': {k: self.key(k) for k, c in self.kfc.items() if c is not None}})

    def plant_bytes(self, pw, kf, params=None, tk=None):
        rng = self.rng
        p = params or self.params or dbgen.random_params(rng, self.version)
        if not params and p.cipher == 'twofish' and rng.random() < .7:
            p.cipher, p.iv = 'aes256', p.iv[:16]
        g = dbgen.Gen(rng, p.version)
        root, bins = g.db(ngroups=rng.randint(1, 3), nentries=rng.randint(0, 3), nbin=rng.randint(0, 2))
        return K.encode(p, root, bins, self.pws[pw], None if kf == 'none' else self.kfc[kf], tk=tk)

    def run(self, ev):
        ev = dict({'s': '', 'f': '', 'pw': '', 'kf': '', 'tk': 'none', 'dir': 'ok'}, **ev)
        op, s = ev['op'], ev['s']
        tkb = None if ev['tk'] == 'none' else self.tks[ev['tk']]
        kp = self.ss.get(s)
        self.script.append(' '.join('%s=%s' % (k, v) for k, v in ev.items() if v not in ('', 'none', 'ok')))
        res, out, empty = 'ok', {'k': '', 'b': '', 'mkc': [], 'p': '', 'r': ''}, True
        t = {}
        pre, sp = self.last, self.spar.get(s)
        if op in ('open', 'probe', 'read') and ev['f'] in pre['fs']:
            t = self.tkof(pre['fs'][ev['f']]['p'], ev['pw'], ev['kf'])
        elif s in pre['ss']:
            o = pre['ss'][s]
            if op == 'reload' and o['f'] in pre['fs']:
                t = self.tkof(pre['fs'][o['f']]['p'], o['pw'], o['kf'])
            elif op.startswith('save'):
                t = self.tkof(sp, o['pw'], o['kf'])
        elif op == 'create' and self.blank['p']:
            t = self.tkof(self.blank['p'], ev['pw'], ev['kf'])
        t0 = driver.now_t(-1)
        try:
            if op in ('open', 'probe'):
                kw = {}
                if ev['pw'] != 'none':
                    kw['password'] = self.pws[ev['pw']]
                if ev['kf'] != 'none':
                    kw['keyfile'] = self.kfarg(ev['kf'])
                if tkb is not None:
                    kw['transformed_key'] = tkb
                if op == 'probe' and ev.get('stream'):
                    with open(self.path(ev['f']), 'rb') as fh:
                        new = PyKeePass(io.BytesIO(fh.read()), **kw)
                else:
                    new = PyKeePass(self.farg(ev['f']), **kw)
                if op == 'open':
                    self.ss[s], self.opn[s] = new, True
            elif op == 'read':
                kp.read(self.farg(ev['f']), password=self.pws[ev['pw']], keyfile=self.kfarg(ev['kf']), transformed_key=tkb)
                self.opn[s] = True
            elif op == 'reload':
                kp.reload()
                self.opn[s] = True
            elif op == 'save':
                kp.save(transformed_key=tkb) if tkb is not None else kp.save()
            elif op == 'saveas':
                tgt = self.farg(ev['f'])
                if ev['dir'] == 'missing':
                    tgt = os.path.join(self.dir, 'nodir', 'x.kdbx')
                elif ev['dir'] == 'isdir':
                    tgt = os.path.join(self.dir, 'subdir')
                elif ev['dir'] == 'notdir':
                    tgt = os.path.join(self.dir, 'note.txt', 'x.kdbx')
                kp.save(tgt, transformed_key=tkb) if tkb is not None else kp.save(tgt)
            elif op == 'savestream':
                b = io.BytesIO()
                kp.save(b, transformed_key=tkb) if tkb is not None else kp.save(b)
                out = self.file_rec(b.getvalue())
            elif op == 'create':
                tgt = self.farg(ev['f']) if ev['dir'] == 'ok' else os.path.join(self.dir, 'nodir', 'x.kdbx')
                new = create_database(tgt, password=self.pws[ev['pw']], keyfile=self.kfarg(ev['kf']), transformed_key=tkb)
                self.ss[s], self.opn[s] = new, True
                empty = new.entries == [] and len(new.groups) == 1 and new.binaries == [] and new.attachments == [] and new.recyclebin_group is None
                if not self.blank['b']:
                    st = P.project_kp(new, self.ctx)
                    with open(self.path(ev['f']), 'rb') as fh:
                        data = fh.read()
                    hd = K.read_header(data)
                    for w_, k_, x_ in [(ev['pw'], ev['kf'], tkb)]:
                        b_ = x_ or K.transform(hd.kdf, K.composite(self.pws[w_], None if k_ == 'none' else self.kfc[k_]))
                        self.tks[self.tok(b_)] = b_
                    rec = self.file_rec(data)
                    self.blank = {'b': self.tok(body_of(st)), 'p': rec['p'], 'r': rec['r']}
            elif op == 'peek':
                self.ss[s], self.opn[s] = PyKeePass(self.farg(ev['f']), decrypt=False), False
            elif op == 'setpw':
                kp.password = self.pws[ev['pw']]
            elif op == 'setkf':
                kp.keyfile = self.kfarg(ev['kf'])
            elif op == 'edit':
                self.edit(kp)
            elif op == 'drop':
                del self.ss[s]
            elif op == 'plant':
                data = self.plant_bytes(ev['pw'], ev['kf'], ev.pop('params', None), tk=tkb)
                if ev.pop('junk', None):
                    i = len(data) - 200 if len(data) < 2000 else len(data) // 2
                    data = self.rng.choice([data[:i], b'', data[:40], data[:i] + bytes([data[i] ^ 1]) + data[i + 1:], b'not a database'])
                with open(self.path(ev['f']), 'wb') as fh:
                    fh.write(data)
            elif op == 'rm':
                os.unlink(self.path(ev['f']))
            elif op == 'kfwrite':
                self.write_kf(ev['kf'], ev.pop('content'))
                ev['key'] = self.key(ev['kf'])
            elif op == 'kfrm':
                os.unlink(self.kpath(ev['kf']))
                self.kfc[ev['kf']] = None
            else:
                raise KeyError(op)
        except Exception as e:
            n = type(e).__name__
            res = n if n in ERR else 'other'
            if res == 'other':
                self.script[-1] += ' -> ' + repr(e)[:100]
            if op in ('plant', 'rm', 'kfwrite', 'kfrm', 'drop'):
                raise
        t1 = driver.now_t(+1)
        try:
            post, stray, rk = self.post()
        except Exception as e:
            self.pyfails.append({'l': len(self.events) + 1, 'op': op, 'res': res, 'f': {'c': 'fatal', 'x': type(e).__name__, 'k': str(e)[:80]}})
            self.dead = True
            return res
        if op == 'create' and res == 'ok':
            t = self.tkof(self.blank['p'], ev['pw'], ev['kf'])
        # parameters of the session, as the specification infers them
        if res == 'ok':
            if op in ('open', 'read', 'peek') and ev['f'] in pre['fs']:
                self.spar[s] = pre['fs'][ev['f']]['p']
            elif op == 'reload' and s in pre['ss'] and pre['ss'][s]['f'] in pre['fs']:
                self.spar[s] = pre['fs'][pre['ss'][s]['f']]['p']
            elif op == 'create':
                self.spar[s] = self.blank['p']
        self.last = post
        ev.update(res=res, t0=t0, t1=t1, post=post, stray=stray, rk=rk, out=out, empty=empty, blank=self.blank, t=t)
        self.events.append(ev)
        return res

    dead = False

    def edit(self, kp):
        rng = self.rng
        r = rng.random()
        es, gs = kp.entries, kp.groups
        if r < .35 or not es:
            kp.add_entry(rng.choice(gs), dbgen.text(rng), dbgen.text(rng), dbgen.text(rng), force_creation=True)
        elif r < .5:
            rng.choice(es).title = dbgen.text(rng)
        elif r < .6:
            rng.choice(es).set_custom_property('k1', dbgen.text(rng), protect=rng.random() < .5)
        elif r < .7:
            rng.choice(es).save_history()
        elif r < .8:
            rng.choice(es).add_attachment(kp.add_binary(dbgen.text(rng).encode('utf8')), 'f')
        elif r < .9:
            kp.add_group(rng.choice(gs), 'new')
        else:
            kp.delete_entry(rng.choice(es))


PW = {'none': None, 'w0': '', 'w1': 'pw', 'w2': 'pW', 'w3': 'pw ', 'w4': 'p\u00e4ss', 'w5': 'pa\u0308ss', 'w6': 'x' * 100 + 'a', 'w7': 'x' * 100 + 'b',
      'w8': 'None', 'w9': '\U0001F511"\'<&', 'w10': 'a\x00b', 'w11': 'a\x00c'}


def key_contents(rng):
    rb = lambda n: bytes(rng.getrandbits(8) for _ in range(n))
    k = rb(32)
    big = rb(70000)
    return [k, k[:31] + bytes([k[31] ^ 1]), k.hex().encode(), k.hex().upper().encode(), rb(100), b'', rb(64), big, big[:-1] + bytes([big[-1] ^ 1]),
            b'<?xml version="1.0"?><KeyFile><Meta><Version>1.00</Version></Meta><Key><Data>' + __import__('base64').b64encode(k) + b'</Data></Key></KeyFile>',
            ('<?xml version="1.0"?><KeyFile><Meta><Version>2.0</Version></Meta><Key><Data Hash="%s">%s</Data></Key></KeyFile>' % (K.sha(k)[:4].hex(), k.hex())).encode(),
            k.hex().encode()[:-1] + b'g', b'pw']


def walk(seed, steps, creates=0):
    """Random history of sessions, files and credentials."""
    rng = random.Random(seed)
    pws = dict(PW)
    kcs = key_contents(rng)
    kfs = {'k%d' % i: kcs[j] for i, j in enumerate(rng.sample(range(len(kcs)), 3))}
    w = World(rng, pws, kfs, version=rng.choice([(3, 1), (4, 0), (4, 1), (4, 0)]))
    try:
        sub = rng.sample([p for p in pws if p not in ('none', 'w0')], 2) + ['none', 'w0']
        if rng.random() < .5:
            sub += rng.choice([['w1', 'w2', 'w3'], ['w4', 'w5'], ['w6', 'w7'], ['w10', 'w11']])
        pw = lambda: rng.choice(sub)
        kf = lambda: rng.choice(['none', 'none', 'k0', 'k1', 'k2'])
        F = ['fa', 'fb', 'fc']
        w.start()
        w.run({'op': 'plant', 'f': 'fa', 'pw': pw(), 'kf': kf()})
        n = 0
        left = creates

        def tkof():
            ts = [r['k'] for r in w.events[-1]['post']['fs'].values() if r['k'] in w.tks]
            t = rng.choice(ts + ['foreign']) if ts else 'foreign'
            if t == 'foreign':
                b = bytes(rng.getrandbits(8) for _ in range(32))
                t = w.tok(b)
                w.tks[t] = b
            return t

        def rightcred(f):
            """credentials that open f, per the last logged state (or random)"""
            rec = w.events[-1]['post']['fs'].get(f)
            if rec and rec['k'] != 'junk':
                for (p, ww, key), t in w.tkt.items():
                    if t == rec['k'] and p == rec['p']:
                        for k in ['none'] + [k for k, c in w.kfc.items() if c is not None]:
                            if w.key(k) == key:
                                return {'pw': ww, 'kf': k}
                return {'pw': 'none', 'kf': 'none', 'tk': rec['k']}
            return {'pw': pw(), 'kf': kf()}

        for _ in range(steps):
            if w.dead:
                break
            live = sorted(w.ss)
            s = rng.choice(live) if live else None
            files = sorted(w.events[-1]['post']['fs']) or ['fa']
            r = rng.random()
            if not live or (r < .14 and len(live) < 3):
                f = rng.choice(files)
                c = rightcred(f) if rng.random() < .75 else {'pw': pw(), 'kf': kf()}
                if rng.random() < .15:
                    c['tk'] = tkof()
                n += 1
                w.run(dict({'op': 'open', 's': 's%d' % n, 'f': f}, **c))
            elif r < .20:
                w.run({'op': 'drop', 's': s})
            elif r < .32:
                w.run({'op': 'edit', 's': s})
            elif r < .40:
                w.run({'op': 'setpw', 's': s, 'pw': pw()})
            elif r < .46:
                w.run({'op': 'setkf', 's': s, 'kf': kf()})
            elif r < .58:
                w.run({'op': 'save', 's': s, 'tk': tkof() if rng.random() < .12 else 'none'})
            elif r < .66:
                w.run({'op': 'saveas', 's': s, 'f': rng.choice(F), 'tk': tkof() if rng.random() < .12 else 'none',
                       'dir': rng.choice(['ok'] * 5 + ['missing', 'isdir', 'notdir'])})
            elif r < .70:
                w.run({'op': 'savestream', 's': s, 'tk': tkof() if rng.random() < .12 else 'none'})
            elif r < .77:
                w.run({'op': 'reload', 's': s})
            elif r < .82:
                f = rng.choice(files)
                c = rightcred(f) if rng.random() < .6 else {'pw': pw(), 'kf': kf()}
                w.run(dict({'op': 'read', 's': s, 'f': f}, **c))
            elif r < .90:
                f = rng.choice(files)
                rc = rightcred(f)
                w.run(dict({'op': 'probe', 'f': f, 'stream': rng.random() < .5}, **rc))
                for _ in range(3):
                    w.run({'op': 'probe', 'f': f, 'pw': pw(), 'kf': kf(), 'tk': tkof() if rng.random() < .2 else 'none', 'stream': rng.random() < .5})
            elif r < .92:
                n += 1
                w.run({'op': 'peek', 's': 's%d' % n, 'f': rng.choice(files)})
            elif r < .95:
                w.run({'op': 'plant', 'f': rng.choice(F), 'pw': pw(), 'kf': kf(), 'junk': rng.random() < .4})
            elif r < .96:
                if len(files) > 1 or rng.random() < .3:
                    f = rng.choice(files)
                    if os.path.exists(w.path(f)):
                        w.run({'op': 'rm', 'f': f})
            elif r < .98:
                k = rng.choice(['k0', 'k1', 'k2'])
                if rng.random() < .3 and w.kfc[k] is not None:
                    w.run({'op': 'kfrm', 'kf': k})
                else:
                    w.run({'op': 'kfwrite', 'kf': k, 'content': rng.choice(kcs)})
            elif left:
                left -= 1
                n += 1
                w.run({'op': 'create', 's': 's%d' % n, 'f': rng.choice(F), 'pw': pw(), 'kf': kf(), 'tk': tkof() if rng.random() < .2 else 'none',
                       'dir': rng.choice(['ok'] * 6 + ['missing'])})
        while left and not w.dead:
            left -= 1
            n += 1
            w.run({'op': 'create', 's': 's%d' % n, 'f': rng.choice(F), 'pw': pw(), 'kf': kf(), 'tk': tkof() if rng.random() < .2 else 'none'})
            if rng.random() < .5 and 's%d' % n in w.ss:
                w.run({'op': 'edit', 's': 's%d' % n})
        return w
    finally:
        w.close()


WS = ['\n', '\r\n', '\r', '\t', ' ', '\x00', '\u200b', '\ufeff', '\xa0', '\x0b', '\u3000', '\x1a', '\x7f']


def near(rng, b):
    """passwords that are easily confused with b"""
    import unicodedata
    out = [b + x for x in WS] + [x + b for x in WS] + [b.upper(), b.lower(), b.swapcase(), b.strip(), b.casefold()]
    out += [unicodedata.normalize(f, b) for f in ('NFC', 'NFD', 'NFKC', 'NFKD')]
    out += [b[:-1], b[1:], b * 2, b[::-1], b[:8], b[:16], b[:32], b[:64], b[:72], b[:128], b[:256], b[:512], b[:1024], b[:4096], b[:65536], b + 'a', b.split('\x00')[0], b.split('\n')[0], ' '.join(b.split())]
    out += [repr(b), '"%s"' % b, b.replace('\\', '\\\\'), b.encode().hex(), K.sha(b.encode()).hex(), b.replace('&', '&amp;'), b.replace('\r\n', '\n'), b.replace('\n', '\r\n')]
    for enc in ('latin-1', 'cp1252'):
        try:
            out.append(b.encode('utf-8').decode(enc))
        except UnicodeError:
            pass
    for enc, how in (('ascii', 'ignore'), ('ascii', 'replace'), ('ascii', 'backslashreplace'), ('ascii', 'xmlcharrefreplace'), ('latin-1', 'ignore'), ('latin-1', 'replace')):
        out.append(b.encode(enc, how).decode(enc))
    if len(b) > 200:    # the end of a long one counts like its beginning
        out += [b[:-1] + '#', b[:-1]] * 4
    if b:
        i = rng.randrange(len(b))
        out += [b[:i] + chr((ord(b[i]) ^ 1) or 33) + b[i + 1:], b[:i] + b[i + 1:], b[:i] + '?' + b[i + 1:]]
    res = []
    for x in out:
        try:
            x.encode('utf-8')
        except UnicodeError:
            continue
        if x and x != b and x not in res:
            res.append(x)
    return res


def nearmiss(seed, n):
    """Every credential that resembles the right one is refused, before and after it is changed."""
    rng = random.Random(seed)
    base = rng.choice(['pw', 'Secret pass', ' pw', 'pw\n', 'a\r\nb', 'p\u00e4ss', 'pa\u0308ss', '\u212b', 'x' * 71 + 'yz', 'x' * 127 + 'yz', 'x' * 300, 'None', '',
                       '\U0001F511"\'<&', 'a\x00b', '{REF:P}', '\ufeffpw', '\tpw\t', '0', 'pw\x00', '\u0130', '\u00df', 'False', '\ufb01', 'a\\nb', 'true',
                       'long ' * 250, '\u00e4\u20ac' * 3000, 'x' * 70000 + 'end'])
    ns = near(rng, base)
    pws = {'none': None, 'w0': '', 'b': base}
    for i, x in enumerate(rng.sample(ns, min(len(ns), n))):
        pws['n%d' % i] = x
    if base == '':
        del pws['w0']
    k = bytes(rng.getrandbits(8) for _ in range(rng.choice([32, 64, 100, 3])))
    kb = rng.choice([k, k.hex().encode(), k + b'\n', b'', b'text key\n'])
    kn = [x for x in [kb + b'\n', kb.strip(), kb[:-1], kb + b'\0', kb[:32], kb + kb, kb.upper(), b'', K.sha(kb), K.sha(kb).hex().encode(), base.encode(), kb.replace(b'\n', b'\r\n')] if x != kb]
    w = World(rng, pws, {'k0': kb, 'k1': rng.choice(kn), 'k2': rng.choice(kn)}, version=rng.choice([(3, 1), (4, 0), (4, 1)]))
    try:
        w.start()
        cred = rng.choice([('b', 'none'), ('b', 'none'), ('b', 'k0'), ('none', 'k0'), ('none', 'none')])
        w.run({'op': 'plant', 'f': 'fa', 'pw': cred[0], 'kf': cred[1]})

        def sweep():
            w.run({'op': 'probe', 'f': 'fa', 'pw': cred[0], 'kf': cred[1], 'stream': False})
            for x in sorted(pws):
                w.run({'op': 'probe', 'f': 'fa', 'pw': x, 'kf': cred[1], 'stream': rng.random() < .5})
            for x in ('none', 'k0', 'k1', 'k2'):
                w.run({'op': 'probe', 'f': 'fa', 'pw': cred[0], 'kf': x, 'stream': rng.random() < .5})
            w.run({'op': 'probe', 'f': 'fa', 'pw': 'none', 'kf': 'none', 'stream': rng.random() < .5})
        sweep()
        w.run({'op': 'open', 's': 's1', 'f': 'fa', 'pw': cred[0], 'kf': cred[1]})
        for _ in range(2):
            if w.dead or 's1' not in w.ss:
                break
            if rng.random() < .7:
                cred = (rng.choice(sorted(pws)), cred[1])
                w.run({'op': 'setpw', 's': 's1', 'pw': cred[0]})
            else:
                cred = (cred[0], rng.choice(['none', 'k0', 'k1', 'k2']))
                w.run({'op': 'setkf', 's': 's1', 'kf': cred[1]})
            if w.dead:
                break
            w.run({'op': 'save', 's': 's1'})
            if rng.random() < .5:
                w.run({'op': 'reload', 's': 's1'})
            if not w.dead:
                sweep()
        return w
    finally:
        w.close()


def replay(paths, seed):
    """Replays one model path; recorded as a trace."""
    rng = random.Random(seed)
    w = World(rng, {'none': None, 'w0': '', 'w1': 'pw'}, {'k1': b'k' * 32 if rng.random() < .5 else b'some key'}, version=rng.choice([(3, 1), (4, 0)]))
    try:
        with open(w.path('fa'), 'wb') as fh:
            fh.write(w.plant_bytes('w1', 'none'))
        w.path('fb')
        w.start()
        fa = w.events[0]['post']['fs']['fa']
        fb = bytes(rng.getrandbits(8) for _ in range(32))
        t = w.tok(fb)
        w.tks[t] = fb
        m = {'p1|w1|none': fa['k'], 'foreign': t, 'none': 'none'}
        for ev in paths:
            ev = dict(ev, tk=m[ev['tk']])
            w.run(ev)
            if w.dead:
                break
        return w
    finally:
        w.close()


# ------------------------------------------------------------------ validation
def validate(recs):
    fd, path = tempfile.mkstemp(suffix='.ndjson')
    idx = []
    with os.fdopen(fd, 'w') as f:
        for ti, (events, script, pyf, meta) in enumerate(recs):
            for i, e in enumerate(events):
                f.write(json.dumps(e) + '\n')
                idx.append((ti, i))
    try:
        fails = []
        if idx:
            rc, out = tlc.run('VaultTrace', env={'TRACE': path})
            pr = tlc.printed(out, 'FAILS ')
            if not pr and tlc.outside(out):
                if len(recs) > 1:
                    m = len(recs) // 2
                    n1, f1 = validate(recs[:m])
                    n2, f2 = validate(recs[m:])
                    return n1 + n2, f1 + [dict(x, trace=x['trace'] + m) for x in f2]
                fails.append({'trace': 0, 'i': 0, 'l': 1, 'op': 'noop', 'res': 'ok', 'f': {'c': 'fatal', 'x': 'outside', 'k': out[-1500:]}})
                pr = [{'fails': []}]
            if not pr:
                raise tlc.TLCError('VaultTrace: ' + out[-2500:])
            for x in pr[0]['fails']:
                x['trace'], x['i'] = idx[x['l'] - 1]
                fails.append(x)
        for ti, r in enumerate(recs):
            for x in r[2]:
                fails.append(dict(x, trace=ti, i=x['l'] - 1))
        return len(idx), fails
    finally:
        os.unlink(path)


def props(x):
    c, k, op, res = x['f']['c'], x['f']['k'], x['op'], x['res']
    s = set()
    if c == 'outcome':
        s |= {'open': {'C03', 'C01'}, 'probe': {'C03'}, 'read': {'C03', 'C15'}, 'reload': {'C17', 'C03'}, 'save': {'C17', 'C03', 'C01'},
              'saveas': {'C17', 'C15'}, 'savestream': {'C17', 'C01'}, 'create': {'C17', 'C03'}, 'peek': {'C19'}, 'setpw': {'C18', 'C15'},
              'setkf': {'C18', 'C15'}, 'edit': {'C17'}}.get(op, set())
        if res != 'ok' and op in ('open', 'probe', 'read', 'reload', 'peek'):
            s |= {'C04', 'C03'}
        if x['f']['x'] == 'ok':
            s |= {'C15'}
    elif c == 'file':
        s |= {'k': {'C03'}, 'b': {'C01', 'C17', 'C06'}, 'mkc': {'C18', 'C01', 'C17'}, 'p': {'C01', 'C19', 'C06'}, 'r': {'C19', 'C01'}}.get(k, {'C17', 'C02'})
    elif c == 'sess':
        s |= {'f': {'C17'}, 'pw': {'C17', 'C03'}, 'kf': {'C17', 'C03'}, 'b': {'C17', 'C01'}, 'mkc': {'C18'}, 'r': {'C19'}, 'open': {'C19'}}.get(k, {'C17'})
        if op in ('setpw', 'setkf') and k in ('pw', 'kf'):
            s.add('C03')
        if op == 'peek':
            s.add('C19')
    elif c == 'stray':
        s |= {'C17', 'C02'}
    elif c == 'report':
        s |= {'C19'}
    elif c == 'blank':
        s |= {'C17'}
    elif c == 'fatal':
        s |= {'C%02d' % i for i in range(1, 30)}
    if res != 'ok':
        s.add('C15')
    return s


def _pack(w, meta):
    return (w.events, w.script, w.pyfails, meta)


def _guarded(fn, meta):
    signal.signal(signal.SIGALRM, core._alarm)
    signal.alarm(200 if not core._hangs else 40 if core._hangs < 4 else 10)
    try:
        return _pack(fn(), meta)
    except Exception as e:
        return ([], [], [{'l': 1, 'op': 'open', 'res': 'ok', 'f': {'c': 'fatal', 'x': type(e).__name__, 'k': str(e)[:100]}}], dict(meta, tb=traceback.format_exc()[-1500:]))
    finally:
        signal.alarm(0)


def _job(a):
    kind, items, arg = a
    recs = []
    for it in items:
        if kind == 'walk':
            recs.append(_guarded(lambda: walk(it, *arg), {'seed': it}))
        elif kind == 'near':
            recs.append(_guarded(lambda: nearmiss(it, *arg), {'seed': it}))
        else:
            recs.append(_guarded(lambda: replay(it['p'] + [it['ev']], arg), {'model': True}))
    n, fails = validate(recs)
    ops = {}
    for r in recs:
        for e in r[0]:
            k = e['op'] + ('' if e.get('res', 'ok') == 'ok' else ':' + e['res'])
            ops[k] = ops.get(k, 0) + 1
    return {'traces': len([r for r in recs if r[0]]), 'events': n, 'fails': core._summ(recs, fails), 'ops': ops, 'sample': recs[0][1][:10] if recs else None}


def report(check, res, what):
    for r in res:
        check.add('traces_validated_against_impl', r['traces'])
        check.add('events', r['events'])
        for k, v in r['ops'].items():
            d = check.cov.setdefault('calls', {})
            d[k] = d.get(k, 0) + v
        if r['sample']:
            check.sample({what: r['sample']})
        for f in r['fails']:
            x = f['fail']
            if check.pid in props(x) or x['f']['c'] == 'fatal':
                check.violation('vault/%s/%s/%s/%s' % (x['op'], x['res'], x['f']['c'], x['f']['k']),
                                '%s: %s -> %s: %s %s %s; last calls: %s' % (what, x['op'], x['res'], x['f']['c'], x['f']['x'], x['f']['k'], '; '.join(f['script'][-6:])), f)


def walks(check, n, steps, creates=0, salt=0):
    seeds = [vf.SEED * 1000003 + 555 + salt * 7919 + i for i in range(n)]
    m = vf.NPROC if n < 200 else vf.NPROC * 2
    jobs = [('walk', seeds[i::m], (steps, creates)) for i in range(m) if seeds[i::m]]
    report(check, core._pool(jobs, _job), 'sessions and files')


def near_misses(check, n, width):
    seeds = [vf.SEED * 1000003 + 99 + i for i in range(n)]
    m = vf.NPROC * 2
    jobs = [('near', seeds[i::m], (width,)) for i in range(m) if seeds[i::m]]
    report(check, core._pool(jobs, _job), 'near misses')


MC_OPS = ["open", "opentk", "read", "reload", "save", "savetk", "saveas", "setpw", "setkf", "edit", "peek", "rm"]


def exhaustive(check, name, limit, ops=MC_OPS, L=4, maxedit=2, files=('fa', 'fb'), sess=('s1', 's2')):
    q = lambda xs: '{' + ','.join('"%s"' % x for x in xs) + '}'
    cfg = ("SPECIFICATION Spec\nVIEW View\nCHECK_DEADLOCK FALSE\nINVARIANTS OnlyRightCredentials\n"
           "PROPERTIES Isolated NotEarlier ReloadShows SaveReopens ParamsKept\nCONSTANTS\nOPS=%s\nFILES=%s\nSESS=%s\n"
           "PWS={\"none\",\"w0\",\"w1\"}\nKFS={\"none\",\"k1\"}\nTKS={\"p1|w1|none\",\"foreign\"}\nMaxLen=%d\nMaxEdit=%d\nEMIT=TRUE\n" % (
               q(ops), q(files), q(sess), L, maxedit))
    rc, out = tlc.run('VaultMC', cfg=cfg, workers=1, heap='6g')
    if rc != 0:
        raise tlc.TLCError('VaultMC %s: %s' % (name, '\n'.join(l for l in out.splitlines() if not l.startswith('"TR '))[-2500:]))
    trs = tlc.printed(out, 'TR ')
    g, d = tlc.stats(out)
    check.add('states', d)
    check.add('transitions', len(trs))
    check.cov.setdefault('models', {})[name] = {'states': d, 'transitions': len(trs), 'constants': 'L=%d edits=%d' % (L, maxedit), 'ops': list(ops)}
    if len(trs) > limit:
        rng = random.Random(vf.SEED)
        trs = [trs[i] for i in sorted(rng.sample(range(len(trs)), limit))]
    check.cov['models'][name]['replayed'] = len(trs)
    check.sample({'model transition (%s)' % name: trs[len(trs) // 2]})
    n = vf.NPROC * 2
    jobs = [('replay', trs[i::n], vf.SEED * 31 + i) for i in range(n) if trs[i::n]]
    report(check, core._pool(jobs, _job), 'model transition (%s)' % name)

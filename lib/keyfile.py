"""Conformance of key file handling with spec/KeyFile.tla."""
import base64
import hashlib
import io
import os
import random
import shutil
import tempfile
from pathlib import Path

from lxml import etree

import dbgen
import judge
import kdbxlib as K
import tlc
import vf
from pykeepass import PyKeePass
from pykeepass.exceptions import CredentialsError

BIG = [255, 256, 257, 1000, 4095, 4097, 8193, 10001, 16385, 32769, 65535, 65537, 100000, 131073, 262145, 1000001, 1048577, 2500000]
HEXL, HEXU = '0123456789abcdef', '0123456789ABCDEF'


def plain(s, rng):
    n, a = s['len'], s['alph']
    if a in ('lower', 'upper', 'mixed', 'digits'):
        al = {'lower': HEXL, 'upper': HEXU, 'mixed': 'abcdefABCDEF0123456789', 'digits': '0123456789'}[a]
        t = ''.join(rng.choice(al) for _ in range(n))
        if n >= 2 and a != 'digits':
            t = {'lower': 'a', 'upper': 'F', 'mixed': 'aF'}[a] + t[len({'lower': 'a', 'upper': 'F', 'mixed': 'aF'}[a]):]
        return t.encode()
    if a == 'almost':
        b = bytearray(rng.choice(HEXL).encode() * n)
        if n:
            b[rng.choice([0, n - 1, rng.randrange(n)])] = rng.choice(b'gG \n\x00xz:/@`\xff')
        return bytes(b)
    return {'bytes': rng.randbytes(n), 'zeros': bytes(n), 'text': ('x<y>' * n)[:n].encode(), 'spaces': rng.choice([b' ', b'\n']) * n}[a]


def xml(s, rng):
    key = rng.randbytes(s['size'])
    if rng.random() < .1:
        key = bytes(s['size'])
    d = s['data']
    inner = ''
    if d.startswith('b64'):
        t = base64.b64encode(key).decode()
        if d == 'b64 wrapped':
            k = rng.randint(1, max(1, len(t) - 1))
            t = rng.choice(['\n\t\t', '  ', '\r\n']) + t[:k] + rng.choice(['\n', '', '\n      ']) + t[k:] + rng.choice(['\n', '\t', ''])
    elif d.startswith('hex'):
        t = key.hex()
        if d == 'hex upper':
            t = t.upper()
        if d == 'hex grouped':
            t = t.upper()
            t = '\n\t\t\t' + ' '.join(t[i:i + 8] for i in range(0, len(t), 8)).replace(' ', '\n\t\t\t', 3) + '\n\t\t'
    h = ''
    if s['hash'] != 'none':
        x = hashlib.sha256(key).hexdigest()[:8]
        if s['hash'] == 'wrong':
            x = rng.choice(['%08x' % (int(x, 16) ^ 1 << rng.randrange(32)), '00000000' if x != '00000000' else '11111111', x[:6], x + '00'])
        if s['hash'] != 'right lower':
            x = x.upper()
        h = ' Hash="%s"' % x
    data = '' if d == 'missing' else '<Data%s>%s</Data>' % (h, t)
    ver = '' if s['ver'] == 'none' else '<Version>%s</Version>' % s['ver']
    w = s['wrap']
    nl = '\n\t' if w == 'indent' else ''
    meta = '<Meta>%s%s%s</Meta>' % (nl, ver, nl)
    ke = '<Key>%s%s%s</Key>' % (nl, data, nl)
    if w == 'extra':
        meta = meta.replace('</Meta>', '<Generator>x</Generator></Meta>') + '<Other><Data>AAAA</Data><Version>9</Version></Other>'
    if w == 'comment':
        meta = '<!-- 2.0 -->' + meta
        ke = ke.replace('<Key>', '<Key><!-- <Data>x</Data> -->')
    doc = '<KeyFile>%s%s%s%s%s</KeyFile>' % (nl, *((ke, nl, meta) if w == 'key first' else (meta, nl, ke)), nl)
    if w == 'declaration' or rng.random() < .3:
        doc = '<?xml version="1.0" encoding="%s"?>%s' % ('utf-16' if w == 'utf16' else rng.choice(['utf-8', 'UTF-8']), rng.choice(['', '\n'])) + doc
    if w == 'tail':
        doc += '\n\n'
    b = doc.encode('utf-16' if w == 'utf16' else 'utf-8')
    if w == 'bom':
        b = b'\xef\xbb\xbf' + b
    if w == 'truncated':
        b = b[:rng.randint(1, len(b) - 1)] if rng.random() < .5 else b[:-1]
    return b, key


def parts(b):
    x = {'wf': False, 'hasver': False, 'hasdata': False, 'ver': [], 'data': [], 'hash': []}
    try:
        r = etree.fromstring(b)
    except (etree.XMLSyntaxError, ValueError):
        return x
    v, d = r.find('Meta/Version'), r.find('Key/Data')

    def codes(t):
        return list(t.encode('utf-8'))
    x['wf'] = True
    if v is not None and v.text:
        x.update(hasver=True, ver=codes(v.text))
    if d is not None and d.text:
        x.update(hasdata=True, data=codes(d.text), hash=codes(d.get('Hash') or ''))
    return x


class Src:
    """the ways to hand over a key file"""
    HOWS = ['str', 'path', 'stream', 'stream at end', 'stream inside', 'file', 'file at end', 'file inside']

    def __init__(self, top, b, rng):
        self.b, self.rng = b, rng
        self.fn = os.path.join(top, rng.choice(['key', 'key.keyx', 'key.key', 'a b.xml', 'k\u00e9y']))
        with open(self.fn, 'wb') as f:
            f.write(b)
        self.open = []

    def get(self, how):
        if how == 'str':
            return self.fn
        if how == 'path':
            return Path(self.fn)
        s = io.BytesIO(self.b) if how.startswith('stream') else open(self.fn, 'rb')
        self.open.append(s)
        if how.endswith('end'):
            s.read()
        elif how.endswith('inside'):
            s.seek(self.rng.randint(0, len(self.b)))
        return s

    def close(self):
        for s in self.open:
            s.close()


def job(a):
    shape, seed = a
    rng = random.Random(seed)
    key = None
    if shape['t'] == 'plain':
        b = plain(shape, rng)
    elif shape['t'] == 'xml':
        b, key = xml(shape, rng)
    else:
        # a neighbour of a shape: one byte changed, added or removed
        b = plain(shape['of'], rng) if shape['of']['t'] == 'plain' else xml(shape['of'], rng)[0]
        b = bytearray(b)
        r = rng.random()
        if r < .3 or not b:
            b.insert(rng.randint(0, len(b)), rng.choice(b'\n 0aFg\x00\xff'))
        elif r < .6:
            del b[rng.randrange(len(b))]
        else:
            b[rng.randrange(len(b))] = rng.choice(b'\n 0aFg\x00\xff<>')
        b = bytes(b)
    x = parts(b)
    # only what is defined: an XML key file whose data can be decoded
    dt = bytes(x['data'])
    sp = b''.join(dt.split())
    v = bytes(x['ver'])
    hexok = len(sp) % 2 == 0 and all(c in b'0123456789abcdefABCDEF' for c in sp)
    try:
        b64ok = len(base64.b64decode(sp, validate=True)) > 0
    except Exception:
        b64ok = False
    if x['hasver'] and v[:3] in (b'1.0', b'2.0') and x['wf']:
        if not x['hasdata'] or not sp:
            # version without (or with blank) data: defined only if there is no Data element
            d = etree.fromstring(b).find('Key/Data')
            if d is not None:
                return []
        elif v[:3] == b'1.0' and not b64ok:
            return []
        elif v[:3] == b'2.0' and not (hexok and x['hash'] and len(b''.join(bytes(x['hash']).split())) % 2 == 0 and all(c in b'0123456789abcdefABCDEF \n' for c in x['hash'])):
            return []
    maj = rng.choice([3, 4])
    g = dbgen.Gen(rng, (maj, 1))
    root, bins = g.db(ngroups=1, nentries=1, nbin=0)
    p = dbgen.random_params(rng, (maj, 1))
    if p.cipher == 'twofish':
        p.cipher, p.iv = 'aes256', p.iv.ljust(16)[:16]
    pw = rng.choice([None, None, 'pw', ''])
    pwh = b'' if pw is None else K.sha(pw.encode())
    keys = [('sha', K.sha(b)), ('raw', b)]
    if len(b) % 2 == 0 and all(c in b'0123456789abcdefABCDEF' for c in b):
        keys.append(('hex', bytes.fromhex(b.decode())))
    if key is not None:
        keys.append(('key', key))
    if x['hasdata']:
        if hexok:
            keys.append(('hexdata', bytes.fromhex(sp.decode())))
        if b64ok:
            keys.append(('b64data', base64.b64decode(sp)))
    keys.append(('none', b''))
    uniq = []
    for n, k in keys:
        if k not in [u[1] for u in uniq]:
            uniq.append((n, k))
    top = tempfile.mkdtemp(prefix='kf')
    src = Src(top, b, rng)
    cand = []
    log = []
    again = ''
    try:
        for n, k in uniq:
            tk = K.transform(p.kdf, K.sha(pwh + k))
            data = K.encode(p, root, bins, tk=tk)
            how = rng.choice(Src.HOWS)
            fn = os.path.join(top, 'db%d.kdbx' % len(cand))
            with open(fn, 'wb') as f:
                f.write(data)
            kf = src.get(how)
            try:
                kp = PyKeePass(fn, password=pw, keyfile=kf)
                res = 'opened'
            except CredentialsError:
                res = 'CredentialsError'
            except (Exception, AssertionError) as e:
                res = type(e).__name__
            cand.append({'key': list(k) if n != 'sha' else [-1], 'sha4': list(K.sha(k)[:4]), 'how': how, 'res': res, '_n': n})
            if res == 'opened':
                # the same object again, wherever its position is now
                try:
                    for step in rng.sample(['reload', 'save', 'save', 'new', 'moved'], 3):
                        if step == 'moved' and hasattr(kf, 'seek'):
                            kf.seek(rng.randint(0, len(b)))
                        if step == 'reload':
                            kp.reload()
                        elif step == 'save':
                            kp.save()
                            if n != 'none' or True:
                                K.decode(open(fn, 'rb').read(), tk=K.transform(K.read_header(open(fn, 'rb').read()).kdf, K.sha(pwh + k)))
                        elif step == 'new':
                            PyKeePass(fn, password=pw, keyfile=kf)
                except Exception as e:
                    again = '%s after opening with %s (%s)' % (step, how, type(e).__name__)
        # assigned and saved
        tried = rng.random() < .5
        saved = 0
        if tried:
            data = K.encode(p, root, bins, password='x')
            kp = PyKeePass(io.BytesIO(data), password='x')
            how = rng.choice(Src.HOWS)
            try:
                kp.password = pw
                kp.keyfile = src.get(how)
                out = io.BytesIO()
                kp.save(out)
            except (Exception, AssertionError) as e:
                saved = -1
                log.append(type(e).__name__)
            else:
                for i, (n, k) in enumerate(uniq):
                    try:
                        K.decode(out.getvalue(), tk=K.transform(p.kdf, K.sha(pwh + k)))
                        saved = i + 1
                    except Exception:
                        pass
    finally:
        src.close()
        shutil.rmtree(top, ignore_errors=True)
    for c in cand:
        c.pop('_n')
    # of a long content that is not XML only the beginning is told: every length but 32 and 64 is the same to the specification
    return [{'k': 'keyfile', 'b': list(b if len(b) < 2000 or x['wf'] else b[:100]), 'x': x, 'cand': cand, 'saved': saved, 'tried': tried, 'again': again,
             '_': {'shape': shape, 'seed': seed, 'content': repr(b)[:300], 'pw': pw, 'log': log}}]


def keyfiles(check, limit, near):
    rc, out = tlc.run('KeyFileMC', cfg='SPECIFICATION Spec\nCONSTANT EMIT = TRUE\nINVARIANT OneRule\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n')
    if rc != 0:
        raise tlc.TLCError('KeyFileMC: ' + out[-2000:])
    g, d = tlc.stats(out)
    check.add('states', d)
    check.add('transitions', g)
    shapes = [x['s'] for x in tlc.printed(out, 'KF ')]
    rng = random.Random(vf.SEED)
    pl = [s for s in shapes if s['t'] == 'plain']
    xs = [s for s in shapes if s['t'] == 'xml']
    rng.shuffle(xs)
    # every combination of version, data and hash first
    seen, first, rest = {}, [], []
    for s in xs:
        k = (s['ver'], s['data'], s['hash'])
        (first if seen.setdefault(k, 0) < 4 else rest).append(s)
        seen[k] += 1
    use = pl * 4 + first + rest[:limit]
    check.cov['shapes'] = len(shapes)
    check.cov['shapes_tried'] = len(use) - 3 * len(pl)
    use += [{'t': 'plain', 'len': n, 'alph': rng.choice(['bytes', 'bytes', 'text', 'digits', 'zeros'])} for n in BIG]
    use += [{'t': 'near', 'of': rng.choice(pl if rng.random() < .6 else xs)} for _ in range(near)]
    judge.run(check, 'key file', job, [(s, vf.SEED * 77003 + i) for i, s in enumerate(use)], 'KeyFileTrace', shards=vf.NPROC * 2)

"""Conformance of the container layer with spec/Kdbx.tla: foreign files of every configuration, damaged
files, layout of written files, reported parameters."""
import base64
import hashlib
import io
import os
import random
import shutil
import struct
import tempfile

from lxml import etree

import dbgen
import driver
import judge
import kdbxlib as K
import project as P
import tlc
import vf
from pykeepass import PyKeePass
from pykeepass.exceptions import CredentialsError, HeaderChecksumError, PayloadChecksumError

PW = 'pässword "1"'
ERRS = ((HeaderChecksumError, 'HeaderChecksumError'), (PayloadChecksumError, 'PayloadChecksumError'), (CredentialsError, 'CredentialsError'))


def tok(root, bins):
    """Token of a whole database: every element, attribute and text in order, and all binaries."""
    h = hashlib.sha256()

    stack = [(root, 0)]
    out = []
    while stack:
        el, d = stack.pop()
        kids = list(el)
        text = el.text or ''
        if (kids and not text.strip()) or el.tag == 'HeaderHash':
            text = ''
        out.append(repr((d, str(el.tag), sorted(el.attrib.items()), text, (el.tail or '').strip())))
        for k in reversed(kids):
            stack.append((k, d + 1))
    h.update('\n'.join(out).encode('utf-8', 'surrogatepass'))
    for b in bins:
        h.update(b'|%d|' % len(b) + b)
    return h.hexdigest()[:24]


def tok_kp(kp):
    # content through the session; KDBX4 binaries with their protection flag
    if kp.version[0] == 4:
        bins = [bytes(b.data) for b in kp.payload.inner_header.binary]
    else:
        bins = []
    return tok(kp.tree.getroot(), bins) + tok(etree.Element('x'), kp.binaries)


def tok_dec(d):
    bins = d.binaries if d.version[0] == 4 else []
    data = [b[1:] for b in d.binaries] if d.version[0] == 4 else P.kdbx3_binaries(d.root)
    return tok(d.root, bins) + tok(etree.Element('x'), data)


def par(h):
    """container parameters of a file"""
    return {'version': '%d.%d' % h.version, 'cipher': h.cipher, 'compression': str(h.compression),
            'kdf': repr(sorted((k, v) for k, v in h.kdf.items())), 'stream': h.stream,
            'extra': repr([(i, v) for i, v in h.fields if i in (1, 12)]), 'kdfitems': repr(sorted(map(repr, getattr(h, 'vd', None) or [])))}


def facts(h, tk=None):
    d = {'version': '%d.%d' % h.version, 'cipher': h.cipher, 'kdf': h.kdf['name'], 'salt': bytes(h.kdf['S']).hex()}
    if tk is not None:
        d['tk'] = tk.hex()
    return d


def reported(kp, tk=True):
    d = {'version': '%d.%d' % tuple(kp.version), 'cipher': str(kp.encryption_algorithm), 'kdf': str(kp.kdf_algorithm), 'salt': bytes(kp.database_salt).hex()}
    if tk:
        d['tk'] = bytes(kp.transformed_key).hex()
    return d


CONTENT = {
    'tree': lambda kp: kp.tree, 'payload': lambda kp: kp.payload, 'entries': lambda kp: kp.entries, 'groups': lambda kp: kp.groups,
    'root_group': lambda kp: kp.root_group, 'xml': lambda kp: kp.xml(), 'find_entries': lambda kp: kp.find_entries(title='a'),
    'find_groups': lambda kp: kp.find_groups(name='a', first=True), 'attachments': lambda kp: kp.attachments, 'binaries': lambda kp: kp.binaries,
    'database_name': lambda kp: kp.database_name, 'database_description': lambda kp: kp.database_description,
    'default_username': lambda kp: kp.default_username, 'recyclebin_group': lambda kp: kp.recyclebin_group,
    'credchange_date': lambda kp: kp.credchange_date, 'save': lambda kp: kp.save(io.BytesIO())}


def shown(kp):
    out = []
    for k, f in CONTENT.items():
        try:
            f(kp)
        except Exception:
            continue
        out.append(k)
    return out


def params(cfg, rng, rich=False):
    maj = cfg['maj']
    k = dict(name=cfg['kdf'])
    if cfg['kdf'] == 'aeskdf':
        k['R'] = rng.randint(1, 9)
    else:
        k.update(I=rng.randint(1, 2), P=rng.randint(1, 2), V=rng.choice([0x10, 0x13]))
        k['M'] = 8192 * k['P'] * rng.randint(1, 2)
    if rich and rng.random() < .4:
        k = dbgen.rich_kdf(rng, k, maj)
    ex = []
    if cfg['extra'] in ('comment', 'both'):
        ex.append((1, rng.choice([b'a comment \xff', b'a comment \xff', b'', b'\0', b'x' * 300, rng.randbytes(60000 if rich else 40)])))
    if cfg['extra'] in ('custom', 'both'):
        items = [(0x18, 'k', 'v\u00e9'), (0x04, 'n', 7), (0x08, 'f', True), (0x42, 'b', b'\0\1'), (0x0C, 'i', -5), (0x0D, 'j', -2**40), (0x05, 'q', 2**40)]
        if rng.random() < .3:
            items = rng.sample(items, rng.randint(0, 3))
        ex.append((12, K.vd_build(items)))
    p = K.Params(version=(maj, cfg['min']), cipher=cfg['cipher'], kdf=k, compression=cfg['comp'], stream=cfg['stream'],
                 blocks={'one': 2**20, 'small': [64], 'mixed': [100, 16, 1000, 1], 'tiny': [7]}[cfg['blocks']], rng=rng,
                 extra_fields=ex, order=None, header_hash=cfg['hh'])
    if cfg['order'] == 'shuffled':
        p.order = rng.randint(0, 10**6)
    elif cfg['order'] == 'reversed':
        p.order = 'rev'
    return p


_rand = random.Random


class _Rev:
    def shuffle(self, f):
        f.reverse()


def _header(p):
    if p.order == 'rev':
        orig = K.random.Random
        K.random.Random = lambda *_: _Rev()
        try:
            return K.Params.header(p)
        finally:
            K.random.Random = orig
    return K.Params.header(p)


def encode(p, root, bins, pw, kf=None):
    p.header = lambda: _header(p)
    return K.encode(p, root, bins, pw, kf)


def edit(kp, rng):
    """some typical edits"""
    for _ in range(rng.randint(0, 4)):
        r = rng.random()
        if r < .3:
            kp.add_entry(rng.choice(kp.groups), 't%d' % rng.randint(0, 999), dbgen.text(rng), dbgen.text(rng), notes=dbgen.text(rng), otp=rng.choice([None, 'otp%d' % rng.randint(0, 9)]),
                         force_creation=True)
        elif r < .5 and kp.entries:
            rng.choice(kp.entries).password = dbgen.text(rng)
        elif r < .6 and kp.entries:
            rng.choice(kp.entries).save_history()
        elif r < .75 and kp.entries:
            rng.choice(kp.entries).set_custom_property('k', dbgen.text(rng), protect=rng.random() < .6)
        elif r < .9 and kp.entries:
            i = kp.add_binary(bytes(rng.getrandbits(8) for _ in range(rng.choice([0, 1, 16, 300]))), protected=rng.random() < .5, compressed=rng.random() < .5)
            rng.choice(kp.entries).add_attachment(i, 'f')
        else:
            kp.add_group(kp.root_group, 'ng')


def io_event(data, pw, kf, rng, edits=True, how='stream', what=None, nd=True, editor=edit, tk=None):
    """open, edit, save, decode independently, reopen: one event for the judge.  kf: bytes or None; tk: open with this transformed key instead"""
    exc = []
    e = {'k': 'io', 'put': '', 'got': '', 'mem': '', 'mem2': '', 'dec': '', 're': '', 'par0': {'extra': ''}, 'par1': {'extra': ''}, 'lay': [], 'reps': [], 'shown': [],
         'exc': exc, '_': what}
    tmp = tempfile.mkdtemp(prefix='cont')
    kfo = None
    try:
        if kf is not None:
            kfo = os.path.join(tmp, 'k')
            with open(kfo, 'wb') as f:
                f.write(kf)
        path = os.path.join(tmp, 'db.kdbx')
        with open(path, 'wb') as f:
            f.write(data)
        src = lambda: path if how == 'path' else io.BytesIO(data)
        cred = dict(transformed_key=tk) if tk else dict(password=pw, keyfile=kfo)
        d0 = K.decode(data, pw, kf, tk=tk)
        e['put'] = tok_dec(d0)
        e['par0'] = par(d0)
        try:
            kp = PyKeePass(src(), **cred)
        except Exception as x:
            exc += [{'p': p, 'c': 'a valid file does not open: %s' % type(x).__name__} for p in ('C06', 'C01', 'C19')]
            e['par0'] = e['par1']
            e['put'] = ''
            return e
        e['got'] = tok_kp(kp)
        e['reps'].append({'how': 'session', 'file': facts(d0, d0.tk), 'rep': reported(kp)})
        if nd:
            for w, a in (('without decryption', {}), ('without decryption but with credentials', dict(password=pw, keyfile=kfo))):
                try:
                    n = PyKeePass(src(), decrypt=False, **a)
                    e['reps'].append({'how': w, 'file': facts(d0, d0.tk if a else None), 'rep': reported(n, bool(a))})
                    e['shown'] += shown(n)
                    if how == 'path':
                        try:
                            n.save()
                        except Exception:
                            pass
                        if open(path, 'rb').read() != data:
                            e['shown'].append('file overwritten')
                except Exception as x:
                    exc.append({'p': 'C19', 'c': w + ' not opened: ' + type(x).__name__})
        if edits:
            editor(kp, rng)
        e['mem'] = tok_kp(kp)
        root = kp.tree.getroot()
        try:
            if how == 'path':
                kp.save()
                out = open(path, 'rb').read()
            else:
                s = io.BytesIO()
                kp.save(s)
                out = s.getvalue()
        except Exception as x:
            exc += [{'p': p, 'c': 'save() raised %s' % type(x).__name__} for p in ('C01', 'C06')]
            e['mem2'] = e['dec'] = e['re'] = e['mem']
            e['par1'] = e['par0']
            return e
        e['mem2'] = tok_kp(kp)
        e['lay'] = [K.scan(out, root, pw, kf, tk)]
        try:
            d1 = K.decode(out, pw, kf, tk=tk)
            e['dec'] = tok_dec(d1)
            e['par1'] = par(d1)
            e['reps'].append({'how': 'session after saving', 'file': facts(d1, d1.tk), 'rep': reported(kp)})
        except K.KdbxError as x:
            e['dec'] = 'unreadable %r' % (x.args,)
            e['par1'] = e['par0']
        try:
            k2 = PyKeePass(path if how == 'path' else io.BytesIO(out), **cred)
            e['re'] = tok_kp(k2)
        except Exception as x:
            e['re'] = type(x).__name__
        return e
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def cfg_job(a):
    cfg, seed = a
    rng = random.Random(seed)
    g = dbgen.Gen(rng, (cfg['maj'], cfg['min']))
    slow = cfg['cipher'] == 'twofish'
    if not slow and rng.random() < .03:
        root, bins = g.db(ngroups=rng.choice([2, 40]), nentries=rng.choice([50, 130, 270]), nbin=rng.choice([3, 30, 270]))
    else:
        root, bins = g.db(ngroups=rng.randint(1, 2), nentries=rng.randint(0, 2 if slow else 3), nbin=rng.randint(0, 2))
    kf = rng.choice([None, None, b'some key file', bytes(32), b'ab' * 32])
    pw = rng.choice([PW, '', None, 'x']) if kf else rng.choice([PW, PW, '', 'x'])
    p = params(cfg, rng, True)
    if rng.random() < .08:
        # more rounds than anyone can wait for: only the transformed key opens it
        tk = bytes(rng.randrange(256) for _ in range(32))
        p.kdf['R' if cfg['kdf'] == 'aeskdf' else 'I'] = rng.choice([2**32 - 1, 2**32 + 3, 2**48 + 5] if cfg['kdf'] == 'aeskdf' else [2**31, 2**32 - 1])
        if cfg['kdf'] != 'aeskdf':
            p.kdf['M'] = rng.choice([2**52, 2**52 + 7])
        p.header = lambda: _header(p)
        data = K.encode(p, root, bins, tk=tk)
        return [io_event(data, None, None, rng, how=rng.choice(['stream', 'path']), what={'config': cfg, 'seed': seed}, nd=False, tk=tk)]
    data = encode(p, root, bins, pw, kf)
    return [io_event(data, pw, kf, rng, how=rng.choice(['stream', 'path']), what={'config': cfg, 'seed': seed}, nd=rng.random() < .5 or not slow)]


MODEL = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS NoSilentAccept Accepted Documented Emit EmitCfg\nCONSTANTS NF=%d\nNB=%d\nMaxFaults=%d\nEMIT=TRUE\n"


def model(check, nf=6, nb=3, faults=2):
    rc, out = tlc.run('KdbxMC', cfg=MODEL % (nf, nb, faults), heap='4g')
    if rc != 0:
        raise tlc.TLCError('KdbxMC: ' + '\n'.join(l for l in out.splitlines() if not l.startswith('"'))[-2500:])
    g, d = tlc.stats(out)
    check.add('states', d)
    check.add('transitions', g)
    return tlc.printed(out, 'CF '), tlc.printed(out, 'FT ')


def configs(check, limit):
    cf, _ = model(check, 5, 2, 1)
    rng = random.Random(vf.SEED)
    check.cov['configurations'] = len(cf)
    rng.shuffle(cf)
    if limit < len(cf):
        # twofish is slow: fewer of those
        fast = [c for c in cf if c['cipher'] != 'twofish']
        slow = [c for c in cf if c['cipher'] == 'twofish']
        cf = fast[:limit * 4 // 5] + slow[:limit // 5]
    check.cov['configurations_tried'] = len(cf)
    judge.run(check, 'file configuration', cfg_job, [(c, vf.SEED * 100003 + i) for i, c in enumerate(cf)], 'KdbxTrace', shards=vf.NPROC * 2)


# ------------------------------------------------------------------ damaged files

def outcome(data, want, pw, decrypt=True, how='stream', tmp=None, tk=None):
    cred = {'transformed_key': tk} if tk else {'password': pw}
    try:
        if how == 'stream':
            kp = PyKeePass(io.BytesIO(data), decrypt=decrypt, **cred)
        else:
            path = os.path.join(tmp, 'f.kdbx')
            with open(path, 'wb') as f:
                f.write(data)
            kp = PyKeePass(path, decrypt=decrypt, **cred)
        if not decrypt:
            return 'content'
        return 'content' if tok_kp(kp) == want else 'wrong'
    except ERRS[0][0]:
        return 'HeaderChecksumError'
    except ERRS[1][0]:
        return 'PayloadChecksumError'
    except ERRS[2][0]:
        return 'CredentialsError'
    except judge.Timeout:
        raise
    except Exception:
        return 'other'


def too_costly(data):
    """would a reader of this header be asked for an expensive key derivation?"""
    try:
        minor, major = struct.unpack('<HH', data[8:12])
        i, cost = 12, 0
        while i < len(data):
            fid = data[i]
            if major == 3:
                n, = struct.unpack('<H', data[i + 1:i + 3])
                i += 3
            elif major == 4:
                n, = struct.unpack('<I', data[i + 1:i + 5])
                i += 5
            else:
                return False
            v = data[i:i + n]
            i += n
            if major == 3 and fid == 6 and len(v) >= 8:
                cost = max(cost, struct.unpack('<Q', v[:8])[0])
            if major == 4 and fid == 11:
                j = 2
                while j < len(v) and v[j]:
                    t = v[j]
                    m, = struct.unpack('<I', v[j + 1:j + 5])
                    key = v[j + 5:j + 5 + m]
                    j += 5 + m
                    m, = struct.unpack('<I', v[j:j + 4])
                    x = v[j + 4:j + 4 + m]
                    j += 4 + m
                    if t in (4, 5, 12, 13) and 0 < len(x) <= 64:
                        cost = max(cost, int.from_bytes(x[:8], 'little') // (64 if key == b'M' else 1))
            if fid == 0:
                break
        return cost > 20000
    except struct.error:
        return False


def wellformed(data, maj, end):
    """does the header of these bytes still parse as a KDBX4 header that ends at the same place (whatever its checksum)?"""
    try:
        h = K.read_header(data)
    except Exception:
        return False
    return h.version[0] == maj and h.header_end == end


class Victim:
    def __init__(self, maj, seed, size=''):
        rng = self.rng = random.Random(seed)
        self.maj = maj
        self.size = size
        cfg = {'maj': maj, 'min': rng.randint(0, 1), 'cipher': rng.choice(['aes256', 'aes256', 'chacha20', 'chacha20', 'twofish']),
               'kdf': 'aeskdf' if maj == 3 else rng.choice(['aeskdf', 'aeskdf', 'argon2', 'argon2id']), 'comp': rng.random() < .5,
               'stream': rng.choice(['salsa20', 'chacha20']), 'blocks': 'one', 'order': rng.choice(['usual', 'shuffled']),
               'extra': rng.choice(['none', 'comment'] if maj == 3 else ['none', 'comment', 'custom', 'both']), 'hh': True}
        if size and cfg['cipher'] == 'twofish':
            cfg['cipher'] = 'chacha20'
        self.cfg = cfg
        p = params(cfg, rng)
        g = dbgen.Gen(rng, (maj, cfg['min']))
        root, bins = g.db(ngroups=1, nentries=1, nbin=1)
        if size == 'big':
            # blocks as large as the library writes them
            more = rng.randbytes(rng.randint(900000, 1700000))
            if maj == 4:
                bins[0] = bins[0][:1] + more
            else:
                b = root.find('Meta/Binaries/Binary')
                b.attrib.pop('Compressed', None)
                b.text = dbgen.b64(more)
        data = encode(p, root, bins, PW)
        n = len(data) // rng.randint(1, 4)
        p.blocks = [max(16, n - n % 16)] if rng.random() < .5 else [max(17, n)]
        if size == 'big':
            p.blocks = [2**20] if rng.random() < .7 else [rng.choice([2**19, 2**21, 700000])]
        elif size == 'many':
            # more blocks than fit a byte
            p.blocks = [max(1, len(data) // rng.randint(300, 560))]
        self.p = p
        self.data = encode(p, root, bins, PW)
        self.root, self.bins = root, bins
        if rng.random() < .4 and size != 'many':
            s = io.BytesIO()      # as the library writes it
            PyKeePass(io.BytesIO(self.data), password=PW).save(s)
            self.data = s.getvalue()
        self.d = K.decode(self.data, PW)
        self.want = tok_dec(self.d)
        self.nf = len(self.d.field_pos)
        self.nb = len(self.d.blocks) - 1 if maj == 4 else 0
        # cells: (kind, start, end)
        c = [('sig', 0, 8), ('ver', 8, 12)] + [('field', a, b) for _, a, b in self.d.field_pos]
        h = self.d.header_end
        if maj == 4:
            c += [('sha', h, h + 32), ('hmac', h + 32, h + 64)]
            for a, b in self.d.block_pos:
                c += [('mac', a, a + 32), ('len', a + 32, a + 36), ('data', a + 36, b)]
        else:
            c += [('payload', h, len(self.data))]
        self.cells = c
        # bytes that hold the cost of the key derivation
        self.cost = {}
        self.kdfr = None
        for fid, a, b in self.d.field_pos:
            if maj == 3 and fid == 6:
                self.cost.update({i: i - (a + 3) for i in range(a + 3, b)})
                self.kdfr = (a, b)
            if maj == 4 and fid == 11:
                self.kdfr = (a, b)
                i = a + 5 + 2
                while self.data[i]:
                    i += 1
                    n, = struct.unpack('<I', self.data[i:i + 4])
                    key = self.data[i + 4:i + 4 + n]
                    i += 4 + n
                    n, = struct.unpack('<I', self.data[i:i + 4])
                    if key in (b'I', b'M', b'P', b'R'):
                        self.cost.update({i + 4 + j: j for j in range(n)})
                    i += 4 + n

    def cell_at(self, pos):
        for i, (k, a, b) in enumerate(self.cells):
            if a <= pos < b:
                return i + 1
        return len(self.cells)

    def event(self, fl, data, out, decrypt, cell, wf=True, kdf=False, note=None):
        return {'k': 'fault', 'maj': self.maj, 'fl': fl, 'nf': self.nf, 'nb': self.nb, 'wf': wf, 'kdf': kdf, 'decrypt': decrypt, 'out': out, 'cell': cell,
                '_': {'config': self.cfg, 'note': note, 'len': len(self.data)}}

    def alter(self, pos, new, decrypt=True, forge=False, how='stream', tmp=None):
        """bytes new at pos"""
        data = self.data[:pos] + new + self.data[pos + len(new):]
        if pos < self.d.header_end and too_costly(data):
            return None
        touched = sorted({self.cell_at(q) for q in range(pos, pos + len(new)) if data[q] != self.data[q]})
        if not touched:
            return None
        fl = [{'op': 'alter', 'i': t, 'j': 0} for t in touched]
        wf = wellformed(data, self.maj, self.d.header_end) if any(t <= self.nf + 2 for t in touched) else True
        if forge:
            h = self.d.header_end
            hd = data[:h]
            data = hd + K.sha(hd) + data[h + 32:]
            fl = [{'op': 'forge', 'i': touched[0], 'j': 0}] + [{'op': 'alter', 'i': t, 'j': 0} for t in touched[1:]]
        tk = self.key()
        kdf = not tk and self.kdfr is not None and pos < self.kdfr[1] and pos + len(new) > self.kdfr[0]
        out = outcome(data, self.want, PW, decrypt, how, tmp, tk)
        return self.event(fl, data, out, decrypt, self.cells[touched[0] - 1][0], wf, kdf,
                          {'offset': pos, 'old': self.data[pos:pos + len(new)].hex(), 'new': new.hex(), 'forge': forge, 'by key': bool(tk)})

    def cut(self, n, decrypt=True):
        out = outcome(self.data[:n], self.want, PW, decrypt, tk=self.key())
        return self.event([{'op': 'cut', 'i': self.cell_at(n), 'j': 0}], None, out, decrypt, self.cells[self.cell_at(n) - 1][0], note={'cut': n})

    def blocks(self, op, j, k=0):
        bp = self.d.block_pos
        seg = [self.data[a:b] for a, b in bp]
        if op == 'drop':
            seg = seg[:j] + seg[j + 1:]
        elif op == 'repeat':
            seg = seg[:j + 1] + seg[j:]
        else:
            seg[j], seg[k] = seg[k], seg[j]
        data = self.data[:bp[0][0]] + b''.join(seg)
        return self.event([{'op': op, 'i': j, 'j': k}], data, outcome(data, self.want, PW, tk=self.key()), True, 'block', note={'op': op, 'j': j, 'k': k})

    def key(self):
        """credentials of an opening: the transformed key, or None for the password"""
        return self.d.tk if self.rng.random() < .3 else None

    def bit(self, pos):
        """a small change of the byte at pos that does not blow up the key derivation"""
        b = self.data[pos]
        if pos in self.cost:
            return bytes([b ^ 1]) if self.cost[pos] == 0 else None
        return bytes([b ^ (1 << self.rng.randrange(8))])


def kdbx3_rebuilt(v, kind):
    """KDBX3 payload with a wrong block structure, encrypted with the right key."""
    rng = v.rng
    if kind == 'rehash':
        # the header hash kept in the payload is that of another header
        import copy
        p = copy.copy(v.p)
        i = rng.choice([0, rng.randrange(32), 31])
        p.header_hash = lambda h: h[:i] + bytes([h[i] ^ (1 << rng.randrange(8))]) + h[i + 1:]
        data = encode(p, v.root, v.bins, PW)
        return v.event([{'op': kind, 'i': 0, 'j': 0}], data, outcome(data, v.want, PW, tk=v.key()), True, 'block', note={'kind': kind, 'byte': i})
    p, tk = v.p, v.d.tk
    master = K.sha(v.d.master_seed + tk)
    plain = K.outer_decrypt(v.d.cipher, master, v.d.iv, v.data[v.d.header_end:])
    seg = [plain[a:b] for a, b in v.d.block_pos]
    n = len(seg) - 1
    if kind == 'hash':
        j = rng.randrange(n)
        i = rng.choice([rng.randrange(4, 36), rng.randrange(40, len(seg[j]))])
        seg[j] = seg[j][:i] + bytes([seg[j][i] ^ (1 << rng.randrange(8))]) + seg[j][i + 1:]
    elif n < 2:
        j = rng.randrange(n)
        op = rng.choice(['drop', 'repeat'])
        seg = seg[:j] + seg[j + 1:] if op == 'drop' else seg[:j + 1] + seg[j:]
    else:
        op = rng.choice(['drop', 'repeat', 'swap'])
        j = rng.randrange(n)
        if op == 'drop':
            seg = seg[:j] + seg[j + 1:]
        elif op == 'repeat':
            seg = seg[:j + 1] + seg[j:]
        else:
            k = (j + 1) % n
            seg[j], seg[k] = seg[k], seg[j]
    plain = plain[:32] + b''.join(seg)
    data = v.data[:v.d.header_end] + K.outer_encrypt(v.d.cipher, master, v.d.iv, plain)
    return v.event([{'op': kind, 'i': 0, 'j': 0}], data, outcome(data, v.want, PW, tk=v.key()), True, 'block', note={'kind': kind})


def fault_job(a):
    maj, seed, budget = a[:3]
    if len(a) > 3:
        return large_job(*a)
    v = Victim(maj, seed)
    rng = v.rng
    n = len(v.data)
    evs = []
    tmp = tempfile.mkdtemp(prefix='fault')
    if v.cfg['cipher'] == 'twofish':
        budget //= 3
    try:
        add = lambda e: evs.append(e) if e else None
        # the undamaged file
        evs.append(v.event([{'op': 'cut', 'i': len(v.cells), 'j': 0}], None, 'other' if outcome(v.data, v.want, PW) == 'content' else 'wrong', True, 'none', note='undamaged'))
        if maj == 4:
            small = [i for i in range(n) if v.cells[v.cell_at(i) - 1][0] != 'data']
        else:
            small = list(range(v.d.header_end)) + list(range(v.d.header_end, min(n, v.d.header_end + 48))) + list(range(max(v.d.header_end, n - 48), n))
        rng.shuffle(small)
        rest = [i for i in range(n)]
        for i in small[:budget // 3]:
            b = v.bit(i)
            if b:
                add(v.alter(i, b, how='path' if rng.random() < .1 else 'stream', tmp=tmp))
        for _ in range(budget // 6):
            i = rng.choice(rest)
            b = v.bit(i)
            if b:
                add(v.alter(i, b))
        # longer damages
        for _ in range(budget // 10):
            i = rng.choice(rest)
            m = rng.choice([2, 4, 16, 40])
            if any(q in v.cost for q in range(i, min(n, i + m))):
                continue
            new = rng.choice([bytes(m), b'\xff' * m, bytes(rng.getrandbits(8) for _ in range(m))])[:n - i]
            if v.kdfr and i < v.kdfr[1] and i + m > v.kdfr[0]:
                continue
            add(v.alter(i, new))
        # without decryption
        for _ in range(budget // 8):
            i = rng.randrange(v.d.header_end + (32 if maj == 4 else 0))
            b = v.bit(i)
            if b:
                add(v.alter(i, b, decrypt=False))
        # cuts
        for i in rng.sample(range(n), min(n, budget // 8)) + [n - 1, 0, 1, 12, v.d.header_end, v.d.header_end - 1]:
            add(v.cut(i))
        for _, a, b in v.cells:
            add(v.cut(min(a, n - 1)))
        if maj == 4:
            for i in rng.sample(range(8, v.d.header_end), min(v.d.header_end - 8, budget // 8)):
                b = v.bit(i)
                if b:
                    add(v.alter(i, b, forge=True))
            for j in range(v.nb + 1):
                add(v.blocks('drop', j))
                if j < v.nb:
                    add(v.blocks('repeat', j))
                for k in range(j + 1, v.nb + 1):
                    add(v.blocks('swap', j, k))
        else:
            for _ in range(max(4, budget // 20)):
                add(kdbx3_rebuilt(v, rng.choice(['hash', 'reorder'])))
            for _ in range(4):
                add(kdbx3_rebuilt(v, 'rehash'))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return evs


def large_job(maj, seed, budget, size):
    v = Victim(maj, seed, size)
    rng = v.rng
    n = len(v.data)
    evs = [v.event([{'op': 'cut', 'i': len(v.cells), 'j': 0}], None, 'other' if outcome(v.data, v.want, PW) == 'content' else 'wrong', True, 'none', note='undamaged')]
    add = lambda e: evs.append(e) if e else None
    cells = [c for c in v.cells if c[0] in ('data', 'payload') and c[2] > c[1]]
    at = []
    for _, a, b in cells if size == 'big' else rng.sample(cells, min(len(cells), 6)):
        at += [a, b - 1] + [rng.randrange(a, b) for _ in range(6)]
        at += [a + 2**k + rng.choice([-1, 0]) for k in range(10, 21) if a + 2**k < b]
    at = [q for q in at if v.d.header_end <= q < n]
    for q in rng.sample(at, min(len(at), 24)):
        add(v.alter(q, bytes([v.data[q] ^ (1 << rng.randrange(8))])))
    for q in sorted({n - 1, n - 16, n // 2} | {rng.randrange(v.d.header_end, n) for _ in range(6)}):
        add(v.cut(q))
    if maj == 4:
        pairs = [(j, k) for j in range(v.nb + 1) for k in range(j + 1, v.nb + 1)]
        far = [(j, j + s) for s in (16, 128, 255, 256, 257, 512) for j in range(v.nb - s)]
        for j, k in rng.sample(pairs, min(len(pairs), 6)) + (rng.sample(far, min(len(far), 12)) if size == 'many' else []):
            add(v.blocks('swap', j, k))
        for j in sorted({0, v.nb, rng.randrange(v.nb + 1), min(255, v.nb), min(256, v.nb)}):
            add(v.blocks('drop', j))
            if j < v.nb:
                add(v.blocks('repeat', j))
    else:
        for _ in range(16):
            add(kdbx3_rebuilt(v, rng.choice(['hash', 'reorder'])))
    return evs


def faults(check, victims, budget):
    model(check, 6, 3, 2 if not vf.THOROUGH else 3)
    jobs = [(4 if i % 3 else 3, vf.SEED * 7001 + i, budget) for i in range(victims)]
    # files with full-sized blocks, and with many of them
    jobs += [(4 if i % 3 else 3, vf.SEED * 7001 + 500000 + i, budget, 'big' if i % 2 else 'many') for i in range(max(8, victims // 12))]
    judge.run(check, 'damaged file', fault_job, jobs, 'KdbxTrace', shards=vf.NPROC * 2)


# ------------------------------------------------------------------ sizes

def _fill(n, rng, kind):
    if kind == 'ascii':
        return ('abcdefghij' * (n // 10 + 1))[:n]
    return ''.join(rng.choices('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789+-', k=n))


def big_job(a):
    kind, cfg, arg, seed = a
    rng = random.Random(seed)
    g = dbgen.Gen(rng, (cfg['maj'], cfg['min']))
    root, bins = g.db(ngroups=2, nentries=2, nbin=1)
    data = encode(params(cfg, rng), root, bins, PW)

    def ed(kp, rng):
        e = kp.entries[0]
        if kind == 'exact':
            # bring the payload to exactly arg bytes (before encryption)
            e.set_custom_property('fill', 'x')
            s = io.BytesIO()
            kp.save(s)
            L = K.scan(s.getvalue(), kp.tree.getroot(), PW)
            have = L['dec'] if cfg['maj'] == 4 else sum(b['len'] for b in L['blocks'])
            e.set_custom_property('fill', _fill(1 + arg - have, rng, 'ascii'))
        elif kind == 'random':
            e.password = _fill(arg, rng, 'random')
        elif kind == 'text':
            e.notes = _fill(arg, rng, 'ascii')
        elif kind == 'protected':
            e.set_custom_property('k', _fill(arg, rng, 'ascii'), protect=True)
            kp.entries[1].password = 'after the long one'
        elif kind == 'binary':
            i = kp.add_binary(rng.randbytes(arg), compressed=rng.random() < .5)
            e.add_attachment(i, 'big')
            e.add_attachment(kp.add_binary(b'after'), 'after')
        elif kind == 'deep':
            p = kp.root_group
            for i in range(arg):
                p = kp.add_group(p, 'd%d' % i)
            kp.add_entry(p, 'deep', 'u', 'p')
        elif kind == 'wide':
            for i in range(arg):
                kp.add_entry(kp.root_group, 'w%d' % i, 'u', 'p%d' % i, force_creation=True)
        elif kind == 'history':
            for i in range(arg):
                e.password = 'p%d' % i
                e.save_history()
    ev = io_event(data, PW, None, rng, how='path' if seed % 2 else 'stream', what={'size': [kind, arg], 'config': cfg, 'seed': seed}, nd=False, editor=ed)
    for L in ev['lay']:
        # keep the judge fast: only the facts about values that are not all alike
        L['vals'] = L['vals'][:400]
    if kind == 'exact' and ev['lay'] and not ev['lay'][0]['err']:
        L = ev['lay'][0]
        have = L['dec'] if cfg['maj'] == 4 else sum(b['len'] for b in L['blocks'])
        ev['_']['reached'] = have
    return [ev]


def sizes(check, thorough, few=False):
    base = {'min': 1, 'kdf': 'aeskdf', 'stream': 'salsa20', 'blocks': 'one', 'order': 'usual', 'extra': 'none', 'hh': True}
    jobs = []
    M = 2**20
    s = vf.SEED * 5003
    deltas = [-17, -16, -15, -1, 0, 1, 15, 16, 17]
    mult = [1, 2, 3] if thorough else [1, 2]
    for maj in (3, 4):
        for c in ('aes256', 'chacha20'):
            for k in mult:
                for d in deltas if k == 1 or thorough else [-16, 0, 1]:
                    jobs.append(('exact', dict(base, maj=maj, cipher=c, comp=False), k * M + d, s))
                    s += 1
            for comp in (True, False):
                cfg = dict(base, maj=maj, cipher=c, comp=comp, stream='chacha20')
                for kind, arg in (('random', 3 * M // 2), ('protected', M + 5), ('binary', 2 * M + 3), ('deep', 300), ('history', 60)) + \
                        ((('text', (17 if c == 'aes256' else 11) * M), ('wide', 500)) if comp or thorough else ()):
                    jobs.append((kind, cfg, arg, s))
                    s += 1
                if thorough:
                    for kind, arg in (('binary', 9 * M), ('deep', 1500), ('wide', 3000), ('protected', 12 * M), ('random', 5 * M)):
                        jobs.append((kind, cfg, arg, s))
                        s += 1
    if few:
        # whole blocks and one byte more or less
        jobs = [j for j in jobs if j[0] == 'exact' and j[2] in (M - 1, M, M + 1, 2 * M, 2 * M + 1)]
    for n in (0, 1, 15, 16, 17, 31, 32, 33):
        for maj in (3, 4):
            for c in ('aes256', 'chacha20', 'twofish'):
                jobs.append(('exact', dict(base, maj=maj, cipher=c, comp=False), 8192 + n, s))
                s += 1
    random.Random(1).shuffle(jobs)
    judge.run(check, 'payload size', big_job, jobs, 'KdbxTrace', shards=vf.NPROC * 3)


# ------------------------------------------------------------------ secrets

def secret_job(a):
    seed, steps = a
    rng = random.Random(seed)
    maj = rng.choice([3, 4])
    n = [0]
    used = []

    def mark():
        n[0] += 1
        m = 'SECRET%dx%08x' % (n[0], rng.getrandbits(32))
        m = rng.choice([m, m + '"', m + '\u00e9', m + "'&<", m + '\U0001F511'])
        used.append(m)
        return m
    g = dbgen.Gen(rng, (maj, 1))
    wide = rng.random() < .06
    root, bins = g.db(ngroups=2, nentries=rng.choice([50, 130, 270]), nbin=0) if wide else g.db(ngroups=2, nentries=2, nbin=0)
    if wide:
        steps = 8
    for v in root.iter('Value'):
        if v.getparent().tag == 'String':
            v.text = mark()
            if rng.random() < .2:
                v.set('Protected', rng.choice(['True', 'False']))
    p = dbgen.random_params(rng, (maj, 1))
    if p.cipher == 'twofish':
        p.cipher, p.iv = 'aes256', p.iv.ljust(16)[:16]
    data = K.encode(p, root, bins, PW)
    kp = PyKeePass(io.BytesIO(data), password=PW)
    evs = []
    log = []
    for _ in range(steps):
        r = rng.random()
        es = kp.entries
        e = rng.choice(es) if es else None
        if r < .15 or e is None:
            kp.add_entry(rng.choice(kp.groups), mark(), mark(), rng.choice([None, '', mark()]), otp=rng.choice([None, mark()]), notes=mark(), force_creation=True)
            log.append('add_entry')
        elif r < .35:
            k = rng.choice(['title', 'username', 'password', 'otp', 'url', 'notes'])
            setattr(e, k, mark())
            log.append(k)
        elif r < .55:
            k = rng.choice(['k1', 'k2', 'say "k"'])
            pr = rng.random() < .6
            e.set_custom_property(k, mark(), protect=pr)
            log.append('custom %s' % pr)
        elif r < .7:
            e.save_history()
            log.append('save_history')
        elif r < .75:
            e.password = ''
            log.append('password empty')
        elif r < .8 and len(es) > 2:
            kp.delete_entry(e)
            log.append('delete')
        else:
            s = io.BytesIO()
            kp.save(s)
            d = K.decode(s.getvalue(), PW)
            kp = PyKeePass(io.BytesIO(s.getvalue()), password=PW) if rng.random() < .7 else kp
            evs.append(_clear(d, kp, used, log, seed))
    s = io.BytesIO()
    kp.save(s)
    evs.append(_clear(K.decode(s.getvalue(), PW), kp, used, log, seed))
    return evs


def _clear(d, kp, used, log, seed):
    plain = d.plain if d.version[0] == 4 else d.xml
    texts = {}
    raw = []
    for el in kp.tree.getroot().iter():
        if el.text:
            if not (el.tag == 'Value' and el.get('Protected') == 'True'):
                texts[el.text] = texts.get(el.text, 0) + 1
    # what an unsophisticated look at the payload shows: the text itself, in UTF-8 or escaped, or base64 of it
    flat = etree.tostring(d.raw_root, method='text', encoding='unicode') + ''.join(
        ' '.join(el.attrib.values()) + ' ' for el in d.raw_root.iter() if isinstance(el.tag, str) and el.attrib)
    out = []
    for m in used:
        core_ = m.split('x')[0] + 'x' + m.split('x')[1][:8]
        b = core_.encode()
        pats = [b] + [base64.b64encode(b'\0' * o + b)[(o and 4):-4] for o in (0, 1, 2)]
        hit = any(x in plain for x in pats) or m in flat
        out.append({'seen': hit, 'plain': texts.get(m, 0)})
    return {'k': 'clear', 'secrets': out, '_': {'seed': seed, 'log': log[-30:], 'which': [m for m, o in zip(used, out) if o['seen'] != (o['plain'] > 0)][:3]}}


def secrets(check, n, steps):
    judge.run(check, 'secrets in the payload', secret_job, [(vf.SEED * 9001 + i, steps) for i in range(n)], 'KdbxTrace')

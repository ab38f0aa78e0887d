"""Independent reader/writer for KDBX 3.x and 4.x files.

Written from the format description; shares no code with the library under
test.  Primitive ciphers, hashes and KDFs (Cryptodome AES/Salsa20/ChaCha20,
hashlib, hmac, argon2) are trusted; Twofish is our own.
Every deviation from the format raises KdbxError("<stage>", detail)."""
import base64
import copy
import hashlib
import hmac
import io
import os
import random
import struct
import zlib

import argon2
from Cryptodome.Cipher import AES, ChaCha20, Salsa20
from lxml import etree

from twofish_ref import Twofish

SIG = b'\x03\xd9\xa2\x9a\x67\xfb\x4b\xb5'
CIPHERS = {'aes256': bytes.fromhex('31c1f2e6bf714350be5805216afc5aff'),
           'twofish': bytes.fromhex('ad68f29f576f4bb9a36ad47af965346c'),
           'chacha20': bytes.fromhex('d6038a2b8b6f4cb5a524339a31dbb59a')}
CIPHER_NAME = {v: k for k, v in CIPHERS.items()}
KDFS = {'argon2': bytes.fromhex('ef636ddf8c29444b91f7a9a403e30a0c'),
        'argon2id': bytes.fromhex('9e298b1956db4773b23dfc3ec6f0a1e6'),
        'aeskdf': bytes.fromhex('c9d9f39a628a4460bf740d08c18a4fea')}
KDF_NAME = {v: k for k, v in KDFS.items()}
STREAMS = {'none': 0, 'arcfourvariant': 1, 'salsa20': 2, 'chacha20': 3}
STREAM_NAME = {v: k for k, v in STREAMS.items()}
IV_LEN = {'aes256': 16, 'twofish': 16, 'chacha20': 12}


class KdbxError(Exception):
    pass


def sha(b):
    return hashlib.sha256(b).digest()


# ------------------------------------------------------------------ keys

def keyfile_key(data):
    """Key contributed by a key file with this content; KdbxError if refused."""
    root = None
    try:
        root = etree.fromstring(data)
    except (etree.XMLSyntaxError, ValueError):
        pass
    if root is not None:
        ver = root.find('Meta/Version')
        dat = root.find('Key/Data')
        if ver is not None and ver.text and dat is not None and dat.text:
            if ver.text.startswith('1.0'):
                return base64.b64decode(dat.text)
            if ver.text.startswith('2.0'):
                key = bytes.fromhex(dat.text.strip())
                if bytes.fromhex(dat.get('Hash')) != sha(key)[:4]:
                    raise KdbxError('keyfile-hash')
                return key
    if len(data) == 32:
        return data
    if len(data) == 64 and all(c in b'0123456789abcdefABCDEF' for c in data):
        return bytes.fromhex(data.decode())
    return sha(data)


def composite(password=None, keyfile=None):
    """keyfile: bytes content or None"""
    c = b''
    if password is not None:
        c += sha(password.encode('utf-8'))
    if keyfile is not None:
        c += keyfile_key(keyfile)
    return sha(c)


def aes_kdf(seed, rounds, key):
    c = AES.new(seed, AES.MODE_ECB)
    for _ in range(rounds):
        key = c.encrypt(key)
    return sha(key)


def transform(kdf, comp):
    """kdf: dict name,salt,rounds | name,salt,I,M,P,V"""
    if kdf['name'] == 'aeskdf':
        return aes_kdf(kdf['S'], kdf['R'], comp)
    return argon2.low_level.hash_secret_raw(
        secret=comp, salt=kdf['S'], hash_len=32, time_cost=kdf['I'],
        memory_cost=kdf['M'] // 1024, parallelism=kdf['P'], version=kdf['V'],
        type=argon2.low_level.Type.ID if kdf['name'] == 'argon2id' else argon2.low_level.Type.D)


# ------------------------------------------------------------------ variant dictionary

VD_FMT = {0x04: '<I', 0x05: '<Q', 0x0C: '<i', 0x0D: '<q'}


def vd_parse(b):
    s = io.BytesIO(b)

    def rd(n):
        d = s.read(n)
        if len(d) != n:
            raise KdbxError('variant', 'short')
        return d
    ver = rd(2)
    if ver[1] != 1:
        raise KdbxError('variant', 'version')
    items = []
    while True:
        t = rd(1)[0]
        if t == 0:
            break
        k = rd(struct.unpack('<I', rd(4))[0]).decode('utf-8')
        v = rd(struct.unpack('<I', rd(4))[0])
        if t in VD_FMT:
            v = struct.unpack(VD_FMT[t], v)[0]
        elif t == 0x08:
            v = bool(v[0])
        elif t == 0x18:
            v = v.decode('utf-8')
        elif t != 0x42:
            raise KdbxError('variant', 'type %d' % t)
        items.append((t, k, v))
    if s.read(1):
        raise KdbxError('variant', 'trailing')
    return items


def vd_build(items):
    out = b'\x00\x01'
    for t, k, v in items:
        if t in VD_FMT:
            v = struct.pack(VD_FMT[t], v)
        elif t == 0x08:
            v = bytes([bool(v)])
        elif t == 0x18:
            v = v.encode('utf-8')
        k = k.encode('utf-8')
        out += bytes([t]) + struct.pack('<I', len(k)) + k + struct.pack('<I', len(v)) + v
    return out + b'\x00'


def kdf_of_vd(items):
    d = {k: v for _, k, v in items}
    name = KDF_NAME.get(d.get('$UUID'))
    if name is None:
        raise KdbxError('kdf', 'unknown')
    d['name'] = name
    return d


# ------------------------------------------------------------------ symmetric helpers

def pad16(d):
    n = 16 - len(d) % 16
    return d + bytes([n]) * n


def unpad16(d):
    if not d or len(d) % 16 or not 1 <= d[-1] <= 16 or d[-d[-1]:] != bytes([d[-1]]) * d[-1]:
        raise KdbxError('padding')
    return d[:-d[-1]]


def outer_encrypt(cipher, key, iv, data):
    if cipher == 'aes256':
        return AES.new(key, AES.MODE_CBC, iv).encrypt(pad16(data))
    if cipher == 'twofish':
        return Twofish(key).cbc_encrypt(iv, pad16(data))
    return ChaCha20.new(key=key, nonce=iv).encrypt(data)


def outer_decrypt(cipher, key, iv, data):
    if cipher == 'chacha20':
        return ChaCha20.new(key=key, nonce=iv).decrypt(data)
    if len(data) % 16:
        raise KdbxError('cipher-length')
    if cipher == 'aes256':
        return unpad16(AES.new(key, AES.MODE_CBC, iv).decrypt(data))
    return unpad16(Twofish(key).cbc_decrypt(iv, data))


def inner_stream(name, key):
    if name == 'salsa20':
        return Salsa20.new(key=sha(key), nonce=bytes.fromhex('e830094b97205d2a'))
    if name == 'chacha20':
        h = hashlib.sha512(key).digest()
        return ChaCha20.new(key=h[:32], nonce=h[32:44])
    return None


def gzip(data, level=6):
    c = zlib.compressobj(level, zlib.DEFLATED, 31)
    return c.compress(data) + c.flush()


def gunzip(data):
    d = zlib.decompressobj(31)
    out = d.decompress(data) + d.flush()
    if not d.eof or d.unused_data:
        raise KdbxError('gzip')
    return out


def split_blocks(data, sizes):
    """sizes: int or list of ints (the last one repeats)"""
    if isinstance(sizes, int):
        sizes = [sizes]
    out, i, k = [], 0, 0
    while i < len(data):
        n = sizes[min(k, len(sizes) - 1)]
        out.append(data[i:i + n])
        i += n
        k += 1
    return out


# ------------------------------------------------------------------ XML with protected values

def parse_xml(b):
    return etree.fromstring(b, etree.XMLParser(huge_tree=True, strip_cdata=False))


def unprotect(root, stream):
    """Decrypt protected values of a parsed payload in place (document order)."""
    for el in root.iter('Value'):
        if el.get('Protected') == 'True' and el.text:
            if stream is None:
                raise KdbxError('inner-stream', 'none')
            try:
                raw = base64.b64decode(el.text, validate=True)
                el.text = stream.decrypt(raw).decode('utf-8')
            except Exception as e:
                raise KdbxError('inner-stream', repr(e))
    return root


def protect(root, stream):
    root = copy.deepcopy(root)
    for el in root.iter('Value'):
        if el.get('Protected') == 'True' and el.text:
            el.text = base64.b64encode(stream.encrypt(el.text.encode('utf-8'))).decode()
    return root


# ------------------------------------------------------------------ reading

class Decoded:
    pass


class _R:
    def __init__(self, b):
        self.b, self.i = b, 0

    def take(self, n, what):
        if self.i + n > len(self.b):
            raise KdbxError('truncated', what)
        d = self.b[self.i:self.i + n]
        self.i += n
        return d


def _read_header(data):
    """Parse and check the outer header; returns Decoded with header info only."""
    r = _R(data)
    if r.take(8, 'sig') != SIG:
        raise KdbxError('signature')
    minor, major = struct.unpack('<HH', r.take(4, 'version'))
    if major not in (3, 4):
        raise KdbxError('version', (major, minor))
    d = Decoded()
    d.version = (major, minor)
    d.fields = []
    d.field_pos = []
    while True:
        pos = r.i
        fid = r.take(1, 'field')[0]
        n = struct.unpack('<H', r.take(2, 'len'))[0] if major == 3 else struct.unpack('<I', r.take(4, 'len'))[0]
        v = r.take(n, 'field data')
        d.fields.append((fid, v))
        d.field_pos.append((fid, pos, r.i))
        if fid == 0:
            break
    d.header = data[:r.i]
    d.header_end = r.i
    f = dict(d.fields)
    known = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10} if major == 3 else {0, 1, 2, 3, 4, 7, 11, 12}
    if set(f) - known:
        raise KdbxError('header', 'unknown field')
    need = {2, 3, 4, 5, 6, 7, 8, 9, 10} if major == 3 else {2, 3, 4, 7, 11}
    if need - set(f):
        raise KdbxError('header', 'missing %r' % (need - set(f)))
    ids = [i for i, _ in d.fields]
    if len(ids) != len(set(ids)):
        raise KdbxError('header', 'repeated field')
    if f[2] not in CIPHER_NAME:
        raise KdbxError('header', 'cipher')
    d.cipher = CIPHER_NAME[f[2]]
    comp = struct.unpack('<I', f[3])[0]
    if comp not in (0, 1):
        raise KdbxError('header', 'compression')
    d.compression = bool(comp)
    if len(f[4]) != 32:
        raise KdbxError('header', 'master seed')
    d.master_seed = f[4]
    d.iv = f[7]
    if len(d.iv) != IV_LEN[d.cipher]:
        raise KdbxError('header', 'iv')
    if major == 3:
        d.kdf = dict(name='aeskdf', S=f[5], R=struct.unpack('<Q', f[6])[0])
        d.stream_key = f[8]
        d.stream_start = f[9]
        d.stream = STREAM_NAME.get(struct.unpack('<I', f[10])[0], '?')
    else:
        d.vd = vd_parse(f[11])
        d.kdf = kdf_of_vd(d.vd)
    d.salt = d.kdf['S']
    return d


def block_key4(ms, tk, idx):
    return hashlib.sha512(struct.pack('<Q', idx) + hashlib.sha512(ms + tk + b'\x01').digest()).digest()


def block_hmac4(ms, tk, idx, data):
    return hmac.new(block_key4(ms, tk, idx), struct.pack('<QI', idx, len(data)) + data, hashlib.sha256).digest()


def header_hmac4(ms, tk, header):
    return hmac.new(block_key4(ms, tk, 2**64 - 1), header, hashlib.sha256).digest()


def read_header(data):
    """_read_header; anything wrong with the bytes is a KdbxError"""
    try:
        return _read_header(data)
    except (KdbxError, MemoryError):
        raise
    except Exception as x:
        raise KdbxError('malformed', type(x).__name__, str(x)[:200]) from x


def decode(data, password=None, keyfile=None, tk=None):
    """_decode; anything wrong with the bytes is a KdbxError"""
    try:
        return _decode(data, password, keyfile, tk)
    except (KdbxError, MemoryError):
        raise
    except Exception as x:
        if type(x).__name__ in ('Timeout', 'Hang'):
            raise
        raise KdbxError('malformed', type(x).__name__, str(x)[:200]) from x


def _decode(data, password=None, keyfile=None, tk=None):
    d = read_header(data)
    if tk is None:
        tk = transform(d.kdf, composite(password, keyfile))
    d.tk = tk
    master = sha(d.master_seed + tk)
    r = _R(data)
    r.i = d.header_end
    d.blocks = []
    d.block_pos = []
    if d.version[0] == 4:
        if r.take(32, 'header sha') != sha(d.header):
            raise KdbxError('header-sha')
        if r.take(32, 'header hmac') != header_hmac4(d.master_seed, tk, d.header):
            raise KdbxError('credentials')
        idx = 0
        parts = []
        while True:
            pos = r.i
            mac = r.take(32, 'block mac')
            n = struct.unpack('<I', r.take(4, 'block len'))[0]
            blk = r.take(n, 'block')
            if mac != block_hmac4(d.master_seed, tk, idx, blk):
                raise KdbxError('block-hmac', idx)
            d.blocks.append(n)
            d.block_pos.append((pos, r.i))
            idx += 1
            if n == 0:
                break
            parts.append(blk)
        if r.i != len(data):
            raise KdbxError('trailing')
        plain = outer_decrypt(d.cipher, master, d.iv, b''.join(parts))
        if d.compression:
            plain = gunzip(plain)
        d.plain = plain
        q = _R(plain)
        d.inner = []
        d.binaries = []
        while True:
            t = q.take(1, 'inner')[0]
            n = struct.unpack('<I', q.take(4, 'inner len'))[0]
            v = q.take(n, 'inner data')
            d.inner.append((t, v))
            if t == 0:
                break
            if t == 1:
                d.stream = STREAM_NAME.get(struct.unpack('<I', v)[0], '?')
            elif t == 2:
                d.stream_key = v
            elif t == 3:
                if not v or v[0] not in (0, 1):
                    raise KdbxError('inner', 'binary flags')
                d.binaries.append(v)
            else:
                raise KdbxError('inner', 'type %d' % t)
        d.xml = plain[q.i:]
    else:
        body = data[r.i:]
        if d.cipher != 'chacha20' and (len(body) % 16 or not body):
            raise KdbxError('cipher-length')
        try:
            plain = outer_decrypt(d.cipher, master, d.iv, body)
        except KdbxError:
            raise KdbxError('credentials', 'padding')
        if plain[:32] != d.stream_start:
            raise KdbxError('credentials')
        q = _R(plain)
        q.i = 32
        idx = 0
        parts = []
        while True:
            pos = q.i
            i, = struct.unpack('<I', q.take(4, 'block index'))
            h = q.take(32, 'block hash')
            n, = struct.unpack('<I', q.take(4, 'block len'))
            blk = q.take(n, 'block')
            if i != idx:
                raise KdbxError('block-index', i)
            d.blocks.append(n)
            d.block_pos.append((pos, q.i))
            if n == 0:
                if h != bytes(32):
                    raise KdbxError('block-hash', idx)
                break
            if h != sha(blk):
                raise KdbxError('block-hash', idx)
            parts.append(blk)
            idx += 1
        if q.i != len(plain):
            raise KdbxError('trailing')
        d.plain = plain
        d.xml = b''.join(parts)
        if d.compression:
            d.xml = gunzip(d.xml)
        d.binaries = None
    raw = parse_xml(d.xml)
    d.raw_root = raw
    d.root = unprotect(copy.deepcopy(raw), inner_stream(d.stream, d.stream_key))
    if d.version[0] == 3:
        hh = d.root.findtext('Meta/HeaderHash')
        if hh and base64.b64decode(hh) != sha(d.header):
            raise KdbxError('header-hash')
    return d


# ------------------------------------------------------------------ writing

class Params:
    """Container parameters for encode()."""

    def __init__(self, version=(4, 0), cipher='aes256', kdf=None, compression=True, stream=None,
                 blocks=2**20, rng=None, extra_fields=(), order=None, header_hash=True,
                 extra_inner=(), salt_len=32, gzlevel=6):
        rng = rng or random.Random(0)
        rb = lambda n: bytes(rng.getrandbits(8) for _ in range(n))
        self.version = version
        self.cipher = cipher
        self.compression = compression
        self.stream = stream or ('chacha20' if version[0] == 4 else 'salsa20')
        self.blocks = blocks
        self.master_seed = rb(32)
        self.iv = rb(IV_LEN[cipher])
        self.stream_key = rb(64 if version[0] == 4 else 32)
        self.stream_start = rb(32)
        self.extra_fields = list(extra_fields)   # (id, bytes)
        self.order = order                       # permutation seed of header fields
        self.header_hash = header_hash
        self.gzlevel = gzlevel
        k = kdf or ('aeskdf' if version[0] == 3 else 'argon2')
        if isinstance(k, str):
            k = dict(name=k)
        k = dict(k)
        k.setdefault('S', rb(salt_len))
        if k['name'] == 'aeskdf':
            k.setdefault('R', 3)
        else:
            k.setdefault('I', 1)
            k.setdefault('M', 8192)
            k.setdefault('P', 1)
            k.setdefault('V', 0x13)
        self.kdf = k

    def vd(self):
        k = self.kdf
        items = [(0x42, '$UUID', KDFS[k['name']])]
        if k['name'] == 'aeskdf':
            items += [(0x05, 'R', k['R']), (0x42, 'S', k['S'])]
        else:
            items += [(0x05, 'I', k['I']), (0x05, 'M', k['M']), (0x04, 'P', k['P']),
                      (0x42, 'S', k['S']), (0x04, 'V', k['V'])]
        items += k.get('extra', [])
        if 'order' in k:
            random.Random(k['order']).shuffle(items)
        return items

    def header(self):
        maj, minor = self.version
        f = [(2, CIPHERS[self.cipher]), (3, struct.pack('<I', int(self.compression))), (4, self.master_seed)]
        if maj == 3:
            f += [(5, self.kdf['S']), (6, struct.pack('<Q', self.kdf['R'])), (7, self.iv), (8, self.stream_key),
                  (9, self.stream_start), (10, struct.pack('<I', STREAMS[self.stream]))]
        else:
            f += [(7, self.iv), (11, vd_build(self.vd()))]
        f += self.extra_fields
        if self.order is not None:
            random.Random(self.order).shuffle(f)
        f.append((0, b'\r\n\r\n'))
        out = SIG + struct.pack('<HH', minor, maj)
        for i, v in f:
            out += bytes([i]) + (struct.pack('<H', len(v)) if maj == 3 else struct.pack('<I', len(v))) + v
        return out


def encode(p, root, binaries=(), password=None, keyfile=None, tk=None):
    """root: lxml element with clear protected values.  binaries: flag+data (KDBX4)."""
    header = p.header()
    if tk is None:
        tk = transform(p.kdf, composite(password, keyfile))
    master = sha(p.master_seed + tk)
    root = copy.deepcopy(root)
    if p.version[0] == 3:
        hh = root.find('Meta/HeaderHash')
        if p.header_hash:
            if hh is None:
                hh = etree.SubElement(root.find('Meta'), 'HeaderHash')
            hh.text = base64.b64encode(sha(header) if p.header_hash is True else p.header_hash(sha(header))).decode()
        elif hh is not None:
            hh.getparent().remove(hh)
    xml = etree.tostring(protect(root, inner_stream(p.stream, p.stream_key)), encoding='utf-8', xml_declaration=True)
    if p.version[0] == 4:
        inner = [(1, struct.pack('<I', STREAMS[p.stream])), (2, p.stream_key)] + [(3, b) for b in binaries] + [(0, b'')]
        plain = b''.join(bytes([t]) + struct.pack('<I', len(v)) + v for t, v in inner) + xml
        if p.compression:
            plain = gzip(plain, p.gzlevel)
        enc = outer_encrypt(p.cipher, master, p.iv, plain)
        out = header + sha(header) + header_hmac4(p.master_seed, tk, header)
        blks = split_blocks(enc, p.blocks) + [b'']
        for i, b in enumerate(blks):
            out += block_hmac4(p.master_seed, tk, i, b) + struct.pack('<I', len(b)) + b
        return out
    data = gzip(xml, p.gzlevel) if p.compression else xml
    plain = p.stream_start
    blks = split_blocks(data, p.blocks)
    for i, b in enumerate(blks):
        plain += struct.pack('<I', i) + sha(b) + struct.pack('<I', len(b)) + b
    plain += struct.pack('<I', len(blks)) + bytes(32) + struct.pack('<I', 0)
    return header + outer_encrypt(p.cipher, master, p.iv, plain)


def params_of(d):
    """The container parameters a later save must keep."""
    return dict(version=d.version, cipher=d.cipher, compression=d.compression, stream=d.stream,
                kdf={k: v for k, v in d.kdf.items()},
                extra=[(i, v) for i, v in d.fields if i in (1, 12)])


# ------------------------------------------------------------------ layout of a file, for spec/Kdbx.tla

def scan(data, mem_root, password=None, keyfile=None, tk=None):
    """Facts about the layout of a file; never raises on malformed files.
    mem_root: the database it should hold, with clear values."""
    L = dict(err='', sig=False, maj=0, min=0, fields=[], cipher='', kdf='', comp=False, stream='', sha=True, hmac=True, start=True, hh='absent',
             blocks=[], trailing=0, enc=0, dec=0, pad=0, gz=False, inner=[], vals=[])
    try:
        _scan(L, data, mem_root, password, keyfile, tk)
    except KdbxError as e:
        L['err'] = 'unreadable: ' + ' '.join(str(a) for a in e.args)
    except Exception as e:
        L['err'] = 'unreadable: %s %s' % (type(e).__name__, str(e)[:80])
    return L


def _unpad_len(plain):
    n = plain[-1] if plain else 0
    return n if 1 <= n <= 16 and plain[-n:] == bytes([n]) * n else -1


def _raw_decrypt(cipher, key, iv, data):
    if cipher == 'chacha20':
        return ChaCha20.new(key=key, nonce=iv).decrypt(data)
    if len(data) % 16:
        raise KdbxError('cipher-length')
    if cipher == 'aes256':
        return AES.new(key, AES.MODE_CBC, iv).decrypt(data)
    return Twofish(key).cbc_decrypt(iv, data)


def _scan(L, data, mem_root, password, keyfile, tk):
    r = _R(data)
    L['sig'] = r.take(8, 'sig') == SIG
    L['min'], L['maj'] = struct.unpack('<HH', r.take(4, 'version'))
    if L['maj'] not in (3, 4):
        raise KdbxError('version')
    f = {}
    while True:
        fid = r.take(1, 'field')[0]
        n = struct.unpack('<H', r.take(2, 'len'))[0] if L['maj'] == 3 else struct.unpack('<I', r.take(4, 'len'))[0]
        f[fid] = r.take(n, 'field data')
        L['fields'].append(dict(id=fid, len=n))
        if fid == 0:
            break
    header = data[:r.i]
    L['cipher'] = CIPHER_NAME.get(f.get(2), '?')
    L['comp'] = bool(struct.unpack('<I', f[3])[0])
    if L['maj'] == 3:
        kdf = dict(name='aeskdf', S=f[5], R=struct.unpack('<Q', f[6])[0])
        skey, sid = f[8], struct.unpack('<I', f[10])[0]
    else:
        kdf = kdf_of_vd(vd_parse(f[11]))
    L['kdf'] = kdf['name']
    if tk is None:
        tk = transform(kdf, composite(password, keyfile))
    master = sha(f[4] + tk)
    if L['maj'] == 4:
        L['sha'] = r.take(32, 'header sha') == sha(header)
        L['hmac'] = r.take(32, 'header hmac') == header_hmac4(f[4], tk, header)
        parts = []
        while True:
            mac = r.take(32, 'block mac')
            n, = struct.unpack('<I', r.take(4, 'block len'))
            blk = r.take(n, 'block')
            L['blocks'].append(dict(i=len(parts), len=n, ok=mac == block_hmac4(f[4], tk, len(parts), blk)))
            parts.append(blk)
            if n == 0:
                break
        L['trailing'] = len(data) - r.i
        enc = b''.join(parts)
    else:
        enc = data[r.i:]
    plain = _raw_decrypt(L['cipher'], master, f[7], enc)
    L['enc'] = len(enc)
    if L['cipher'] != 'chacha20':
        L['pad'] = _unpad_len(plain)
        if L['pad'] < 0:
            return
        plain = plain[:-L['pad']]
    L['dec'] = len(plain)
    if L['maj'] == 3:
        q = _R(plain)
        L['start'] = q.take(32, 'start') == f[9]
        parts = []
        while True:
            i, = struct.unpack('<I', q.take(4, 'block index'))
            h = q.take(32, 'block hash')
            n, = struct.unpack('<I', q.take(4, 'block len'))
            blk = q.take(n, 'block')
            L['blocks'].append(dict(i=i if i < 2**30 else -1, len=n, ok=h == (sha(blk) if n else bytes(32))))
            parts.append(blk)
            if n == 0:
                break
        L['trailing'] = len(plain) - q.i
        plain = b''.join(parts)
    L['gz'] = plain[:2] == b'\x1f\x8b'
    if L['gz']:
        plain = gunzip(plain)
    if L['maj'] == 4:
        q = _R(plain)
        while True:
            t = q.take(1, 'inner')[0]
            n, = struct.unpack('<I', q.take(4, 'inner len'))
            v = q.take(n, 'inner data')
            L['inner'].append(dict(t=t, len=n, flag=v[0] if t == 3 and v else -1))
            if t == 1:
                sid, = struct.unpack('<I', v)
            elif t == 2:
                skey = v
            elif t == 0:
                break
        plain = plain[q.i:]
    L['stream'] = STREAM_NAME.get(sid, '?')
    raw = parse_xml(plain)
    hh = raw.findtext('Meta/HeaderHash')
    if L['maj'] == 3 and hh:
        L['hh'] = 'ok' if base64.b64decode(hh) == sha(header) else 'bad'
    want = list(mem_root.iter('Value'))
    got = list(raw.iter('Value'))
    if len(want) != len(got):
        raise KdbxError('values', '%d instead of %d' % (len(got), len(want)))
    total = sum(len((w.text or '').encode()) for w in want if w.get('Protected') == 'True')
    ks = inner_stream(L['stream'], skey).encrypt(bytes(total + 64)) if L['stream'] in ('salsa20', 'chacha20') else b''
    pos = 0
    for w, g in zip(want, got):
        clear = (w.text or '').encode()
        p = w.get('Protected') == 'True'
        t = g.text or ''
        off = -2
        if t == (w.text or ''):
            off = -1
        if p and clear:
            try:
                c = base64.b64decode(t, validate=True)
                if len(c) == len(clear):
                    seg = bytes(a ^ b for a, b in zip(c, clear))
                    off = pos if ks[pos:pos + len(seg)] == seg else ks.find(seg) if ks.find(seg) >= 0 else off
            except ValueError:
                pass
            pos += len(clear)
        L['vals'].append(dict(p=p, n=len(clear), off=off))

"""Generation of database XML with rich content, and of texts."""
import base64
import datetime
import uuid

from lxml import etree

import kdbxlib as K
from project import enc_time

NASTY = ['a', 'b', 'foo', 'Foo', 'foo bar', ' lead', 'trail ', '  ', '\t', 'line\nbreak', 'cr\rlf\r\n', '"', "'", '"\'"',
         "it's", 'say "hi"', '<tag>', '&amp;', '&', ']]>', '{}', '{0}', '%s', '%', '\\', '/', 'a/b', '//x', '[1]', ']', '(', ')',
         '.*', '^$', 'a.c', '$', '{REF:x}', 'é', 'e\u0301', 'ß', '日本語', '\U0001F511', '\u00a0', '\u2028', '\ufeffx', 'None', 'True',
         '0', '-1', 'text()', '" or "1"="1', "' or '1'='1", 'x' * 300, '\u0085', '\u200f', 'z\u0000'[:1], ';', ',', 'a;b',
         '&#13;', 'İ', '\ud7ff', '\ue000', '\ufffd', '~', '`', '@', '#', '\x7f', '\x80', '\U00020000', 'x\U0010FFFD', '\U000E0041']
NASTY = [x for i, x in enumerate(NASTY) if x not in NASTY[:i]]
UNCARRIABLE = ['\x00', 'a\x01b', '\x0b', '\x1f', '\ufffe', '\uffff', '\ud800', 'x\x08']


def text(rng, empty=True):
    r = rng.random()
    if empty and r < 0.08:
        return ''
    if r < 0.75:
        return rng.choice(NASTY)
    n = rng.randint(1, 12)
    return ''.join(rng.choice(NASTY)[:rng.randint(1, 3)] for _ in range(n))


def rand_time(rng, v):
    lo, hi = 693595, 760000       # year 1900 .. 2081
    if rng.random() < 0.1:
        lo, hi = 0, 3652058
    return [rng.randint(lo, hi), rng.randint(0, 86399), 0]


def sub(parent, tag, text=None, **attr):
    e = etree.SubElement(parent, tag, **attr)
    if text is not None:
        e.text = text
    return e


def b64(b):
    return base64.b64encode(b).decode()


GZ = K.gzip(b'gzip data of its own')       # looks compressed


class Gen:
    def __init__(self, rng, version=(4, 0), now=None):
        self.rng = rng
        self.version = version
        self.v = version[0]

    def uuid(self):
        return bytes(self.rng.getrandbits(8) for _ in range(16))

    def times(self, el, variety=True):
        rng = self.rng
        t = sub(el, 'Times')
        tags = ['CreationTime', 'LastModificationTime', 'LastAccessTime', 'ExpiryTime']
        if variety:
            rng.shuffle(tags)
        for tag in tags:
            sub(t, tag, enc_time(rand_time(rng, self.v), self.v))
        sub(t, 'Expires', rng.choice(['True', 'False']))
        sub(t, 'UsageCount', str(rng.randint(0, 5)))
        sub(t, 'LocationChanged', enc_time(rand_time(rng, self.v), self.v))

    def string(self, el, key, value, protected=None):
        s = sub(el, 'String')
        sub(s, 'Key', key)
        v = sub(s, 'Value', value if value != '' or self.rng.random() < .5 else None)
        if protected is not None:
            v.set('Protected', 'True' if protected else 'False')

    def entry_body(self, e, uid, nbin):
        rng = self.rng
        sub(e, 'UUID', b64(uid))
        parts = ['icon', 'times', 'strings', 'at', 'bin', 'tags', 'other']
        if rng.random() < .6:
            rng.shuffle(parts)
        for p in parts:
            if p == 'icon' and rng.random() < .8:
                sub(e, 'IconID', str(rng.randint(0, 68)))
            elif p == 'times':
                self.times(e)
            elif p == 'strings':
                ks = ['Title', 'UserName', 'Password', 'URL', 'Notes']
                if rng.random() < .3:
                    ks.append('otp')
                if rng.random() < .2:
                    ks.remove(rng.choice(ks[1:5]))
                cu = set()
                for _ in range(rng.randint(0, 3)):
                    cu.add(rng.choice(['k1', 'k2', "it's", 'say "k"', 'a b', '<k>', 'title', 'é', 'Key', '{0}']))
                ks += sorted(cu)
                rng.shuffle(ks)
                for k in ks:
                    prot = {'Password': True, 'otp': True}.get(k)
                    if rng.random() < .15 or k in cu:
                        prot = rng.choice([None, True, False])
                    self.string(e, k, text(rng), prot)
            elif p == 'at':
                # programs leave out what is not in use
                if rng.random() < .1:
                    continue
                a = sub(e, 'AutoType')
                if rng.random() < .95:
                    sub(a, 'Enabled', rng.choice(['True', 'False']))
                if rng.random() < .9:
                    sub(a, 'DataTransferObfuscation', '0')
                if rng.random() < .9:
                    sub(a, 'DefaultSequence', rng.choice([None, '{USERNAME}{TAB}', text(rng)]))
                if rng.random() < .25:
                    continue
                s = sub(a, 'Association')
                sub(s, 'Window', rng.choice([None, 'win', text(rng)]))
                if rng.random() < .9:
                    sub(s, 'KeystrokeSequence', rng.choice([None, 'ks']))
                if rng.random() < .2:
                    s = sub(a, 'Association')
                    sub(s, 'Window', 'second')
                    sub(s, 'KeystrokeSequence', 'ks2')
            elif p == 'bin':
                for _ in range(rng.choice([0, 0, 0, 1, 1, 2]) if nbin else 0):
                    b = sub(e, 'Binary')
                    sub(b, 'Key', rng.choice(['f.txt', 'g.bin', text(rng, False)]))
                    sub(b, 'Value', Ref=str(rng.randrange(nbin)))
            elif p == 'tags' and rng.random() < .6:
                sub(e, 'Tags', rng.choice([None, 'tag1', 'tag1;tag2', 'a,b', 't x;y']))
            elif p == 'other':
                if rng.random() < .4:
                    sub(e, 'ForegroundColor', rng.choice([None, '#ff0000']))
                    sub(e, 'OverrideURL', rng.choice([None, 'cmd://x']))
                if rng.random() < .2:
                    cd = sub(e, 'CustomData')
                    it = sub(cd, 'Item')
                    sub(it, 'Key', 'ck')
                    sub(it, 'Value', text(rng))
                if rng.random() < .1:
                    sub(e, 'QualityCheck', 'False')

    def entry(self, parent, nbin, nhist=None):
        rng = self.rng
        e = sub(parent, 'Entry')
        uid = self.uuid()
        self.entry_body(e, uid, nbin)
        n = rng.choice([0, 0, 0, 1, 2]) if nhist is None else nhist
        if n or rng.random() < .3:
            h = etree.Element('History')
            for _ in range(n):
                self.entry_body(sub(h, 'Entry'), uid, nbin)
            if rng.random() < .5:
                e.append(h)
            else:
                e.insert(rng.randint(1, len(e)), h)
        return e

    def group(self, parent, name, uid=None, nbin=0):
        rng = self.rng
        g = sub(parent, 'Group')
        sub(g, 'UUID', b64(uid or self.uuid()))
        sub(g, 'Name', name)
        if rng.random() < .5:
            sub(g, 'Notes', rng.choice([None, text(rng)]))
        if rng.random() < .7:
            sub(g, 'IconID', str(rng.randint(0, 68)))
        self.times(g)
        if rng.random() < .7:
            sub(g, 'IsExpanded', 'True')
            sub(g, 'EnableAutoType', 'null')
            sub(g, 'LastTopVisibleEntry', b64(bytes(16)))
        return g

    def db(self, ngroups=4, nentries=6, nbin=3, bin=None, interleave=True, nhist=None):
        """Returns (root element, kdbx4 binaries with flag byte).
        bin: None (random), 'none', 'zero', 'present', 'dangling'"""
        rng = self.rng
        root = etree.Element('KeePassFile')
        m = sub(root, 'Meta')
        sub(m, 'Generator', 'KeePass')
        sub(m, 'DatabaseName', rng.choice([None, 'db', text(rng)]))
        sub(m, 'DatabaseNameChanged', enc_time(rand_time(rng, self.v), self.v))
        sub(m, 'DatabaseDescription', rng.choice([None, text(rng)]))
        sub(m, 'DefaultUserName', rng.choice([None, text(rng)]))
        sub(m, 'MaintenanceHistoryDays', '365')
        sub(m, 'MasterKeyChanged', enc_time(rand_time(rng, self.v), self.v))
        sub(m, 'MasterKeyChangeRec', '-1')
        sub(m, 'MasterKeyChangeForce', str(rng.choice([-1, 0, 10, 100000])))
        mp = sub(m, 'MemoryProtection')
        sub(mp, 'ProtectTitle', 'False')
        sub(mp, 'ProtectPassword', 'True')
        if rng.random() < .4:
            ci = sub(m, 'CustomIcons')
            ic = sub(ci, 'Icon')
            sub(ic, 'UUID', b64(self.uuid()))
            sub(ic, 'Data', b64(b'PNG'))
        sub(m, 'RecycleBinEnabled', 'True')
        mode = bin or rng.choice(['zero', 'present', 'dangling'])
        rbu = bytes(16) if mode == 'zero' else self.uuid()
        sub(m, 'RecycleBinUUID', b64(rbu))
        sub(m, 'HistoryMaxItems', '10')
        cd = sub(m, 'CustomData')
        if rng.random() < .5:
            it = sub(cd, 'Item')
            sub(it, 'Key', 'plugin')
            sub(it, 'Value', text(rng))
        datas = [rng.choice([b'', b'x', b'hello', bytes(range(256)), bytes([i % 256]) * 40, b'dup', b'dup', GZ, GZ + b'tail']) for i in range(nbin)]
        bins = [bytes([rng.randint(0, 1)]) + d for d in datas]
        if self.v == 3:
            be = sub(m, 'Binaries')
            order = list(range(nbin))
            if rng.random() < .4:
                rng.shuffle(order)
            for i in order:
                comp = rng.random() < .5
                d = K.gzip(datas[i]) if comp else datas[i]
                b = sub(be, 'Binary', b64(d) if d else None, ID=str(i), Compressed=str(comp))
                if not comp and rng.random() < .5:
                    del b.attrib['Compressed']
        rt = sub(root, 'Root')
        top = self.group(rt, rng.choice(['Root', 'db', None]))
        if top.find('Name').text is None and rng.random() < .5:
            top.find('Name').text = 'R'
        groups = [top]
        todo = ['g'] * (ngroups - 1) + ['e'] * nentries
        if interleave:
            rng.shuffle(todo)
        else:
            todo.sort()
        names = ['g1', 'g2', 'g3', "q'g", 'dq"g', 'g1']
        if mode == 'present':
            groups.append(self.group(rng.choice(groups), 'Recycle Bin', rbu))
        for k in todo:
            par = rng.choice(groups)
            if k == 'g':
                groups.append(self.group(par, rng.choice(names + [text(rng, False)])))
            else:
                self.entry(par, nbin, nhist)
        if rng.random() < .6:
            do = sub(rt, 'DeletedObjects')
            if rng.random() < .5:
                x = sub(do, 'DeletedObject')
                sub(x, 'UUID', b64(self.uuid()))
                sub(x, 'DeletionTime', enc_time(rand_time(rng, self.v), self.v))
        return root, bins


def rich_kdf(rng, kdf, maj):
    """parameters other programs may choose: many rounds, memory that is not a whole number of KiB, long salts,
    further items in any order"""
    k = dict(kdf)
    if k['name'] == 'aeskdf':
        k['R'] = rng.choice([1, 2, rng.randint(3, 300), rng.randint(3, 300), 255, 256, 65535, 65536, rng.randint(65537, 70000)])
    else:
        k['I'] = rng.choice([1, 2, 3, 4, 11, 70])
        k['P'] = rng.choice([1, 2, 3, 4, 5, 8, 17])
        k['M'] = 8192 * k['P'] + rng.choice([0, 0, 1, 1023, 1024, rng.randint(0, 10**5)])
        if k['I'] < 5 and rng.random() < .1:
            k['M'] = rng.choice([2**24, 2**26, 10**7])
        k['S'] = bytes(rng.randrange(256) for _ in range(rng.choice([8, 16, 31, 32, 33, 64])))
    if maj == 4 and rng.random() < .5:
        k['extra'] = rng.sample([(0x18, 'text', ''), (0x18, 'te\u00e4t', 'v\u00e9'), (0x04, 'n', 2**32 - 1), (0x08, 'f', True), (0x08, 'g', False),
                                 (0x42, 'b', b''), (0x42, 'B', b'\0\1'), (0x0C, 'i', -5), (0x0D, 'j', -2**40), (0x05, 'q', 2**64 - 1)], rng.randint(1, 5))
    if maj == 4 and rng.random() < .5:
        k['order'] = rng.randint(0, 10**6)
    return k


def random_params(rng, version=None, stream=None, fast=True):
    version = version or rng.choice([(3, 1), (4, 0), (4, 0), (4, 1), (3, 0)])
    cipher = rng.choice(['aes256', 'chacha20', 'aes256', 'chacha20', 'twofish'])
    if version[0] == 3:
        kdf = dict(name='aeskdf', R=rng.randint(1, 9))
        extra = []
        if rng.random() < .2:
            extra.append((1, b'comment'))
        salt = 32
        stream = stream or rng.choice(['salsa20', 'salsa20', 'chacha20'])
    else:
        n = rng.choice(['argon2', 'argon2id', 'aeskdf'])
        kdf = dict(name=n, R=rng.randint(1, 9)) if n == 'aeskdf' else dict(
            name=n, I=rng.randint(1, 2), M=rng.choice([8192, 16384, 65536]), P=rng.randint(1, 2), V=rng.choice([0x10, 0x13]))
        if n != 'aeskdf':
            kdf['M'] = max(kdf['M'], 8192 * kdf['P'])
        extra = []
        if rng.random() < .25:
            extra.append((1, b'a comment'))
        if rng.random() < .25:
            extra.append((12, K.vd_build([(0x18, 'k', 'vé'), (0x04, 'n', 7), (0x08, 'f', True), (0x42, 'b', b'\0\1'),
                                          (0x0C, 'i', -5), (0x0D, 'j', -2**40), (0x05, 'q', 2**40)])))
        salt = 32
        stream = stream or rng.choice(['chacha20', 'chacha20', 'salsa20'])
    return K.Params(version=version, cipher=cipher, kdf=kdf, compression=rng.random() < .5, stream=stream,
                    blocks=rng.choice([2**20, 2**20, [64], [100, 16, 1000], [1000000, 5]]), rng=rng,
                    extra_fields=extra, order=rng.choice([None, rng.randint(0, 1000)]), salt_len=salt)

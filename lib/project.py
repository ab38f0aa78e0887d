"""Projection of a decrypted database (lxml tree + binaries) to the abstract
state of spec/KPCore.tla.  Uses the XML structure of the KDBX format only."""
import base64
import copy
import datetime
import hashlib
import re
import struct

from lxml import etree

EPOCH = datetime.date(1, 1, 1)


class Interner:
    """Maps arbitrary strings / bytes to ASCII tokens ('' stays '')."""

    def __init__(self, prefix='s'):
        self.m = {}
        self.prefix = prefix

    def __call__(self, x):
        if x is None or x == '' or x == b'':
            return '' if not isinstance(x, bytes) else 'b0'
        k = (type(x) is bytes, x)
        if k not in self.m:
            self.m[k] = '%s%d' % ('b' if isinstance(x, bytes) else self.prefix, len(self.m) + 1)
        return self.m[k]

    def rev(self):
        return {v: k[1] for k, v in self.m.items()}


class Ctx:
    """Shared token tables of one trace."""

    def __init__(self):
        self.s = Interner('s')
        self.u = Interner('u')   # uuids
        self.o = Interner('o')   # other xml

    def uid(self, uuid_bytes):
        return 'z' if uuid_bytes == bytes(16) else self.u(uuid_bytes.hex())

    def uid_b64(self, text):
        if not text:
            return ''
        try:
            b = base64.b64decode(text, validate=True)
        except Exception:
            return self.u('bad:' + text)
        return self.uid(b) if len(b) == 16 else self.u('bad:' + text)


def iso(text):
    m = re.fullmatch(r'(\d{4})-(\d\d)-(\d\d)T(\d\d):(\d\d):(\d\d)(?:\.(\d{1,6}))?(Z|[+-]\d\d:\d\d(?::\d\d)?)?', text)
    if not m:
        return None
    y, mo, d, h, mi, s = (int(m.group(i)) for i in range(1, 7))
    us = int((m.group(7) or '').ljust(6, '0') or 0)
    off = 0
    z = m.group(8)
    if z and z != 'Z':
        p = [int(x) for x in z[1:].split(':')]
        off = (p[0] * 3600 + p[1] * 60 + (p[2] if len(p) > 2 else 0)) * (1 if z[0] == '+' else -1)
    try:
        day = (datetime.date(y, mo, d) - EPOCH).days
    except ValueError:
        return None
    t = day * 86400 + h * 3600 + mi * 60 + s - off
    return [t // 86400, t % 86400, us]


def dec_time(text, v):
    """-> [day, sec, usec] or [] (absent); an undecodable text gives [-1,-1,-1]"""
    if text is None or text == '':
        return []
    if v == 4:
        try:
            b = base64.b64decode(text, validate=True)
            if len(b) == 8:
                n, = struct.unpack('<Q', b)
                return [n // 86400, n % 86400, 0] if n < 2**47 else [-1, -1, -1]
        except Exception:
            pass
    r = iso(text.strip())
    return r if r is not None else [-1, -1, -1]


def dt_time(dt):
    """aware datetime -> [day, sec, usec] in UTC"""
    d = dt - datetime.datetime(1, 1, 1, tzinfo=datetime.timezone.utc)
    return [d.days, d.seconds, d.microseconds]


def enc_time(t, v):
    day, sec, us = t
    n = day * 86400 + sec
    if v == 4:
        return base64.b64encode(struct.pack('<Q', n)).decode()
    d = EPOCH + datetime.timedelta(days=day)
    return '%04d-%02d-%02dT%02d:%02d:%02dZ' % (d.year, d.month, d.day, sec // 3600, sec // 60 % 60, sec % 60)


TIMES = {'c': 'CreationTime', 'm': 'LastModificationTime', 'a': 'LastAccessTime', 'x': 'ExpiryTime'}


def split_tags(text):
    if not text:
        return []
    return re.split('[,;]', text)


def canon(el):
    """Canonical form of an XML element, insensitive to blank text between elements."""
    kids = list(el)
    text = el.text or ''
    if kids and not text.strip():
        text = ''
    return (str(el.tag), tuple(sorted(el.attrib.items())), text,
            tuple(canon(k) + ((k.tail or '').strip(),) for k in kids))


def proj_times(el, v):
    t = el.find('Times')
    r = {}
    for k, tag in TIMES.items():
        r[k] = dec_time(t.findtext(tag), v) if t is not None else []
    r['e'] = (t.findtext('Expires') or '') if t is not None else ''
    return r


def strip_times(el):
    t = el.find('Times')
    if t is not None:
        for tag in list(TIMES.values()) + ['Expires']:
            x = t.find(tag)
            if x is not None:
                t.remove(x)


def proj_entry(el, c, v, dups, snap=False):
    f = {}
    for s in el.findall('String'):
        k = s.findtext('Key') or ''
        val = s.find('Value')
        tok = c.s(k) if k not in KEYS else k
        while tok in f:
            dups.append('field')
            tok += '#'
        f[tok] = {'v': c.s(val.text if val is not None else ''),
                  'p': val is not None and val.get('Protected') == 'True'}
    at = el.find('AutoType')
    r = {
        'f': f,
        'tags': [c.s(t) for t in split_tags(el.findtext('Tags'))],
        'icon': c.s(el.findtext('IconID')),
        'ae': (at.findtext('Enabled') or '') if at is not None else '',
        'as': c.s(at.findtext('DefaultSequence')) if at is not None else '',
        'aw': c.s(at.findtext('Association/Window')) if at is not None else '',
        't': proj_times(el, v),
        'att': [{'n': c.s(b.findtext('Key')), 'r': int(b.find('Value').get('Ref', '-1'))} for b in el.findall('Binary')],
    }
    h = el.findall('History')
    if len(h) > 1:
        dups.append('history')
    if snap:
        r['id'] = c.uid_b64(el.findtext('UUID'))
        r['nested'] = len(h) > 0
    else:
        r['hist'] = [proj_entry(x, c, v, dups, True) for x in (h[0].findall('Entry') if h else [])]
    o = copy.deepcopy(el)
    for tag in ('UUID', 'Tags', 'IconID'):
        if len(o.findall(tag)) > 1:
            dups.append(tag)
    for ch in list(o):
        if ch.tag in ('UUID', 'String', 'Tags', 'IconID', 'Binary', 'History'):
            o.remove(ch)
    strip_times(o)
    oa = o.find('AutoType')
    if oa is not None:
        for p in ('Enabled', 'DefaultSequence', 'Association/Window'):
            x = oa.find(p)
            if x is not None:
                x.getparent().remove(x)
        # what is empty is as good as absent
        for x in oa.findall('Association'):
            if not len(x) and not (x.text or '').strip():
                oa.remove(x)
        if not len(oa) and not (oa.text or '').strip():
            o.remove(oa)
    r['o'] = c.o(repr(sorted(repr(canon(k)) for k in o)) + repr(sorted(o.attrib.items())))
    return r


def proj_group(g, c, v, dups):
    for tag in ('UUID', 'Name', 'Notes', 'IconID'):
        if len(g.findall(tag)) > 1:
            dups.append(tag)
    o = etree.Element('Group')
    for ch in g:
        if ch.tag not in ('Group', 'Entry', 'UUID', 'Name', 'Notes', 'IconID'):
            o.append(copy.deepcopy(ch))
    r = {'u': c.uid_b64(g.findtext('UUID')), 'name': c.s(g.findtext('Name')), 'notes': c.s(g.findtext('Notes')), 'icon': c.s(g.findtext('IconID')),
         't': proj_times(g, v)}
    strip_times(o)
    r['o'] = c.o(repr(sorted(repr(canon(k)) for k in o)) + repr(sorted(g.attrib.items())))
    return r


def outline(el, c, v, n=0):
    """an element and everything below it, in document order, with the depth"""
    if el.tag == 'Entry':
        return [{'dp': n, 'r': dict(proj_entry(el, c, v, []), u=c.uid_b64(el.findtext('UUID')))}]
    out = [{'dp': n, 'r': proj_group(el, c, v, [])}]
    for ch in el:
        if ch.tag in ('Group', 'Entry'):
            out += outline(ch, c, v, n + 1)
    return out


KEYS = ('Title', 'UserName', 'Password', 'URL', 'Notes', 'otp')


def elements(root):
    """all groups and entries (not those in histories), in document order"""
    rt = root.find('Root')
    return [el for el in rt.iter('Group', 'Entry') if el.getparent().tag != 'History'] if rt is not None else []


class Ids:
    """Identity of groups and entries: the XML element, not the UUID (which can be reassigned and shared).
    The id of an element is, if possible, the token of the UUID it was first seen with."""

    def __init__(self, c):
        self.c = c
        self.m = {}         # element -> id
        self.u = {}         # id -> uuid token last seen

    def _free(self, t, used):
        t = t or 'none'
        while t in used:
            t += '+'
        return t

    def update(self, root):
        """{element: id} of this tree; elements of another tree (read again) are matched with the known ones"""
        els = elements(root)
        tok = {el: self.c.uid_b64(el.findtext('UUID')) for el in els}
        new = {el: self.m[el] for el in els if el in self.m}
        if not new and self.m:
            old = list(self.m.items())
            if [(e.tag, self.u[i]) for e, i in old] == [(e.tag, tok[e]) for e in els]:
                new = {el: i for el, (_, i) in zip(els, old)}
        used = set(new.values())
        gone = {}
        for e, i in self.m.items():
            if i not in used:
                gone.setdefault((e.tag, self.u[i]), []).append(i)
        for el in els:
            if el not in new:
                g = gone.get((el.tag, tok[el]))
                i = g.pop(0) if g else self._free(tok[el], used)
                if i in used:
                    i = self._free(i, used)
                new[el] = i
                used.add(i)
        self.m = {el: new[el] for el in els}
        self.u = {self.m[el]: tok[el] for el in els}
        return self.m

    def other(self, root):
        """{element: id} of another copy of the database, without adopting it"""
        x = Ids(self.c)
        x.m, x.u = self.m, self.u
        return x.update(root)


def project(root, binaries, version, c, ids=None, bp=None):
    """root: KeePassFile element with clear values; binaries: list of bytes; ids: {element: id};
    bp: protection flags of the binaries, where known."""
    if ids is None:
        ids = Ids(c).update(root)
    v = version[0]
    dups = []
    G, En = {}, {}
    meta = root.find('Meta')
    rt = root.find('Root')
    tops = rt.findall('Group')

    def walk(g):
        gid = ids[g]
        G[gid] = rec = dict(proj_group(g, c, v, dups), kids=[])
        for ch in g:
            if ch.tag == 'Group':
                rec['kids'].append(walk(ch))
            elif ch.tag == 'Entry':
                eid = ids[ch]
                En[eid] = dict(proj_entry(ch, c, v, dups), u=c.uid_b64(ch.findtext('UUID')))
                rec['kids'].append(eid)
        return gid

    rootid = walk(tops[0]) if tops else ''
    for extra in tops[1:]:
        dups.append('root')
        walk(extra)
    known = ('DatabaseName', 'DatabaseDescription', 'DefaultUserName', 'MasterKeyChanged', 'MasterKeyChangeForce',
             'MasterKeyChangeRec', 'RecycleBinUUID', 'Binaries', 'HeaderHash')
    mo = [repr(canon(x)) for x in meta if x.tag not in known] + \
         [repr(canon(x)) for x in rt if x.tag != 'Group'] + [repr(canon(x)) for x in root if x.tag not in ('Meta', 'Root')]
    return {
        'v': v, 'root': rootid, 'g': G, 'e': En,
        'bins': [c.s(bytes(b)) for b in binaries], 'bp': {'k': bp is not None, 's': list(bp or [])},
        'rb': c.uid_b64(meta.findtext('RecycleBinUUID')),
        'm': {'name': c.s(meta.findtext('DatabaseName')), 'desc': c.s(meta.findtext('DatabaseDescription')),
              'user': c.s(meta.findtext('DefaultUserName')), 'mkc': dec_time(meta.findtext('MasterKeyChanged'), v),
              'force': meta.findtext('MasterKeyChangeForce') or '', 'rec': meta.findtext('MasterKeyChangeRec') or '',
              'o': c.o(repr(mo))},
        'dups': sorted(set(dups)),
    }


def kdbx3_binaries(root):
    import zlib
    out = {}
    for b in root.findall('Meta/Binaries/Binary'):
        d = base64.b64decode(b.text or '')
        if b.get('Compressed') == 'True' and b.text:
            d = zlib.decompress(d, 47)
        out[int(b.get('ID'))] = d
    return [out[k] for k in sorted(out)]


def project_kp(kp, c, ids=None):
    """Projection of an open session through its public attributes."""
    root = kp.tree.getroot()
    return project(root, kp.binaries, kp.version, c, ids.update(root) if ids else None)


def binary_flags(d):
    return [x[0] & 1 == 1 for x in d.binaries] if d.version[0] == 4 else None


def project_decoded(d, c, ids=None):
    """Projection of a file decoded by kdbxlib."""
    b = [x[1:] for x in d.binaries] if d.version[0] == 4 else kdbx3_binaries(d.root)
    return project(d.root, b, d.version, c, ids.other(d.root) if ids else None, binary_flags(d))

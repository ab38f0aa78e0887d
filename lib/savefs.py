"""Conformance of save() with spec/SaveFS.tla: every file operation of a save is logged by an interposed libc
(shim/fsshim.c), and the save is repeated with the process killed at, or an error injected into, each of them."""
import ctypes
import errno
import hashlib
import json
import os
import pickle
import random
import shutil
import signal
import subprocess
import sys
import tempfile
import traceback
from pathlib import Path

LOG, KILL, FAIL, HALF, SHORT, CALL, STUCK = range(7)
ERRNOS = {'ENOSPC': errno.ENOSPC, 'EIO': errno.EIO, 'EACCES': errno.EACCES, 'EDQUOT': errno.EDQUOT, 'EROFS': errno.EROFS, 'EMFILE': errno.EMFILE, 'EXDEV': errno.EXDEV, 'EINVAL': errno.EINVAL}
TARGETS = ['db.kdbx', 'db', 'db.tmp', 'a.kdbx.tmp', '.kdbx', '.tmp', 'with space.kdbx', 'name.with.dots.kdbx', 'd\u00e4tabase.kdbx', '~db', 'db.bak', 'tmp', '%s.kdbx', 'x' * 180]


def scenario(seed):
    rng = random.Random(seed)
    t = TARGETS[seed % len(TARGETS)] if rng.random() < .7 else rng.choice(TARGETS)
    return {'seed': seed, 'maj': rng.choice([3, 4]), 'target': t, 'exists': rng.random() < .75, 'how': rng.choice(['own', 'str', 'path', 'rel', 'dotrel', 'tmpcwd']),
            'creds': rng.choice(['pw', 'kf', 'both', 'none', 'tk']), 'size': rng.choice([0, 0, 0, 20000, 300000, 1500000]), 'sub': rng.random() < .3,
            'trouble': '' if rng.random() < .85 else rng.choice(['keyfile gone', 'directory', 'no parent'])}


class World:
    """A scratch directory with the database, possibly the target, and bystanders."""

    def __init__(self, sc, base):
        import dbgen
        import kdbxlib as K
        self.sc = sc
        rng = random.Random(sc['seed'] * 31 + 7)
        g = dbgen.Gen(rng, (sc['maj'], 1))
        root, bins = g.db(ngroups=2, nentries=2, nbin=1)
        p = dbgen.random_params(rng, (sc['maj'], 1))
        if p.cipher == 'twofish':
            p.cipher, p.iv = 'aes256', p.iv.ljust(16)[:16]
        self.pw = None if sc['creds'] in ('kf', 'none') else 'pw'
        self.kfdata = rng.randbytes(50) if sc['creds'] in ('kf', 'both') else None
        self.data = K.encode(p, root, bins, self.pw, self.kfdata)
        g2 = dbgen.Gen(rng, (sc['maj'], 1))
        root2, bins2 = g2.db(ngroups=1, nentries=3, nbin=1)
        self.olddata = K.encode(p, root2, bins2, 'other')
        self.names = {}
        t = sc['target']
        self.rel = ('sub/' if sc['sub'] else '') + t
        d = 'sub/' if sc['sub'] else ''
        stem = t.rsplit('.', 1)[0] or t
        by = {t + '.tmp', stem + '.tmp', t + '~', '.' + t, t + '.bak', stem, stem + '.kdbx', 'temp', 'tmp.kdbx', stem + '.TMP', t + '.lock', t + '.old', t + '.new', '.~' + t}
        self.files = {}
        for b in sorted(by):
            if b and b != t:
                self.files[d + b] = b'bystander ' + b.encode() + rng.randbytes(8)
        self.files['top.tmp'] = b'top'
        self.files[('' if sc['sub'] else 'sub/') + t] = b'same name elsewhere'
        self.files['tmp.d/x'] = b'in a directory'
        if self.kfdata is not None:
            self.files[d + 'key.file'] = self.kfdata
        own = sc['how'] == 'own' and not sc['trouble'] == 'directory'
        self.src = self.rel if own else d + 'src-of.save'
        if own:
            self.files[self.rel] = self.data
        else:
            self.files[self.src] = self.data
            if sc['exists']:
                self.files[self.rel] = self.olddata
        if sc['trouble'] == 'directory':
            self.files.pop(self.rel, None)
            self.files[self.rel + '/inside'] = b'inside'
        if sc['trouble'] == 'no parent':
            self.rel = 'gone/' + t
        # a file cannot be both
        for n in list(self.files):
            if any(o.startswith(n + '/') for o in self.files):
                del self.files[n]
        self.base = base

    def populate(self):
        top = tempfile.mkdtemp(prefix='top-', dir=self.base)
        os.mkdir(os.path.join(top, 'scratch for temporary files'))
        for n, b in self.files.items():
            p = os.path.join(top, n)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, 'wb') as f:
                f.write(b)
        return top

    def snapshot(self, top):
        res = {}
        for d, ds, fs in os.walk(top):
            for f in fs:
                p = os.path.join(d, f)
                with open(p, 'rb') as fh:
                    res[os.path.relpath(p, top)] = fh.read()
        return res

    def open(self, top):
        from pykeepass import PyKeePass
        kf = os.path.join(top, os.path.dirname(self.src), 'key.file') if self.kfdata is not None else None
        src = os.path.join(top, self.src)
        if self.sc['creds'] == 'tk':
            tk = PyKeePass(src, password=self.pw).transformed_key
            return PyKeePass(src, transformed_key=tk)
        return PyKeePass(src, password=self.pw, keyfile=kf)

    def edit(self, kp, salt=0):
        rng = random.Random(self.sc['seed'] * 17 + salt)
        kp.add_entry(kp.root_group, 'saved %d' % rng.getrandbits(40), 'u', 'p')
        if self.sc['size'] and not salt:
            kp.entries[-1].add_attachment(kp.add_binary(rng.randbytes(self.sc['size'])), 'big')

    def goal(self, top):
        p = os.path.join(top, self.rel)
        h = self.sc['how']
        if h == 'own' and self.sc['trouble'] not in ('directory', 'no parent'):
            return None
        if h == 'path':
            return Path(p)
        if h in ('rel', 'dotrel'):
            os.chdir(top)
            return ('./' if h == 'dotrel' else '') + self.rel
        if h == 'tmpcwd' and os.path.isdir(os.path.dirname(p)):
            os.chdir(os.path.dirname(p))
            return os.path.basename(p)
        return p

    def complete(self, data, want):
        import container
        import kdbxlib as K
        try:
            return container.tok_dec(K.decode(data, self.pw, self.kfdata)) in want
        except Exception:
            return False


def _reported(e, no):
    """the error itself, or one explicitly raised from it"""
    while e is not None:
        if isinstance(e, OSError) and e.errno == no:
            return True
        e = e.__cause__ or (e.__context__ if not e.__suppress_context__ and not isinstance(e, OSError) else None)
    return False


def run_one(lib, w, mode, n, no=0, follow=False, other=False):
    """One save in a forked process.  Returns the event and the number of operations."""
    import container
    top = w.populate()
    sc = w.sc
    logf = tempfile.TemporaryFile(dir=w.base)
    r, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            signal.alarm(240)
            os.environ['TMPDIR'] = os.path.join(top, 'scratch for temporary files')
            tempfile.tempdir = None
            kp = w.open(top)
            w.edit(kp)
            goal = w.goal(top)
            want = [container.tok_kp(kp)]
            if sc['trouble'] == 'keyfile gone' and kp.keyfile:
                kp.keyfile = os.path.join(top, 'nowhere', 'key')
            out = os.fdopen(wr, 'wb')
            cb = None
            if mode == CALL:
                kp2 = w.open(top)
                w.edit(kp2, 1)
                want2 = container.tok_kp(kp2)
                fn = os.path.join(top, w.rel) if not other else os.path.join(top, w.src)
                if fn == os.path.join(top, w.rel):
                    want.append(want2)

                def second():
                    kp2.save(fn)
                cb = ctypes.CFUNCTYPE(None)(second)
                lib.shim_callback(cb)
                pickle.dump({'want': want, 'want2': want2}, out)
            else:
                pickle.dump({'want': want}, out)
            out.flush()
            lib.shim_arm(os.fsencode(top), mode, n, no, logf.fileno())
            exc = None
            try:
                kp.save(goal)
            except Exception as e:
                exc = e
            finally:
                lib.shim_disarm()
            res = {'out': 'ok' if exc is None else 'raised', 'reported': exc is not None and _reported(exc, no), 'count': lib.shim_count(),
                   'exc': '' if exc is None else ''.join(traceback.format_exception(exc))[-1500:], 'lib': exc is None or '/pykeepass/' in ''.join(traceback.format_exception(exc))}
            if mode == LOG:
                res['mem'] = container.tok_kp(kp)
            pickle.dump(res, out)
            out.flush()
            code = 0
            if follow:
                # the session goes on: the next save succeeds
                snap = w.snapshot(top)
                pickle.dump(snap, out)
                out.flush()
                try:
                    kp.save(goal)
                    with open(os.path.join(top, w.rel), 'rb') as f:
                        res = 'ok' if w.complete(f.read(), want) else 'not complete'
                except Exception as e:
                    res = 'raised ' + type(e).__name__
                pickle.dump(res, out)
                out.flush()
        except BaseException:
            traceback.print_exc()
        finally:
            os._exit(code)
    os.close(wr)
    got = []
    with os.fdopen(r, 'rb') as f:
        while True:
            try:
                got.append(pickle.load(f))
            except EOFError:
                break
    _, st = os.waitpid(pid, 0)
    code = os.waitstatus_to_exitcode(st)
    killed = mode in (KILL, HALF) and code == 77
    if not killed and (code != 0 or len(got) < 2):
        raise RuntimeError('save child: exit %s' % code)
    want = got[0]['want']
    res = {'out': 'killed', 'reported': False, 'exc': ''} if killed else got[1]
    snap = got[2] if len(got) > 2 else w.snapshot(top)
    nxt = got[3] if len(got) > 3 else ''
    if killed and follow:
        # a new process works with what is there
        pid = os.fork()
        if pid == 0:
            code = 9
            try:
                signal.alarm(240)
                kp = w.open(top)
                w.edit(kp, 2)
                t2 = container.tok_kp(kp)
                kp.save(w.goal(top))
                with open(os.path.join(top, w.rel), 'rb') as f:
                    code = 0 if w.complete(f.read(), [t2]) else 8
            except BaseException:
                traceback.print_exc()
            finally:
                os._exit(code)
        code = os.waitstatus_to_exitcode(os.waitpid(pid, 0)[1])
        nxt = 'ok' if code == 0 else 'exit %d' % code
    logf.seek(0)
    lines = logf.read().decode('utf-8', 'replace').splitlines()
    logf.close()
    ids = {}

    def name(x):
        return ids.setdefault(x, 'f%d' % len(ids))
    target = name(w.rel)
    names = [name(x) for x in sorted(w.files)]
    ops = []
    for ln in lines:
        if ln == 'K':
            break
        rr = 'ok'
        if ln[:2] in ('F ', 'f '):
            rr = 'failed'
            ln = ln[2:]
        o, rest = ln.split(' ', 1)
        op = {'o': o, 'a': '', 'b': '', 'n': 0, 'c': False, 't': False, 'r': rr}
        if o == 'open':
            fl, a = rest.split(' ', 1)
            op.update(a=name(a), c=fl[0] == '1', t=fl[1] == '1')
        elif o in ('write', 'truncate'):
            k, a = rest.split(' ', 1)
            op.update(a=name(a), n=int(k))
        elif '\t' in rest:
            a, b = rest.split('\t')
            op.update(a=name(a), b=name(b))
        else:
            op.update(a=name(rest))
        ops.append(op)
    post = {}
    size = 0
    for x, b in snap.items():
        old = w.files.get(x)
        if other and x == w.src and x != w.rel:
            post[name(x)] = 'same' if w.complete(b, [got[0]['want2']]) else 'other'
        elif x == w.rel and b != old and w.complete(b, want):
            post[name(x)] = 'new'
            size = len(b)
        else:
            post[name(x)] = 'same' if b == old else 'other'
    must = {LOG: 'ok', SHORT: 'ok', CALL: 'ok', KILL: '', HALF: '', FAIL: 'report', STUCK: 'report'}[mode]
    if sc['trouble'] and not (sc['trouble'] == 'keyfile gone' and sc['creds'] not in ('kf', 'both')):
        must = '' if mode in (KILL, HALF) else 'raise'
        nxt = ''
    shutil.rmtree(top, ignore_errors=True)
    ev = {'k': 'save', 'target': target, 'names': names, 'ops': ops if mode != CALL else [], 'out': res['out'], 'must': must, 'reported': bool(res['reported']), 'post': post,
          'size': size, 'next': nxt,
          '_': {'scenario': sc, 'mode': ['log', 'kill', 'fail', 'half', 'short', 'call', 'stuck'][mode], 'n': n, 'errno': no, 'log': lines[:40], 'exc': res['exc'], 'ids': ids}}
    ev['_all'] = lines
    return ev, res.get('count', 0)


def worker(shim, seeds, thorough):
    lib = ctypes.CDLL(shim)
    base = tempfile.mkdtemp(prefix='savefs')
    evs = []
    try:
        for s in seeds:
            sc = scenario(s)
            rng = random.Random(s)
            w = World(sc, base)
            ev, n = run_one(lib, w, LOG, 0)
            evs.append(ev)
            if ev['out'] == 'ok' and not ev['_']['log']:
                raise RuntimeError('no operation of the save was seen')
            points = list(range(1, n + 1))
            if n > 30:
                # a save that writes in small pieces: the beginning, the end, everything but writes and some of those
                log = ev['_all']
                some = {i for i in points if not (log[i - 1] if i <= len(log) else '').startswith('write')}
                points = sorted(set(points[:8] + points[-10:]) | set(rng.sample(points, 8)) | set(sorted(some)[:24]))
            for i in points:
                evs.append(run_one(lib, w, KILL, i, follow=rng.random() < .3)[0])
                if sc['trouble']:
                    continue            # an error on top of trouble would be two faults
                kinds = list(ERRNOS)
                for k in (kinds if thorough else rng.sample(kinds[:4], 1) + rng.sample(kinds, 1)):
                    evs.append(run_one(lib, w, FAIL, i, ERRNOS[k], follow=rng.random() < .4)[0])
                for k in (kinds if thorough else rng.sample(kinds[:4], 1) + rng.sample(kinds, 1)):
                    evs.append(run_one(lib, w, STUCK, i, ERRNOS[k])[0])
                op = ev['_all'][i - 1] if i <= len(ev['_all']) else ''
                if op.startswith('write') or not op:
                    evs.append(run_one(lib, w, HALF, i)[0])
                    evs.append(run_one(lib, w, SHORT, i)[0])
                evs.append(run_one(lib, w, CALL, i, other=rng.random() < .4)[0])
    finally:
        shutil.rmtree(base, ignore_errors=True)
    return evs


_SHIM = None


def job(a):
    shim, seeds, thorough = a
    env = dict(os.environ, LD_PRELOAD=shim)
    r = subprocess.run([sys.executable, '-B', os.path.abspath(__file__)], input=json.dumps(a).encode(), env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=840)
    if r.returncode:
        raise RuntimeError('savefs worker: ' + r.stderr.decode('utf-8', 'replace')[-3000:])
    return [json.loads(x) for x in r.stdout.decode().splitlines()]


def model(check):
    import tlc
    for proto, ex, bad in [('rename', 'TRUE', None), ('rename', 'FALSE', None), ('inplace', 'TRUE', 'Atomic'), ('unlinkfirst', 'TRUE', 'Atomic'),
                           ('fixedname', 'TRUE', 'Bystanders'), ('leaves', 'TRUE', 'Raised')]:
        rc, out = tlc.run('SaveFSMC', cfg='SPECIFICATION Spec\nCONSTANTS W=%d PROTO="%s" EXISTS=%s\nINVARIANT Atomic\nINVARIANT Bystanders\nINVARIANT Returned\n'
                          'INVARIANT Raised\nCHECK_DEADLOCK FALSE\n' % (4, proto, ex))
        g, d = tlc.stats(out)
        if bad is None:
            if 'No error has been found' not in out:
                raise tlc.TLCError(out[-2000:])
            check.add('states', d)
            check.add('transitions', g)
        elif 'Invariant %s is violated' % bad not in out:
            raise tlc.TLCError('the wrong protocol %s passes: %s' % (proto, out[-2000:]))


def saves(check, n, thorough):
    import judge
    import vf
    model(check)
    d = tempfile.mkdtemp(prefix='shim')
    try:
        shim = os.path.join(d, 'fsshim.so')
        subprocess.run(['gcc', '-O1', '-w', '-shared', '-fPIC', '-o', shim, os.path.join(vf.ROOT, 'shim', 'fsshim.c'), '-ldl'], check=True)
        seeds = [vf.SEED * 1009 + i for i in range(n)]
        k = 4 if thorough else 2
        jobs = [(shim, seeds[i::8 * k], thorough) for i in range(8 * k) if seeds[i::8 * k]]
        judge.run(check, 'save', job, jobs, 'SaveFSTrace', shards=len(jobs), limit=850)
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == '__main__':
    import logging
    logging.disable(logging.CRITICAL)
    for e in worker(*json.load(sys.stdin)):
        e.pop('_all', None)
        print(json.dumps(e))

"""Common frame of all checks: tier, seed, evidence, violations, known findings."""
import hashlib
import json
import os
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
TIER = os.environ.get('VERIF_TIER', 'quick')
if TIER not in ('quick', 'thorough'):
    TIER = 'quick'
try:
    SEED = int(os.environ.get('VERIF_SEED', '1'))
except ValueError:
    SEED = 1
THOROUGH = TIER == 'thorough'
START = time.time()
BUDGET = float(os.environ.get('VERIF_BUDGET') or (600 if TIER == 'quick' else 10**6))
CUT = 0                 # parallel jobs that were left out because the time was up
NPROC = max(1, min(8, os.cpu_count() or 1))


def known_findings():
    try:
        with open(os.path.join(ROOT, 'KNOWN_FINDINGS.json')) as f:
            return json.load(f).get('open', [])
    except FileNotFoundError:
        return []


class Check:
    def __init__(self, pid, level):
        self.pid, self.level = pid, level
        self.t = time.time()
        self.cov = {}
        self.viol = []          # (signature, description, replay data)
        self.assume = []
        self.samples = []
        self.notes = []

    def add(self, key, n):
        self.cov[key] = self.cov.get(key, 0) + n

    def sample(self, s, limit=6):
        if len(self.samples) < limit:
            self.samples.append(s)

    def violation(self, sig, desc, replay):
        if len(self.viol) < 200:
            self.viol.append((sig, desc, replay))

    def finish(self):
        EV = os.environ.get('VERIF_EVIDENCE') or os.path.join(ROOT, 'evidence')
        os.makedirs(os.path.join(EV, 'replay'), exist_ok=True)
        known = [k for k in known_findings() if k['property'] == self.pid]
        seen, real = set(), []
        for sig, desc, rep in self.viol:
            k = next((k for k in known if k['signature'] == sig), None)
            if k:
                if sig not in seen:
                    print('KNOWN-FINDING: property=%s %s' % (self.pid, k['what']))
                seen.add(sig)
            else:
                real.append((sig, desc, rep))
        shown = {}
        for sig, desc, rep in real:
            if sig in shown:
                continue
            shown[sig] = 1
            if len(shown) > 8:
                break
            path = os.path.join(EV, 'replay', '%s-%s.json' % (self.pid, hashlib.sha1(sig.encode()).hexdigest()[:10]))
            with open(path, 'w') as f:
                json.dump({'property': self.pid, 'seed': SEED, 'tier': TIER, 'signature': sig, 'description': desc, 'replay': rep}, f, indent=1, default=repr)
            print('VIOLATION property=%s replay=%s' % (self.pid, path))
            print('  ' + desc.replace('\n', '\n  ')[:1500])
        self.cov['jobs_cut_for_time'] = CUT
        self.cov['samples'] = self.samples or ['(none)']
        for k in ('states', 'transitions', 'traces_validated_against_impl') if self.level == 'model_checking' else ('evaluations', 'distinct_nontrivial'):
            self.cov.setdefault(k, 0)
        if self.level != 'model_checking':
            self.cov.setdefault('rule', 'see DESIGN.md')
        ev = {'property': self.pid, 'tier': TIER, 'seed': SEED, 'level': self.level, 'coverage': self.cov,
              'assumptions': self.assume, 'wall_s': round(time.time() - self.t, 2), 'violations': len(real)}
        with open(os.path.join(EV, self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=repr)
        print('%s %s: %s, %d violation(s), %.1f s' % (
            self.pid, TIER, ', '.join('%s=%s' % (k, v) for k, v in self.cov.items() if isinstance(v, int)), len(real), time.time() - self.t))
        sys.stdout.flush()
        return 1 if real else 0


def guard(pid, level, fn):
    """Runs fn(check).  An exception that escapes from the code under test through the harness is
    itself a deviation (the harness only makes calls that must succeed outside recorded calls)."""
    c = Check(pid, level)
    try:
        fn(c)
    except SystemExit:
        raise
    except BaseException as e:
        tb = traceback.extract_tb(e.__traceback__)
        in_repo = any('/pykeepass/' in f.filename for f in tb)
        if in_repo:
            c.violation('escaped:' + type(e).__name__, 'unexpected %s from the library: %s' % (type(e).__name__, str(e)[:300]),
                        traceback.format_exc())
        else:
            c.finish()
            traceback.print_exc()
            return 3
    return c.finish()

"""Running TLC."""
import json
import os
import re
import resource
import shutil
import subprocess
import tempfile

SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'spec')
CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'


class TLCError(Exception):
    pass


def _unlimit():
    hard = resource.getrlimit(resource.RLIMIT_AS)[1]
    resource.setrlimit(resource.RLIMIT_AS, (hard, hard))


def outside(out):
    """Did TLC stop because a recorded event has no place in the specification (a value of another kind,
    a key, file or object the specification does not know)?  Not when TLC itself failed."""
    return 'The error occurred when TLC was evaluating' in out and 'OutOfMemory' not in out and 'StackOverflow' not in out


def run(module, cfg=None, env=None, workers=1, heap='2g', timeout=int(os.environ.get("TLCT","800")), extra=(), fp_mem=None):
    """Runs TLC on spec/<module>.tla in a scratch directory; returns stdout."""
    d = tempfile.mkdtemp(prefix='tlc')
    try:
        for f in os.listdir(SPEC):
            if f.endswith(('.tla', '.cfg')):
                shutil.copy(os.path.join(SPEC, f), d)
        if cfg and '\n' in cfg:
            with open(os.path.join(d, module + '_gen.cfg'), 'w') as fh:
                fh.write(cfg)
            cfg = module + '_gen.cfg'
        e = dict(os.environ)
        e.update(env or {})
        cmd = ['java', '-XX:+UseParallelGC', '-XX:ParallelGCThreads=2', '-Xmx' + heap, '-Xss64m', '-cp', CP, 'tlc2.TLC', '-workers', str(workers),
               '-config', cfg or module + '.cfg', '-nowarning', '-noGenerateSpecTE', '-metadir', os.path.join(d, 'states')] + list(extra) + [module + '.tla']
        r = subprocess.run(cmd, preexec_fn=_unlimit, cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        return r.returncode, r.stdout.decode('utf-8', 'replace')
    finally:
        shutil.rmtree(d, ignore_errors=True)


def unquote(line):
    """PrintT of a TLA+ string prints it quoted with escapes."""
    return json.loads(line)


def printed(out, tag):
    """All strings printed with the given tag (PrintT(tag \\o ToJson(x)))."""
    res = []
    for line in out.splitlines():
        if line.startswith('"' + tag):
            s = line
            # TLA+ string escapes are a subset of JSON's
            res.append(json.loads(json.loads(s)[len(tag):]))
    return res


def stats(out):
    m = re.findall(r'(\d[\d,]*) states generated(?:.*?), (\d[\d,]*) distinct states found', out)
    if m:
        g, dd = m[-1]
        return int(g.replace(',', '')), int(dd.replace(',', ''))
    return 0, 0

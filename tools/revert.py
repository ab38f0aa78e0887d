"""tools/revert.py COMMIT CHECK... : runs the checks on a scratch copy of /repo without one fix."""
import os
import shutil
import subprocess
import sys
import tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = tempfile.mkdtemp(prefix='revert')
try:
    subprocess.run(['cp', '-a', '/repo', d + '/repo'], check=True)
    r = subprocess.run(['git', '-C', d + '/repo', '-c', 'user.name=x', '-c', 'user.email=x@x', 'revert', '--no-commit', sys.argv[1]], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        print(sys.argv[1], 'does not revert cleanly')
        sys.exit(2)
    for c in sys.argv[2:]:
        env = dict(os.environ, VERIF_REPO=d + '/repo', VERIF_EVIDENCE=d + '/ev')
        r = subprocess.run([ROOT + '/bin/check', c], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        v = [x for x in r.stdout.splitlines() if x.startswith('  ')]
        print(sys.argv[1], c, 'exit', r.returncode, v[0][:150] if v else r.stdout[-300:])
finally:
    shutil.rmtree(d)

#!/opt/venv/bin/python
"""try candidate bugs:  trybugs.py SPECS.py [JOBS]   (SPECS defines BUGS=[(id, checks, [(file,old,new)..])..])
For each: applied in a scratch copy, existing tests run, and (when they pass) the checks run against the copy from a clone of /verif."""
import os, runpy, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import mutate
s = runpy.run_path(sys.argv[1])
only = sys.argv[3:] 
W = '/tmp/tb'
os.makedirs(W, exist_ok=True)
V = W + '/verif'
if os.path.isdir(V):
    shutil.rmtree(V)
subprocess.run(['git', 'clone', '-q', '/verif', V], check=True)


def one(b):
    k, checks, edits = b
    d = '%s/%s' % (W, k)
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree('/repo', d, ignore=shutil.ignore_patterns('.git', 'docs'))
    try:
        for f, old, new in edits:
            p = d + '/sqpdfo/' + f
            t = open(p).read()
            if old not in t:
                return '%s: TEXT NOT FOUND %s' % (k, old[:40])
            open(p, 'w').write(t.replace(old, new, 1))
        if not mutate.tests(d):
            return '%s: tests catch it' % k
        res = []
        for c in checks.split():
            v = d + '_v'
            shutil.copytree(V, v + c, ignore=shutil.ignore_patterns('.git'))
            try:
                p = subprocess.run([v + c + '/check', c, '--jobs', '4'], env=dict(os.environ, SQPDFO_REPO=d), capture_output=True, text=True, timeout=900)
                t = [l for l in p.stdout.split('\n') if l.startswith('  ') or 'case' in l][:1]
                res.append('%s=%s %s' % (c, p.returncode, t[0][:200] if t and p.returncode else ''))
            except subprocess.TimeoutExpired:
                res.append('%s=timeout' % c)
            shutil.rmtree(v + c)
        return '%s: PASSES TESTS; %s' % (k, ' | '.join(res))
    finally:
        shutil.rmtree(d, ignore_errors=True)


with ThreadPoolExecutor(int(sys.argv[2]) if len(sys.argv) > 2 else 3) as ex:
    for r in ex.map(one, [b for b in s['BUGS'] if not only or b[0] in only]):
        print(r, flush=True)
shutil.rmtree(V)

#!/opt/venv/bin/python
"""make a planted bug:  mkseed.py SPEC.py   (SPEC defines ID, PROP, EDITS, NEEDS, BREAKS, DEMO)
Writes /verif/seeded/ID/{patch.diff,demo.sh,demo.py,meta.json}; the edit is made in a scratch copy."""
import json, os, runpy, shutil, subprocess, sys, tempfile
DEMO_SH = '''#!/bin/bash
# run in the repository; exits 0 when the property holds
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
work=$(mktemp -d)
trap 'rm -rf "$work"' EXIT
export PYTHONPATH="$repo" PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX="$work/pyc" PYTHONWARNINGS=ignore
export OPENBLAS_NUM_THREADS=1 OPENBLAS_CORETYPE=Nehalem
cd "$work" || exit 2
timeout 120 /opt/venv/bin/python "$here/demo.py" >"$work/out" 2>"$work/err"
rc=$?
grep '^DEMO' "$work/out"; tail -3 "$work/err"
exit $rc
'''
HEAD = '''import contextlib, io, os, sys
import numpy as np
from sqpdfo import optimize
import sqpdfo.sqpdfo_global_variables as glob
class Options: pass
def opts(**kw):
    o = Options()
    for k, v in dict(verbose=0, **kw).items():
        setattr(o, k, v)
    return o
def quiet(*a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return optimize(*a, **k)
def check(cond, text):
    if not cond:
        print('DEMO FAILED', text)
        sys.exit(1)
'''
s = runpy.run_path(sys.argv[1])
d = '/verif/seeded/' + s['ID']
os.makedirs(d, exist_ok=True)
w = tempfile.mkdtemp()
subprocess.check_call(['git', 'clone', '-q', '/repo', w + '/r'])
blame_ok = True
for f, old, new in s['EDITS']:
    p = w + '/r/' + f
    t = open(p).read()
    assert t.count(old) == 1, (f, old, t.count(old))
    open(p, 'w').write(t.replace(old, new))
diff = subprocess.check_output(['git', '-C', w + '/r', 'diff'], text=True)
open(d + '/patch.diff', 'w').write(diff)
# every removed line has to be a line of the base commit
import re
base = set(subprocess.check_output('git -C /repo ls-tree -r --name-only c5220d2 sqpdfo | while read f; do git -C /repo show c5220d2:$f; done', shell=True, text=True).splitlines())
for l in diff.splitlines():
    if l.startswith('-') and not l.startswith('---') and l[1:] not in base:
        print('NOT ORIGINAL:', l)
open(d + '/demo.sh', 'w').write(DEMO_SH); os.chmod(d + '/demo.sh', 0o755)
open(d + '/demo.py', 'w').write(HEAD + s['DEMO'].lstrip('\n'))
json.dump(dict(property=s['PROP'], needs=s['NEEDS'], what_it_breaks=s['BREAKS']), open(d + '/meta.json', 'w'), indent=1)
shutil.rmtree(w)

"""Small bounded-exhaustive exploration engine.

A check module defines
    ID, LEVEL
    cases(tier)     -> list of JSON-able cases: the complete bounded space (no sampling)
    run(case)       -> Res: executes the real code for one case and judges it
    RULE            -> str: how cases are made and what makes one non-trivial
    finish(agg)     -> optional: extra coverage numbers from the merged counters

The engine runs every case (8 processes, private scratch directories, a clean
copy of every process-global of the library), merges the counters, writes the
evidence file and turns every violation into a replayable JSON artefact.
"""
import os
import sys

os.environ.setdefault('OPENBLAS_NUM_THREADS', '1')
os.environ.setdefault('OMP_NUM_THREADS', '1')
os.environ.setdefault('OPENBLAS_CORETYPE', 'Nehalem')
sys.dont_write_bytecode = True
sys.pycache_prefix = '/nonexistent-mc-pycache'     # never trust bytecode left in the tree
REPO = os.environ.get('SQPDFO_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
if REPO not in sys.path:
    sys.path.insert(0, REPO)

import warnings
warnings.simplefilter('ignore')
import hashlib
import importlib
import json
import multiprocessing as mp
import shutil
import signal
import tempfile
import time
import traceback
from collections import Counter

import numpy as np

CASE_LIMIT_S = 100          # a case normally takes milliseconds to a few seconds
MAX_VIOLATIONS = 6          # stop exploring once this many unlisted violations are known


class Hang(BaseException):
    pass


class Res:
    """What one case produced."""

    def __init__(self):
        self.evals = 0            # executions / inputs tried
        self.keys = set()         # fingerprints of non-trivial observed behaviours
        self.states = set()       # fingerprints of model states visited
        self.trans = 0            # transitions taken
        self.traces = 0           # model traces replayed and compared with the code
        self.count = Counter()
        self.viol = []            # dict(what=..., fp=..., detail=...)
        self.sample = None

    def bad(self, what, fp=None, **detail):
        """record a violation; fp identifies it in the known-findings file"""
        self.viol.append(dict(what=what, fp=fp, detail=js(detail)))


def js(o):
    """best-effort JSON-able rendering"""
    if isinstance(o, dict):
        return {str(k): js(v) for k, v in o.items()}
    if isinstance(o, (list, tuple, set)):
        return [js(v) for v in o]
    if isinstance(o, np.ndarray):
        return js(o.tolist())
    if isinstance(o, (np.floating, float)):
        v = float(o)
        return v if np.isfinite(v) else repr(v)
    if isinstance(o, (np.integer, int, bool)):
        return int(o)
    if o is None or isinstance(o, str):
        return o
    return repr(o)


def h(*a):
    return hashlib.sha1(repr(a).encode()).hexdigest()[:12]


_mod = None


def _worker_init(scratch, modname):
    global _mod
    d = tempfile.mkdtemp(dir=scratch)
    os.chdir(d)
    fd = os.open(os.devnull, os.O_WRONLY)
    os.dup2(fd, 1)
    os.dup2(fd, 2)
    os.close(fd)
    sys.stdout = open(os.devnull, 'w')
    sys.stderr = open(os.devnull, 'w')
    warnings.simplefilter('ignore')
    _mod = importlib.import_module(modname)

    def on_alarm(sig, frm):
        raise Hang()
    signal.signal(signal.SIGALRM, on_alarm)


def execute(mod, case, limit=None):
    """run one case with a watchdog; exceptions of the code under test that the
    check did not expect are violations, too."""
    limit = limit or getattr(mod, 'CASE_LIMIT_S', CASE_LIMIT_S)
    signal.setitimer(signal.ITIMER_REAL, limit, 0.5)
    try:
        r = mod.run(case)
    except Hang:
        r = Res()
        r.evals = 1
        r.bad('no answer within %d s: the call does not terminate' % limit, fp='hang')
    except (Exception, SystemExit) as e:
        r = Res()
        r.evals = 1
        tb = traceback.format_exc().strip().splitlines()
        r.bad('unexpected exception %s: %s' % (type(e).__name__, e), fp='exc', trace=tb[-8:])
    finally:
        while True:
            try:
                signal.setitimer(signal.ITIMER_REAL, 0)
                break
            except Hang:
                continue
    return r


def _work(batch):
    out = []
    for i, case in batch:
        # np.random is the only ambient random source the library could touch
        np.random.seed(12345)
        out.append((i, execute(_mod, case)))
        if len(out) > 1 and out[-1][1].viol and out[-1][1].viol[-1]['fp'] == 'hang':
            break                       # report hangs at once; the run is going to stop anyway
    return out


def _flat(results, n, timeout):
    got = 0
    while got < n:
        for i, r in results.next(timeout=timeout):
            got += 1
            yield i, r


def load_known(pid):
    """known_findings.txt lines:  finding: property=C01 fp=<fingerprint> | <what fails>
                                  fixed: property=C01 <commit> <what failed>"""
    out = {}
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if not line.startswith('finding:'):
                continue
            head, _, text = line[len('finding:'):].partition('|')
            kv = dict(t.split('=', 1) for t in head.split())
            if kv.get('property') == pid:
                out[kv['fp']] = text.strip()
    return out


def main(pid, argv):
    tier = os.environ.get('VERIF_TIER', 'quick')
    replay = None
    jobs = min(8, os.cpu_count() or 1)
    it = iter(argv)
    for a in it:
        if a == '--tier':
            tier = next(it)
        elif a == '--replay':
            replay = next(it)
        elif a == '--jobs':
            jobs = int(next(it))
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    modname = 'mc.props.' + pid.lower()
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix='mc_%s_' % pid)
    try:
        if replay:
            return _replay(pid, modname, replay, scratch)
        return _explore(pid, modname, tier, seed, jobs, scratch, t0)
    finally:
        os.chdir('/')
        shutil.rmtree(scratch, ignore_errors=True)


def _replay(pid, modname, path, scratch):
    path = os.path.abspath(path)
    rec = json.load(open(path))
    ctx = mp.get_context('fork')
    with ctx.Pool(1, _worker_init, (scratch, modname)) as pool:
        (i, r), = pool.apply(_work, ([(0, rec['case'])],))
    for v in r.viol:
        print('  ' + v['what'], json.dumps(v['detail']))
    if r.viol:
        print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    print('replay: property %s holds on this case' % pid)
    return 0


def _explore(pid, modname, tier, seed, jobs, scratch, t0):
    known = load_known(pid)
    evdir = os.path.join(VERIF, 'evidence')
    os.makedirs(os.path.join(evdir, 'replay'), exist_ok=True)
    for f in os.listdir(os.path.join(evdir, 'replay')):
        if f.startswith(pid + '-'):
            os.unlink(os.path.join(evdir, 'replay', f))
    ctx = mp.get_context('fork')
    # the case list is built in a child so that the parent stays free of library state
    with ctx.Pool(1, _worker_init, (scratch, modname)) as pool:
        meta = pool.apply(_meta, (tier,))
    cases = meta['cases']
    agg = Res()
    viol, hits = [], {}
    done = 0
    samples = []
    stopped = False
    pool = ctx.Pool(jobs, _worker_init, (scratch, modname))
    try:
        chunk = meta['chunk'] or max(1, min(16, len(cases) // (jobs * 8) or 1))
        todo = list(enumerate(cases))
        results = pool.imap_unordered(_work, [todo[k:k + chunk] for k in range(0, len(todo), chunk)])
        for i, r in _flat(results, len(cases), CASE_LIMIT_S * (chunk + 2)):
            done += 1
            agg.evals += r.evals
            agg.keys |= r.keys
            agg.states |= r.states
            agg.trans += r.trans
            agg.traces += r.traces
            agg.count.update(r.count)
            if r.sample is not None and len(samples) < 400:
                samples.append((i, r.sample))
            for v in r.viol:
                if v['fp'] in known:
                    hits.setdefault(v['fp'], []).append(i)
                else:
                    viol.append((i, v))
            if len(viol) >= MAX_VIOLATIONS:
                stopped = True
                break
    finally:
        pool.terminate()
        pool.join()
    samples = [s for _, s in sorted(samples, key=lambda t: t[0])]
    step = max(1, len(samples) // 5)
    samples = samples[::step][:5]
    viol.sort(key=lambda t: t[0])
    cov = dict(samples=js(samples), exhaustive=bool(not stopped and done == len(cases)),
               cases=done, bounds=meta['bounds'], counters=dict(agg.count))
    level = meta['level']
    if level == 'model_checking':
        cov.update(states=len(agg.states), transitions=agg.trans,
                   traces_validated_against_impl=agg.traces, rule=meta['rule'])
    else:
        cov.update(evaluations=agg.evals, distinct_nontrivial=len(agg.keys), rule=meta['rule'])
    ev = dict(property=pid, tier=tier, seed=seed, level=level, coverage=cov,
              assumptions=meta['assumptions'], wall_s=round(time.time() - t0, 2), violations=len(viol))
    json.dump(ev, open(os.path.join(evdir, pid + '.json'), 'w'), indent=1)
    for fp, text in known.items():
        if fp in hits:
            print('KNOWN-FINDING: property=%s %s [%s, %d case(s)]' % (pid, text, fp, len(hits[fp])))
    brief = {k: v for k, v in cov.items() if k in ('states', 'transitions', 'evaluations',
             'distinct_nontrivial', 'traces_validated_against_impl', 'cases', 'exhaustive')}
    print('%s tier=%s %s wall=%.1fs' % (pid, tier, json.dumps(brief), time.time() - t0))
    if agg.count:
        print('   ' + ', '.join('%s=%s' % kv for kv in sorted(agg.count.items())))
    if viol:
        for n, (i, v) in enumerate(viol[:MAX_VIOLATIONS]):
            path = os.path.join(evdir, 'replay', '%s-%d.json' % (pid, n))
            json.dump(dict(property=pid, tier=tier, case=cases[i], violation=v,
                           replay_cmd='./check %s --replay %s' % (pid, path)),
                      open(path, 'w'), indent=1)
            print('  case %s: %s %s' % (json.dumps(cases[i])[:300], v['what'], json.dumps(v['detail'])[:600]))
            print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    if done != len(cases):
        print('internal error: %d of %d cases explored' % (done, len(cases)))
        return 2
    return 0


def _meta(tier):
    m = _mod
    cs = list(m.cases(tier))
    cs = json.loads(json.dumps(js(cs)))
    return dict(cases=cs, level=m.LEVEL, rule=m.RULE, bounds=getattr(m, 'BOUNDS', ''),
                assumptions=getattr(m, 'ASSUMPTIONS', []), chunk=getattr(m, 'CHUNK', 0))

"""C06: an optimisation does not depend on what the process did before (all call sequences up to a depth)."""
import itertools
import os
import pickle
import signal
import numpy as np
from mc.core import Res, h
from mc.drive import Problem, options, solve, vec
from mc import lattice as L

ID, LEVEL = 'C06', 'model_checking'
RULE = ('state machine over the process: every sequence of public calls (successful, failing, budget-cut, refused, '
        'different dimensions/constraint kinds/options) up to the depth is executed in one process without any reset; '
        'after every call the full outcome (points evaluated, result, multipliers, status, counters) is compared with '
        'that of the same call made first in a pristine process image; state = (fingerprint of the library globals, '
        'last call)')
BOUNDS = 'alphabet of 12 calls; all sequences of length <= 2, and length 3 over 6 calls (thorough: length 3 over all 12)'
ASSUMPTIONS = ['calls are made one after another (not nested, not concurrent)', 'deterministic user functions']


class Boom(Exception):
    pass


def _bad_at(P, k, who):
    n = [0]

    def f(x):
        n[0] += 1
        if n[0] == k and who == 'f':
            raise Boom()
        return P.f(x)

    def c(x):
        if n[0] == k and who == 'c':
            raise Boom()
        return P.c(x)
    return f, c


H, g = [[2, 1], [1, 2]], [1, 0]
CALLS = {
    'free': (L.spec(2, H, g), [1, 2], {}, None),
    'box': (L.spec(2, H, [3, -4], b=L.B2['unit']), [1, 2], {}, None),
    'eq': (L.spec(2, H, g, c=L.C2['line']), [0, 0], {}, None),
    'half': (L.spec(2, H, g, c=L.C2['half']), [1, 2], {}, None),
    'quad': (L.spec(2, H, [-2, 1], b=L.B2['pos'], c=L.C2['quad']), [1, 2], {}, None),
    'eqin': (L.spec(2, H, g, c=L.C2['eqin']), [0, 0], {'msimul': 15}, None),
    'three': (L.spec(3, L.H3['mix'], L.G3[0], c=L.C3['half']), [1, 2, -1], {'msimul': 25}, None),
    'raisef': (L.spec(2, H, g, c=L.C2['half']), [1, 2], {}, (7, 'f')),
    'raisec': (L.spec(2, H, g, b=L.B2['unit'], c=L.C2['quad']), [1, 2], {}, (2, 'c')),
    'refused': (L.spec(2, H, g, b=[[2, 2], [1, 1]], c=L.C2['half']), [1, 2], {}, None),
    'badopt': (L.spec(2, H, g, c=L.C2['half']), [1, 2], {'hess_approx': 'nonsense'}, None),
    'bfgs': (L.spec(2, H, g, c=L.C2['eqin']), [1, 2], {'hess_approx': 'bfgs', 'final_degree': 'linear', 'msimul': 20}, None),
}
CORE = ['free', 'eq', 'half', 'quad', 'raisef', 'refused']


def cases(tier):
    names = list(CALLS)
    out = [[a] for a in names]
    for a, b in itertools.product(names, names):
        out.append([a, b])
    for t in itertools.product(names if tier == 'thorough' else CORE, repeat=3):
        out.append(list(t))
    if tier == 'thorough':
        for t in itertools.product(CORE, repeat=4):
            out.append(list(t))
    return out


def call(name, shared):
    spec, x0, o, fault = CALLS[name]
    P = Problem(spec)
    f, c = (P.f, P.c) if fault is None else _bad_at(P, *fault)
    key = str(sorted(o.items()))
    op = shared.setdefault(key, options(**o))       # the same options object is reused by later calls
    cp = lambda v: None if v is None else list(v)
    R = solve(f, c if P.rows else None, list(x0), cp(P.lb), cp(P.ub), P.me, P.mi, op, clean=False)
    if R.exc is not None:
        return ('exc', repr(R.exc)), R
    tup = lambda v: tuple(float(t) for t in np.asarray(v, float).reshape(-1)) if v is not None else None
    ok = int(R.info.flag) == 0 or len(R.fx) > P.n + 1
    return (tuple(p for p, v in R.fx), tuple(p for p, v in R.cx), int(R.info.flag), int(R.info.niter) if R.fx else None,
            tup(R.x) if ok else None, tup(R.lm) if ok else None, float(R.info.f) if ok else None,
            tup(R.info.ce) if ok else None), R


_ref = {}


def globals_fp():
    import sqpdfo.sqpdfo_global_variables as glob
    d = []
    for k, v in sorted(vars(glob).items()):
        if k.startswith('__') or callable(v):
            continue
        d.append((k, v.tolist() if isinstance(v, np.ndarray) else repr(v)))
    return h(d)


def in_child(names):
    """outcomes of a sequence of calls made in a forked, so far unused, process image"""
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(rd)
            signal.alarm(90)
            out, shared = [], {}
            for n in names:
                o, R = call(n, shared)
                out.append((o, globals_fp(), repr(R.exc) if R.exc else None))
            with os.fdopen(wr, 'wb') as fh:
                pickle.dump(out, fh)
        except BaseException:
            code = 1
        finally:
            os._exit(code)
    os.close(wr)
    with os.fdopen(rd, 'rb') as fh:
        data = fh.read()
    os.waitpid(pid, 0)
    return pickle.loads(data) if data else None


def run(case):
    # this worker itself never calls the library: every child starts from the import-time state
    r = Res()
    for n in case:
        if n not in _ref:
            _ref[n] = in_child([n])
    got = in_child(case)
    if got is None:
        r.bad('the sequence of calls died or did not end', fp='died', sequence=case)
        return r
    for k, (n, (o, gfp, exc)) in enumerate(zip(case, got)):
        r.evals += 1
        r.trans += 1
        r.traces += 1
        r.states.add((gfp, n))
        ref = _ref[n][0][0]
        if exc is not None:
            r.bad('call %d (%s) raised %s' % (k + 1, n, exc), fp='exc', sequence=case)
            break
        if o != ref:
            what = next((w for w, a, b in zip(('points', 'constraint points', 'flag', 'iterations', 'x', 'lm', 'f', 'ce'),
                                              o, ref) if a != b), 'outcome')
            r.bad('call %d (%s) differs from the same call in a fresh process: %s' % (k + 1, n, what), fp='history',
                  sequence=case)
            break
    r.count['last flag %s' % (got[-1][0][2],)] += 1
    r.sample = dict(sequence=case, points=[len(o[0]) for o, _, _ in got])
    return r

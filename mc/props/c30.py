"""C30: the store of evaluated points: every sequence of evaluations (append / re-use a slot) with every outcome against a list model."""
import contextlib
import io
import itertools

import numpy as np
from mc.core import Res, h
from mc.drive import fresh
import sqpdfo.sqpdfo_global_variables as glob
from sqpdfo.sqpdfo_augmX_evalf import sqpdfo_augmX_evalf_ as augm
from sqpdfo.sqpdfo_evalfgh import sqpdfo_evalfgh_ as evalfgh
from sqpdfo.sqpdfo_values import sqpdfoValues

ID, LEVEL = 'C30', 'model_checking'
RULE = ('model state = list of (point, f, c, status) records; every sequence of evaluations into the next free slot or into any used '
        'slot, with every outcome of the user functions, is explored to the depth; each transition is executed by the real '
        'evaluation code on the arrays of its predecessor and compared with the model')
BOUNDS = 'n<=2, 0-2 constraints, 2 value limits, 20 outcomes, depth 4 (thorough 5)'
ASSUMPTIONS = ['the number of constraint values at slot 0 defines the problem', 'no fixed variables and no scaling (the library never uses either)']
CHUNK = 1
INF = float('inf')


class Boom(Exception):
    pass


class O:
    verbose = 0
    fout = 1


class Info:
    pass


def raiser(*a):
    raise Boom('user')


FO = {'1': 1.0, '-2': -2.0, 'int': 3, '1el': [4.0], 'big': 1e26, '-big': -1e26, 'nan': float('nan'), 'inf': INF, '-inf': -INF,
      'none': None, 'text': 'oops', 'two': [1.0, 2.0], 'raise': raiser}
OKF = ('1', '-2', 'int', '1el', 'big', '-big')
CO = {'a': lambda m: [1.0, -3.0][:m], 'b': lambda m: [0.0, 0.5][:m], 'ints': lambda m: [2, -1][:m], 'inf': lambda m: [INF, 1.0][:m],
      '-inf': lambda m: [1.0, -INF][-m:], '1e30': lambda m: [-1e30, 1e30][:m], 'nan': lambda m: [1.0, float('nan')][-m:],
      'short': lambda m: [1.0, 1.0][:m - 1], 'long': lambda m: [1.0, 1.0, 1.0][:m + 1], 'none': lambda m: None, 'text': lambda m: 'no', 'raise': raiser}
OKC = ('a', 'b', 'ints', 'inf', '-inf', '1e30')


def outcomes(m):
    if not m:
        return [(f, None) for f in FO]
    return [(f, 'a') for f in FO] + [('1', c) for c in CO if c != 'a'] + [('raise', 'raise'), ('nan', 'nan'), ('big', '1e30')]


def good(o, m, first):
    f, c = o
    if f not in OKF:
        return False
    if not m:
        return True
    if c == 'short' and m == 1 and first:
        return None
    if c in ('short', 'long'):
        return None if first else False         # the number of values at the first evaluation defines the problem
    return c in OKC


def cases(tier):
    big = tier == 'thorough'
    out = []
    for n in (1, 2):
        for m in (0, 1, 2):
            for fmax in (1e25, .5):
                for o in outcomes(m):
                    out.append([n, m, fmax, list(o), 5 if big else 4])
    return out


class St:
    pass


def start(m):
    s = St()
    s.X, s.fX, s.ci, s.ce = (np.array([]) for _ in range(4))
    s.xs, s.ss, s.ds = (np.array([]) for _ in range(3))
    s.neval = 0
    i = Info()
    i.nsimul = np.zeros(5)
    i.flag = 0
    i.f = None
    s.info = i
    return s


def point(n, step):
    return np.array([[.5 + step], [-1.25 * step]])[:n]


def run(case):
    n, m, fmax, o, depth = case
    r = Res()
    fresh()
    V = sqpdfoValues()
    seen = []
    cur = [None, None]

    def f(x):
        seen.append(tuple(x))
        v = FO[cur[0]]
        return v() if callable(v) else v

    def c(x):
        return CO[cur[1]](m)
    glob.set_filename_f(f)
    glob.set_filename_cons(c if m else '')

    def step(s, model, slot, out, k):
        cur[:] = out
        y = point(n, k)
        before = [np.array(v, float).copy() for v in (s.X, s.fX, s.ce, s.xs, s.ss, s.ds)]
        seen.clear()
        r.trans += 1
        r.evals += 1
        flag = k % 2
        with contextlib.redirect_stdout(io.StringIO()):
            X, fX, ci, ce, neval, xs, ss, ds, info, msg = augm(
                evalfgh, y, slot, s.X, s.fX, s.ci, s.ce, 0, np.zeros((n, 1)), np.array([]), np.arange(n), fmax, s.neval, s.xs, flag,
                s.ss, s.ds, 0, np.ones((n, 1)), s.info, O, V)
        d = dict(slot=slot, outcome=out, history=[list(q) for q in model['hist']])
        for nm, a, b in zip(('X', 'fX', 'ceX', 'xstatus', 'sstatus', 'dstatus'), before, (s.X, s.fX, s.ce, s.xs, s.ss, s.ds)):
            if a.shape != np.shape(b) or not np.array_equal(a, np.asarray(b, float)):
                r.bad('the evaluation altered the %s array it was given' % nm, fp='input', **d)
        if seen != [tuple(y.reshape(-1).tolist())]:
            r.bad('the objective was not called exactly once at the new point', fp='calls', calls=seen, **d)
        g = good(out, m, not model['rec'])
        if not g:
            if info.flag != 3:
                r.bad('a failed evaluation is not reported (flag %r)' % info.flag, fp='flag', **d)
            if neval != s.neval:
                r.bad('a failed evaluation was counted as successful', fp='neval', **d)
            if not np.array_equal(np.asarray(fX, float), before[1]) or not np.array_equal(np.asarray(ce, float), before[2]):
                r.bad('a failed evaluation changed stored values', fp='stored', **d)
            return None
        if info.flag != 0:
            r.bad('a successful evaluation is reported as failure %r' % info.flag, fp='okflag', **d)
            return None
        rec = list(model['rec'])
        fv = float(np.array(FO[out[0]]).item())
        cv = [] if not m else [max(-1e25, min(1e25, float(v))) for v in CO[out[1]](m)]
        new = (tuple(y.reshape(-1)), min(fmax, fv), cv, flag)
        if slot < len(rec):
            rec[slot] = new
        else:
            rec.append(new)
        nm = dict(rec=rec, hist=model['hist'] + [(slot,) + tuple(out)])
        if np.shape(X) != (n, len(rec)) or not np.array_equal(X, np.array([q[0] for q in rec]).T):
            r.bad('stored points differ from the points evaluated', fp='X', X=X, **d)
        if not np.array_equal(np.asarray(fX, float).reshape(-1), [q[1] for q in rec]):
            r.bad('stored objective values differ from those returned', fp='fX', fX=fX, want=[q[1] for q in rec], **d)
        if m and (np.shape(ce) != (m, len(rec)) or not np.array_equal(ce, np.array([q[2] for q in rec]).T)):
            r.bad('stored constraint values differ from those returned', fp='ceX', ce=ce, want=[q[2] for q in rec], **d)
        if not m and np.size(ce):
            r.bad('constraint values without constraints', fp='ceX', ce=ce, **d)
        if neval != s.neval + 1:
            r.bad('evaluation counter %r' % neval, fp='neval', **d)
        for nm_, a, want in (('membership', xs, [q[3] for q in rec]), ('subspace', ss, [1] * len(rec)), ('dummy', ds, [0] * len(rec))):
            if not np.array_equal(np.asarray(a, float).reshape(-1), want):
                r.bad('%s status of the points wrong' % nm_, fp='status', got=a, want=want, **d)
        if float(info.f) != fv:
            r.bad('reported value is not the one returned by the objective', fp='info.f', **d)
        t = St()
        t.X, t.fX, t.ci, t.ce, t.xs, t.ss, t.ds, t.neval, t.info = X, fX, ci, ce, xs, ss, ds, neval, info
        r.keys.add(h(case[:3], nm['rec']))
        return t, nm

    outs = outcomes(m)
    cont = [q for q in outs if good(q, m, False)]
    few = cont[:2] + cont[-2:]

    def explore(s, model, d, first=None):
        r.states.add(h(case[:3], model['rec']))
        for slot in range(len(model['rec']) + 1):
            for q in ([first] if first else outs):
                if good(q, m, slot == 0) is None:
                    continue
                z = step(s, model, slot, q, len(model['hist']) + 1)
                if z and d > 1 and (first or q in few) and len(r.viol) < 6:
                    explore(z[0], z[1], d - 1)
    explore(start(m), dict(rec=[], hist=[]), depth, tuple(o))
    r.traces = r.trans
    r.sample = dict(case=case, transitions=r.trans)
    return r

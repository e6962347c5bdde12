"""C04: budgets only truncate: every evaluation/iteration limit of every run is tried."""
import numpy as np
from mc.core import Res, h
from mc.drive import Problem, options, solve_problem, vec
from mc import lattice as L

ID, LEVEL = 'C04', 'fault_enumeration'
RULE = ('for every problem the unlimited run is recorded, then the run is repeated with every possible evaluation limit '
        '1..N+1 and every iteration limit 1..K+1 (every cut point of the history); non-trivial = the limit really cut '
        'the run; distinct = (problem, kind of limit, evaluations made)')
BOUNDS = 'every limit up to 40 evaluations / 40 iterations (thorough: 120) of each listed run; n<=3'
ASSUMPTIONS = ['deterministic user functions', 'one improvement of the interpolation set may overrun the evaluation '
               'limit by at most one full set; one pass may count two iterations']


def cases(tier):
    out = []
    big = tier == 'thorough'
    for ob in (dict(H=[[2, 1], [1, 2]], g=[1, 0]), dict(nl='rosen4'), dict(nl='quart')):
        for bk in (L.B2 if big else ('none', 'unit', 'half')):
            for ck in (L.C2 if big else ('none', 'line', 'circ', 'half', 'quad', 'eqin')):
                for x0 in (L.X2 if big else L.X2[1:2]):
                    out.append([L.spec(2, b=L.B2[bk], c=L.C2[ck], **ob), x0, {}])
    for b in L.B3.values():
        for c in L.C3.values():
            out.append([L.spec(3, L.H3['mix'], L.G3[0], b=b, c=c), L.X3[1], {}])
    for o in ({'hess_approx': 'bfgs'}, {'final_degree': 'linear'}, {'whichmodel': 'regression'}):
        for ck in ('none', 'line', 'half'):
            out.append([L.spec(2, [[1, 0], [0, 10]], [3, -4], b=L.B2['unit'], c=L.C2[ck]), [1, 2], o])
    cap = 120 if big else 40
    return [c + [cap] for c in out]


def run(case):
    spec, x0, o, cap = case
    r = Res()
    P = Problem(spec)
    base = solve_problem(P, x0, options(**dict(o, msimul=160 if cap > 100 else 70)))
    r.evals = 1
    if base.exc is not None:
        r.bad('the solver raised %r' % base.exc, fp='exc', tb=base.tb)
        return r
    if base.fcalls != int(base.info.nsimul[1]):
        r.bad('the evaluation counter says %d, %d were made' % (base.info.nsimul[1], base.fcalls), fp='counter')
    if P.rows and [p for p, v in base.fx] != [p for p, v in base.cx]:
        r.bad('objective and constraints were not evaluated at the same points', fp='points')
    pts = [p for p, v in base.fx]
    N, K = len(pts), int(base.info.niter)
    one_set = (P.n + 1) * (P.n + 2) // 2
    r.sample = dict(case=case, evaluations=N, iterations=K, flag=base.flag)
    for kind, top in (('msimul', N + 1), ('miter', K + 1)):
        last = 0
        for k in range(1, min(top, cap) + 1):
            R = solve_problem(P, x0, options(**dict(dict(o, msimul=160 if cap > 100 else 70), **{kind: k})))
            r.evals += 1
            d = dict(kind=kind, limit=k, flag=R.flag if R.exc is None else None, evals=R.fcalls)
            if R.exc is not None:
                r.bad('with a limit the solver raised %r' % R.exc, fp='exc', tb=R.tb, **d)
                continue
            q = [p for p, v in R.fx]
            if q != pts[:len(q)]:
                r.bad('a limit changed the evaluations made before it was reached', fp='prefix', **d)
            if len(q) < last:
                r.bad('a larger limit made fewer evaluations', fp='monotone', **d)
            last = len(q)
            if R.fcalls != int(R.info.nsimul[1]):
                r.bad('the evaluation counter says %d' % R.info.nsimul[1], fp='counter', **d)
            if R.ccalls != (R.fcalls if P.rows else 0):
                r.bad('%d objective and %d constraint evaluations' % (R.fcalls, R.ccalls), fp='points', **d)
            if kind == 'msimul':
                if R.fcalls > max(k - 1, P.n + 1) + one_set:
                    r.bad('evaluation limit overrun', fp='overrun', **d)
                if R.flag == 6 and R.fcalls < k:
                    r.bad('reported the evaluation limit before it was reached', fp='early', **d)
                if len(q) < N and R.flag != 6:
                    r.bad('cut by the evaluation limit but not reported as such', fp='flag6', **d)
            else:
                if int(R.info.niter) > k + 1:
                    r.bad('iteration limit overrun: %d' % R.info.niter, fp='overrun', **d)
                if R.flag == 5 and int(R.info.niter) < k:
                    r.bad('reported the iteration limit before it was reached', fp='early', **d)
                if len(q) < N and R.flag != 5:
                    r.bad('cut by the iteration limit but not reported as such', fp='flag5', **d)
            if R.flag not in (5, 6):
                if R.flag != base.flag or not np.array_equal(vec(R.x), vec(base.x)):
                    r.bad('not cut, yet the result differs from the unlimited run', fp='differs', **d)
            r.count['%s flag%d' % (kind, R.flag)] += 1
            if kind == 'msimul':
                r.count['overshoot%d' % max(0, R.fcalls - max(k, P.n + 1))] += 1
            if len(q) < N:
                r.keys.add(h(spec, o, kind, len(q)))
        if len(r.viol) > 5:
            break
    return r

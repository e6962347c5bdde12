"""C10: bounds are respected by the initial set and by every point the solver would return, at every cut point."""
import numpy as np
from mc.core import Res, h
from mc.drive import Problem, options, solve_problem, vec
from mc import lattice as L

ID, LEVEL = 'C10', 'exploration'
RULE = ('every bounded problem x start (inside, outside, on a bound, integer) x option set is run to its end and then again '
        'cut after every number of evaluations: the first n+1 points must lie within the bounds exactly, and the point '
        'returned at the end and at every cut must lie within them up to 2e-5; non-trivial = some bound is active at the '
        'returned point; distinct = (problem, start, options, cut, set of active bounds)')
BOUNDS = 'n<=3; 4 objectives x 9 boxes x 9 constraint sets x 6 starts; every cut up to 25 evaluations (thorough: 60)'
ASSUMPTIONS = ['points evaluated only to improve the interpolation set may leave the bounds (bounds are not hard constraints here)',
               'the solver treats violations up to 1e-5 as active bounds']
BOX = dict({k: v for k, v in L.B2.items() if v}, thin=[[-.05, -3], [.05, 3]], far=[[10, -30], [11, -20]],
           halfinf=[[0, float('-inf')], [float('inf'), .5]], ints=[[1, 2], [4, 6]])


def cases(tier):
    out = []
    big = tier == 'thorough'
    objs = [dict(H=[[2, 1], [1, 2]], g=[1, 0]), dict(H=[[1, 0], [0, 10]], g=[3, -4]), dict(H=[[-1, 0], [0, -2]], g=[1, 1]), dict(nl='rosen4')]
    for oi, ob in enumerate(objs):
        for bi, (bk, b) in enumerate(BOX.items()):
            for ci, (ck, c) in enumerate(L.C2.items()):
                starts = L.X2 + [[.25, -1], [40, -40], [2, 3]]
                for xi, x0 in enumerate(starts):
                    if not big and (oi + bi + ci + xi) % 4:
                        continue
                    cuts = big or (oi + bi + ci + xi) % 12 == 0
                    out.append([L.spec(2, b=b, c=c, **ob), x0, {}, cuts])
                    if big or (oi + bi + ci + xi) % 16 == 0:
                        out.append([L.spec(2, b=b, c=c, **ob), x0, {'hess_approx': 'bfgs'}, False])
                        out.append([L.spec(2, b=b, c=c, **ob), x0, {'final_degree': 'linear'}, False])
    for b in [v for v in L.B3.values() if v] + [[[1, 0, 2], [1.5, 9, 3]]]:
        for c in L.C3.values():
            for x0 in L.X3 + [[9, -9, 9]]:
                out.append([L.spec(3, L.H3['mix'], L.G3[0], b=b, c=c), x0, {}, big])
    return out


def run(case):
    spec, x0, o, cuts = case
    spec = dict(spec)
    spec['lb'], spec['ub'] = [float(v) for v in spec['lb']], [float(v) for v in spec['ub']]
    r = Res()
    P = Problem(spec)
    lim = 150
    R = solve_problem(P, x0, options(**dict(o, msimul=lim)))
    judge(r, P, R, case, dict(cut=None))
    N = len(R.fx)
    if cuts:
        for k in range(P.n + 2, min(N, 25 if lim == 150 and not o else 60)):
            R = solve_problem(P, x0, options(**dict(o, msimul=k)))
            judge(r, P, R, case, dict(cut=k))
    r.sample = dict(case=case, evaluations=N)
    return r


def judge(r, P, R, case, d):
    r.evals += 1
    if R.exc is not None:
        r.bad('the solver raised %r' % R.exc, fp='exc', tb=R.tb, **d)
        return
    for i, (p, _) in enumerate(R.fx[:P.n + 1]):
        w = P.outside(p)
        if w > 1e-12 * max(1, max(abs(t) for t in p)):
            r.bad('point %d of the initial set is outside the bounds' % i, fp='initial', point=p, by=w, **d)
    if len(R.fx) >= P.n + 1:
        q = [p for p, _ in R.fx[:P.n + 1]]
        D = np.array(q[1:]) - np.array(q[0])
        if np.linalg.matrix_rank(D) < P.n:
            r.bad('the initial set is degenerate', fp='degenerate', points=q, **d)
    x = vec(R.x)
    w = P.outside(x)
    if w > 2e-5:
        r.bad('the returned point violates a bound by %g' % w, fp='returned', x=x, flag=R.flag, **d)
    act = tuple(np.flatnonzero(np.abs(x - np.array(P.lb)) < 1e-6)), tuple(np.flatnonzero(np.abs(x - np.array(P.ub)) < 1e-6))
    if act[0] or act[1]:
        r.keys.add(h(case, d, act))

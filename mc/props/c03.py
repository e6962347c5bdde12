"""C03: what is returned (point, value, constraint values, multipliers, status) describes one evaluated point."""
import numpy as np
from mc.core import Res, h
from mc.drive import Problem, options, solve_problem, vec
from mc import lattice as L

ID, LEVEL = 'C03', 'exploration'
RULE = ('every problem x start x option/budget combination of the lattice is run to its end (success, each budget '
        'limit, stalled radius) and the returned record is compared with the log of every evaluation; non-trivial = '
        'more evaluations than the initial set were made; distinct = (problem, options, exit flag, evaluations)')
BOUNDS = 'n<=4 (thorough 5), 2 quadratics + 4 nonlinear objectives x 6 bound sets x 9 constraint sets x 3 starts x 8 option sets'
ASSUMPTIONS = ['the user functions are deterministic']
OPTS = [{}, {'msimul': 6}, {'msimul': 9}, {'msimul': 14}, {'miter': 1}, {'miter': 3}, {'hess_approx': 'bfgs'},
        {'final_degree': 'linear'}, {'whichmodel': 'regression'}, {'whichmodel': 'l2norm'}, {'bfgs_restart': 3, 'hess_approx': 'bfgs'}]
FLAGS = {0: 'success', 3: 'fail_on_simul', 4: 'stop', 5: 'iterations', 6: 'evaluations', 7: 'dxmin', 8: 'nondecrease',
         9: 'unexpected', 15: 'small radius'}


def cases(tier):
    out = []
    big = tier == 'thorough'
    objs = [dict(H=[[2, 1], [1, 2]], g=[1, 0]), dict(H=[[1, 0], [0, 10]], g=[3, -4]), dict(nl='rosen4'), dict(nl='saddle'),
            dict(nl='quart'), dict(H=[[2, 0], [0, 2]], g=[0, 0])]
    for oi, ob in enumerate(objs if big else objs[:4]):
        for bk, b in L.B2.items():
            for ck, c in L.C2.items():
                for xi, x0 in enumerate(L.X2):
                    for k, o in enumerate(OPTS):
                        if not big and k and (oi + xi + k + len(bk) + len(ck)) % 5:
                            continue
                        if ob.get('nl') == 'saddle' and (xi or k > 4):
                            continue
                        out.append([L.spec(2, b=b, c=c, **ob), x0, o])
    for b in L.B3.values():
        for c in L.C3.values():
            for o in OPTS[:6]:
                out.append([L.spec(3, L.H3['tri'], L.G3[0], b=b, c=c), L.X3[1], o])
    for n in (4, 5) if big else (4,):
        for label, s, x0 in L.large(n, big):
            for o in OPTS[:6] if big else ({}, {'msimul': 9}, {'miter': 3}):
                out.append([s, x0, o])
    return out


def run(case):
    spec, x0, o = case
    r = Res()
    r.evals = 1
    P = Problem(spec)
    R = solve_problem(P, x0, options(**o))
    if R.exc is not None:
        r.bad('the solver raised %r' % R.exc, fp='exc', tb=R.tb)
        return r
    judge(r, P, R, case)
    r.count['flag%d' % R.flag] += 1
    if len(R.fx) > P.n + 1:
        r.keys.add(h(case, R.flag, len(R.fx)))
    r.sample = dict(case=case, flag=R.flag, x=vec(R.x).tolist(), f=float(R.info.f), evaluations=len(R.fx))
    return r


def judge(r, P, R, case):
    x = tuple(float(v) for v in vec(R.x))
    if len(x) != P.n:
        r.bad('the returned point has %d components, not %d' % (len(x), P.n), fp='dim')
        return
    idx = [k for k, (p, v) in enumerate(R.fx) if p == x]
    if not idx:
        r.bad('the returned point was never evaluated', fp='never', x=x, closest=min(
            float(np.max(np.abs(np.array(p) - x))) for p, v in R.fx))
        return
    if not any(R.fx[k][1] == float(R.info.f) for k in idx):
        r.bad('the reported objective value is not the value at the returned point', fp='fvalue', x=x,
              reported=float(R.info.f), actual=R.fx[idx[0]][1])
    ce = np.asarray(R.info.ce, float).reshape(-1) if np.size(R.info.ce) else np.zeros(0)
    ref = np.array(P.c(x))
    if ce.shape != ref.shape or (len(ref) and np.max(np.abs(ce - ref)) > 0):
        r.bad('the reported constraint values are not those at the returned point', fp='cvalue', x=x, reported=ce, actual=ref)
    lm = vec(R.lm)
    if len(lm) != P.n + P.me + P.mi:
        r.bad('multiplier vector of length %d instead of %d' % (len(lm), P.n + P.me + P.mi), fp='lm')
    elif not np.all(np.isfinite(lm)):
        r.bad('multipliers are not finite', fp='lmfinite', lm=lm)
    if R.flag not in FLAGS:
        r.bad('unknown exit status %r' % R.info.flag, fp='flag')
    if not P.rows:
        if float(R.info.f) > R.fx[0][1]:
            r.bad('the returned point is worse than the first one evaluated', fp='worse', f=float(R.info.f), f0=R.fx[0][1])
        ins = [v for p, v in R.fx if P.outside(p) <= 0]
        fb = min(ins)
        if R.flag == 0 and float(R.info.f) > fb + 1e-2 * (R.fx[0][1] - fb) + 1e-8:
            r.count['not best'] += 1
            r.bad('a clearly better point inside the bounds was evaluated and forgotten', fp='forgot', f=float(R.info.f), best=fb, flag=R.flag,n=len(R.fx))
    # reported optimality figures belong to this run and are the ones the status was decided on
    if R.flag == 0:
        for k in ('glagn', 'feasn', 'compl'):
            if not float(getattr(R.info, k)) <= 100 * 1.001 * 1e-3:
                r.bad('success with a reported optimality figure %s=%g' % (k, getattr(R.info, k)), fp='figure')
        if P.rows:
            fe = max([abs(v) if j < P.me else max(0.0, -v) for j, v in enumerate(P.c(x))])
            if P.mi == 0 and abs(float(R.info.feasn) - fe) > 1e-9 + 1e-6 * fe:
                r.bad('reported infeasibility is not that of the returned point', fp='feasn', reported=float(R.info.feasn), actual=fe)

"""C01: a success report is a true first-order solution (all problems of the lattice x starts x options)."""
import numpy as np
from mc.core import Res, h
from mc.drive import Problem, options, solve_problem, vec
from mc import lattice as L

ID, LEVEL = 'C01', 'exploration'
RULE = ('every problem (objective x bounds x constraints) of the lattice is solved from every listed start under '
        'every listed option set; non-trivial = the run reported success and moved or had active constraints; '
        'distinct = (problem, exit flag, rounded solution)')
BOUNDS = 'n<=3; 9 Hessians x 4 gradients x 6 bound sets x 9 constraint sets x 3 starts, 4 nonlinear objectives, option variants'
ASSUMPTIONS = ['tolerance of the claim is 100 x the requested one (the accuracy factor of the algorithm) plus model error']


def cases(tier):
    out = []
    big = tier == 'thorough'
    Hs = dict(L.H2, **L.H2x)
    for hk, H in Hs.items():
        for gi, g in enumerate(L.G2):
            for bk, b in L.B2.items():
                for ck, c in L.C2.items():
                    for xi, x0 in enumerate(L.X2):
                        if hk in L.H2x and bk in ('none', 'half', 'lo') and ck not in ('circ', 'disc', 'two'):
                            continue            # unbounded below: no success to judge
                        if not big and (gi + xi + len(bk) + len(ck)) % 3:
                            continue
                        out.append([L.spec(2, H, g, b=b, c=c), x0, {}])
    for hk, H in L.H3.items():
        for g in L.G3:
            for bk, b in L.B3.items():
                for ck, c in L.C3.items():
                    for x0 in L.X3:
                        out.append([L.spec(3, H, g, b=b, c=c), x0, {}])
    for a in (.5, 2):
        for g in (-3, 0, 1):
            for b in (None, [[-1], [1]], [[0], [L.INF]]):
                for x0 in ([0], [2.5]):
                    for c in ((0, 0, []), (0, 1, [['lin', [1], -.5]])):
                        out.append([L.spec(1, [[a]], [g], b=b, c=c), x0, {}])
    for nl in ('rosen4', 'quart', 'cosh', 'saddle'):
        for b in (None, [[-1, -1], [1, 1]], [[0, 0], [5, 5]], [[-2, -2], [.5, 2]]):
            for ck in ('none', 'line', 'circ', 'half', 'disc'):
                for x0 in L.X2:
                    out.append([L.spec(2, nl=nl, b=b, c=L.C2[ck]), x0, {}])
    variants = [dict(final_degree='linear'), dict(final_degree='diagonal'), dict(whichmodel='l2norm'), dict(whichmodel='frobnorm'),
                dict(whichmodel='regression'), dict(hess_approx='bfgs'),
                dict(tol_grad=1e-3, tol_feas=1e-3, tol_bnds=1e-3), dict(tol_grad=1e-7, tol_feas=1e-7)]
    for v in variants:
        for H in ([[2, 1], [1, 2]], [[1, 0], [0, 10]]):
            for g in L.G2[1:]:
                for bk in ('none', 'unit', 'half') if not big else L.B2:
                    for ck in ('none', 'line', 'circ', 'half') if not big else L.C2:
                        for x0 in L.X2[:2]:
                            out.append([L.spec(2, H, g, b=L.B2[bk], c=L.C2[ck]), x0, v])
    return out


def run(case):
    spec, x0, o = case
    r = Res()
    r.evals = 1
    P = Problem(spec)
    R = solve_problem(P, x0, options(**o))
    if R.exc is not None:
        r.bad('the solver raised %r' % R.exc, fp='exc', tb=R.tb)
        return r
    r.count['flag%d' % R.flag] += 1
    r.sample = dict(case=case, flag=R.flag, x=vec(R.x).tolist())
    if R.flag != 0:
        return r
    x = vec(R.x)
    r.keys.add(h(spec, o, np.round(x, 3).tolist()))
    tg = 100 * max(o.get('tol_grad', 1e-5), 1e-5)
    tf = 100 * o.get('tol_feas', 1e-5)
    d = dict(x=x, f=P.f(x))
    if not np.all(np.isfinite(x)):
        r.bad('success with a non-finite point', fp='nan', **d)
        return r
    if P.outside(x) > 1e-5:
        r.bad('success outside the bounds by %.3g' % P.outside(x), fp='bounds', **d)
    if P.infeas(x) > tf + 1e-9:
        r.bad('success but constraints violated by %.3g' % P.infeas(x), fp='feas', **d)
    scale = 1 + float(np.max(np.abs(P.grad(x))))
    s = P.stationarity(x, signed=True, cact=5e-2)
    lim = 2 * tg * scale
    if s > lim:
        u = P.stationarity(x, signed=False, cact=5e-2) if P.mi else s
        if u > lim:
            r.bad('success but not stationary: residual %.3g' % u, fp='stat', **d)
        else:
            r.bad('success at a point where an active inequality has a wrong-signed multiplier (residual %.3g)' % s,
                  fp='squared-slack-sign', **d)
    return r

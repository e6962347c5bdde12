"""C33: variables with equal bounds are held fixed; the rest is optimised as if they were constants."""
import itertools
import numpy as np
from mc.core import Res, h
from mc.drive import Problem, options, solve, solve_problem, vec
from mc import lattice as L

ID, LEVEL = 'C33', 'exploration'
RULE = ('every problem x every non-empty proper subset of variables fixed x every fixing value x start x option set: the '
        'run is compared with the run of the problem in which those variables are substituted by hand (same points in the '
        'free variables, same status, value, constraints and multipliers); distinct = (problem, fixed set, values, status)')
BOUNDS = 'n=2,3; all proper subsets; n=4: 3 (thorough 6) subsets fixed at different values; 3 fixing values; 2 starts; 6 option sets incl. budgets; failing evaluations 1..8'
ASSUMPTIONS = ['user functions deterministic']
OPTS = [{}, {'msimul': 5}, {'miter': 2}, {'hess_approx': 'bfgs'}, {'final_degree': 'linear'}, {'verbose': 3}, {'whichmodel': 'l2norm'}]


def cases(tier):
    out = []
    big = tier == 'thorough'
    for n, Hs, gs, C, B, X in ((2, [L.H2['cross'], L.H2['ill']], L.G2[1:3], L.C2, [[-2, -2], [3, 3]], L.X2[:2]),
                               (3, list(L.H3.values()), L.G3, L.C3, [[-2, -2, -3], [2, 2, 3]], L.X3)):
        for hi, H in enumerate(Hs):
            for gi, g in enumerate(gs):
                for ci, (ck, c) in enumerate(C.items()):
                    for k in range(1, n):
                        for S in itertools.combinations(range(n), k):
                            for vi, v in enumerate((0, .5, -1)):
                                for xi, x0 in enumerate(X):
                                    for oi, o in enumerate(OPTS):
                                        if not big and (hi + gi + ci + vi + xi + oi + S[0]) % 12:
                                            continue
                                        for bounded in (0, 1):
                                            out.append([L.spec(n, H, g, b=B if bounded else None, c=c), list(S), v, x0, o])
    for s_, v, x0 in [(s, v, x) for k, (_, s, x) in enumerate(L.large(4, big)) for v in ([.5, .25, -.1, .4], [0, .1, .2, .3])[:2 if big else 1]]:
        B = [s_.get('lb'), s_.get('ub')]
        for S in ([0], [3], [0, 2], [1, 3], [1, 2], [0, 1, 3]) if big else ([0, 2], [3]):
            w = list(v)
            if B[0]:
                w = [min(max(a, l), u) for a, l, u in zip(v, *B)]
            for o in OPTS[:4] if big else OPTS[:1]:
                out.append([s_, S, w, x0, o])
    return out


def run(case):
    s, S, v, x0, o = case
    r = Res()
    n = s['n']
    P = Problem(s)
    free = [i for i in range(n) if i not in S]
    lb = list(s.get('lb', [-1e20] * n))
    ub = list(s.get('ub', [1e20] * n))
    if not isinstance(v, list):
        v = [v] * n
    for i in S:
        lb[i] = ub[i] = v[i]

    def full(y):
        z = [float(a) for a in v]
        for i, t in zip(free, y):
            z[i] = float(t)
        return z
    for fault in (0,) if o else (0, 1, 2, 4, 5, 7):
        def mk(f):
            k = [0]

            def g(x):
                k[0] += 1
                if k[0] == fault:
                    raise ValueError('user')
                return f(x)
            return g
        A = solve(mk(P.f), P.c if P.rows else None, list(x0), lb, ub, P.me, P.mi, options(**o))
        B = solve(mk(lambda y: P.f(full(y))), (lambda y: P.c(full(y))) if P.rows else None, [x0[i] for i in free],
                  [lb[i] for i in free], [ub[i] for i in free], P.me, P.mi, options(**o))
        r.evals += 2
        d = dict(fault=fault)
        if B.exc is not None:
            r.count['substituted problem raises'] += 1
            continue
        if A.exc is not None:
            r.bad('fixing variables makes the solver raise %r' % A.exc, fp='exc', tb=A.tb, **d)
            continue
        r.keys.add(h(case, fault, A.flag))
        pa, pb = [p for p, _ in A.fx], [p for p, _ in B.fx]
        if any(p[i] != v[i] for p, _ in A.fx + A.cx for i in S):
            r.bad('a fixed variable was moved', fp='moved', **d)
        if A.flag != B.flag or len(pa) != len(pb) or any(np.max(np.abs(np.array([p[i] for i in free]) - q)) > 1e-9 for p, q in zip(pa, pb)):
            r.bad('the free variables are optimised differently from the substituted problem', fp='differs',
                  status=[A.flag, B.flag], evaluations=[len(pa), len(pb)], **d)
            continue
        if len(pa) > len(free) + 1 or A.flag == 0:
            xa, xb = vec(A.x), vec(B.x)
            if len(xa) != n or np.max(np.abs(xa - np.array(full(xb)))) > 1e-9:
                r.bad('the returned point is not the one of the substituted problem', fp='x', x=xa, expected=full(xb), **d)
            if not abs(float(A.info.f) - float(B.info.f)) <= 1e-9 * (1 + abs(float(B.info.f))):
                r.bad('the returned value is not the one of the substituted problem', fp='f', **d)
            la, lb_ = vec(A.lm), vec(B.lm)
            m = len(lb_) - len(free)
            exp = np.zeros(n + m)
            exp[free] = lb_[:len(free)]
            exp[n:] = lb_[len(free):]
            if len(la) != n + m or np.max(np.abs(la - exp)) > 1e-9 * (1 + np.max(np.abs(exp))):
                r.bad('the multipliers are not those of the substituted problem', fp='lm', lm=la, expected=exp, **d)
    r.sample = dict(case=case)
    return r

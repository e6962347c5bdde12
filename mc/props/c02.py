"""C02: strictly convex, consistent problems are solved to their unique minimiser from every start."""
import numpy as np
from mc.core import Res, h
from mc.drive import Problem, options, solve_problem, solvable_nearby, vec
from mc import lattice as L

ID, LEVEL = 'C02', 'exploration'
RULE = ('every strictly convex quadratic of the lattice x bound set x linear equality set (or one linear inequality '
        'active at the minimiser, no bound active) x start x option set is solved and compared with the minimiser '
        'found by enumerating all active sets; non-trivial = the minimiser differs from the start; distinct = '
        '(problem, start, options)')
BOUNDS = 'n=2: 5 Hessians x 4 gradients x 6 bound sets x 4 constraint sets x 3 starts; n=3: 3x2x3x3x2; n=4,5 (thorough 6): 3x2x4x4x2; n=1; option variants; 2-variable problems with values times 1e3, 1e5, offset 1e5, origin moved by 100, 1e4'
ASSUMPTIONS = ['a run counts as failed if at most one of eight neighbouring runs (start and slope changed by 1e-9..1e-6) is solved', 'minimisers are compared to 1e-3 relative; consistent constraints with independent gradients',
               'the listed option sets exclude bfgs/linear models (no curvature guarantee)']
OPTS = [{}, {'whichmodel': 'frobnorm'}, {'whichmodel': 'l2norm'}, {'whichmodel': 'regression'},
        {'final_degree': 'diagonal', '_diag': 1}, {'tol_grad': 1e-3, 'tol_feas': 1e-3, 'tol_bnds': 1e-3}]


def cases(tier):
    out = []
    big = tier == 'thorough'
    starts = L.X2 + ([[.1, -4], [20, 30], [-1, -1]] if big else [])
    grads = L.G2 + ([[-5, -5], [.5, 2], [10, 0]] if big else [])
    for hk, H in L.H2.items():
        for gi, g in enumerate(grads):
            for bk, b in L.B2.items():
                for ck, c in L.C2.items():
                    if ck in ('circ', 'disc') or (c[1] and ck != 'half'):
                        continue
                    for xi, x0 in enumerate(starts):
                        out.append(['%s/%d/%s/%s/%d' % (hk, gi, bk, ck, xi), L.spec(2, H, g, b=b, c=c), x0, {}])
                        if not big and (gi + xi) % 2:
                            continue
                        for o in OPTS[1:]:
                            if '_diag' in o and hk != 'id' and hk != 'ill':
                                continue
                            if c[1]:
                                continue
                            out.append(['%s/%d/%s/%s/%d/%s' % (hk, gi, bk, ck, xi, o.get('whichmodel', sorted(o)[0])),
                                        L.spec(2, H, g, b=b, c=c), x0, o])
    for hk, H in L.H3.items():
        for gi, g in enumerate(L.G3):
            for bk, b in L.B3.items():
                for ck, c in L.C3.items():
                    if c[1] and (ck != 'half'):
                        continue
                    for xi, x0 in enumerate(L.X3):
                        out.append(['3%s/%d/%s/%s/%d' % (hk, gi, bk, ck, xi), L.spec(3, H, g, b=b, c=c), x0, {}])
    for n in (4, 5, 6) if big else (4, 5):
        for label, s, x0 in L.large(n, True):
            if n == 6 and s['mi']:
                continue
            out.append([label, s, x0, {}])
            if n < (6 if big else 5) and not s['mi'] and (big or not x0[0]):
                for o in OPTS[1:4] + OPTS[5:]:
                    out.append(['%s/%s' % (label, o.get('whichmodel', sorted(o)[0])), s, x0, o])
    for a in (.5, 2, 40):
        for g in (-3, 0, 1):
            for b in (None, [[-1], [1]], [[0], [L.INF]], [[-L.INF], [-.25]], [[-.3], [.2]]):
                for x0 in ([0], [2.5], [-7]):
                    out.append(['1d', L.spec(1, [[a]], [g], b=b), x0, {}])
    # the same problems in other units: value factor, origin, value offset
    for mv in MOVES if big else MOVES[::2]:
        for hk in ('cross', 'ill', 'neg') if big else ('cross', 'ill'):
            for gi, g in enumerate(L.G2):
                for bi, (bk, b) in enumerate(L.B2.items()):
                    for ck in ('none', 'line'):
                        for xi, x0 in enumerate(L.X2):
                            if big or (gi + bi + xi) % 3 == 0:
                                out.append(['moved%s/%s/%d/%s/%s/%d' % (mv, hk, gi, bk, ck, xi), dict(L.spec(2, L.H2[hk], g, b=b, c=L.C2[ck]), move=mv),
                                            [v + mv[1] for v in x0], {'tol_grad': 1e-5 * mv[0]}])
    return out


MOVES = [[1e5, 0, 0], [1e3, 0, 0], [1, 1e4, 0], [1, 100, 0], [1, 0, 1e5], [1, -3000, 0], [1e3, 100, 1e3]]


class Moved(Problem):
    """factor * f(x - at) + add with everything else moved along"""

    def __init__(self, spec, move):
        Problem.__init__(self, spec)
        self.factor, self.at, self.add = move
        if spec.get('lb'):
            self.lb, self.ub = ([v + self.at if abs(v) < 1e19 else v for v in b] for b in (self.lb, self.ub))

    def f(self, x):
        return self.factor * Problem.f(self, np.asarray(x, float) - self.at) + self.add

    def c(self, x):
        return Problem.c(self, np.asarray(x, float) - self.at)


def run(case):
    label, spec, x0, o = case
    r = Res()
    P = Problem(spec)
    best = P.qp_solution()
    if best is None:
        r.count['inconsistent'] += 1
        return r
    xs = best[0]
    if P.mi:
        bact = min([1.0] + [xs[i] - P.lb[i] for i in range(P.n) if P.lb] + [P.ub[i] - xs[i] for i in range(P.n) if P.ub])
        if bact < 1e-3 or P.c(xs)[0] > 1e-7:
            r.count['outside the claim'] += 1
            return r
    r.evals = 1
    scale = 1 + np.max(np.abs(xs))
    if 'move' in spec:
        P = Moved(spec, spec['move'])
        xs = xs + P.at
    R = solve_problem(P, x0, options(**{k: v for k, v in o.items() if k[0] != '_'}))
    if R.exc is not None:
        r.bad('the solver raised %r' % R.exc, fp='exc', tb=R.tb)
        return r
    x = vec(R.x)
    tol = 1e-3 * scale * (30 if o.get('tol_grad', 0) > 1e-4 and 'move' not in spec else 1)
    e = float(np.max(np.abs(x - xs)))
    r.count['flag%d' % R.flag] += 1
    r.sample = dict(case=label, x=x.tolist(), minimiser=xs.tolist(), evaluations=len(R.fx))
    if np.max(np.abs(xs - np.array(x0, float))) > 1e-6:
        r.keys.add(h(spec, x0, o))
    def again(start):
        R = solve_problem(P, start, options(**{k: v for k, v in o.items() if k[0] != '_'}))
        return R.exc is None and R.flag == 0 and np.max(np.abs(vec(R.x) - xs)) <= tol
    if (R.flag != 0 or not e <= tol) and (solvable_nearby(P, x0, again)):
        r.count['solved from starts nearby only'] += 1
    elif R.flag != 0 or not e <= tol:
        r.bad('not solved: flag %d, distance to the minimiser %.3g' % (R.flag, e), fp='unsolved:' + label,
              x=x, minimiser=xs, start=x0)
    return r

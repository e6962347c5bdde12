"""C12: smooth strictly convex (non-quadratic) problems are solved to their unique minimiser from every start."""
import itertools

import numpy as np
from mc.core import Res, h
from mc.drive import Problem, options, solve_problem, solvable_nearby, vec

ID, LEVEL = 'C12', 'exploration'
RULE = ('every smooth strictly convex objective of the lattice x bound set x (no or one linear equality) x start '
        'x model kind is solved and compared with the minimiser found by Newton iterations over all enumerated bound '
        'faces; non-trivial = the minimiser differs from the start; distinct = (problem, start, options)')
BOUNDS = 'n=1: 4 objectives x 5 bound sets x 5 starts; n=2: 6 x 6 x (with and without equality) x 9 starts x 5 option sets; n=3: 3 x 6 x 3'
ASSUMPTIONS = ['minimisers are compared to 2e-3 relative',
               'with an equality and bounds together the run may end with status 15, but not with a wrong success',
               'gradients of the equality and of the bounds active at the minimiser are independent',
               'a run counts as failed if at most one of eight neighbouring runs (start and slope changed by 1e-9..1e-6) is solved',
               'bfgs, linear models and Jacobian-only options give no curvature guarantee and are left out']
INF = 1e20
PHI = {
    'sq': (lambda t: t * t, lambda t: 2 * t, lambda t: 2.),
    'q4': (lambda t: t ** 4, lambda t: 4 * t ** 3, lambda t: 12 * t * t),
    'exp': (lambda t: float(np.exp(min(t, 300.))), lambda t: float(np.exp(min(t, 300.))), lambda t: float(np.exp(min(t, 300.)))),
    'lc': (lambda t: float(np.logaddexp(t, -t)), lambda t: float(np.tanh(t)), lambda t: 1 - float(np.tanh(t)) ** 2),
    'sp': (lambda t: float(np.logaddexp(0, t)), lambda t: float(.5 * (1 + np.tanh(t / 2))),
           lambda t: .25 * (1 - float(np.tanh(t / 2)) ** 2)),
}
F1 = {'quart': [['q4', [1], 0, 1], ['sq', [1], 1, 1]], 'exp': [['exp', [1], 0, 1], ['exp', [-1], 1, .5]],
      'lc': [['lc', [1], .5, 2], ['sq', [1], -1, .1]], 'sp': [['sp', [2], 0, 3], ['sq', [1], 1, .5]]}
F2 = {'quart': [['q4', [1, 0], 0, 1], ['sq', [1, 0], 0, 1], ['sq', [0, 1], 1, 1], ['q4', [1, 1], .5, .25]],
      'expsum': [['exp', [1, -1], 0, 1], ['exp', [-1, 0], 0, 1], ['sq', [0, 1], 0, .5], ['exp', [0, 1], 0, .1]],
      'logcosh': [['lc', [1, 0], 1, 1], ['lc', [1, 1], 0, 2], ['sq', [1, 0], 0, .1], ['sq', [0, 1], 0, .1]],
      'softplus': [['sp', [2, 1], 0, 2], ['sp', [-1, 1], 1, 1], ['sq', [1, 0], -.5, .3], ['sq', [0, 1], .25, .3]],
      'mixed': [['q4', [1, -1], 1, .5], ['sp', [1, 2], 0, 1], ['sq', [1, 1], -1, .5], ['sq', [1, -1], 0, .2]],
      'steep': [['sq', [3, 1], 1, 1], ['exp', [0, 1], 1, .5], ['sq', [0, 1], 1, .2], ['lc', [1, -2], 0, .5]]}
F3 = {'quart': [['q4', [1, 0, 0], 0, 1], ['sq', [1, 0, 0], 1, 1], ['sq', [0, 1, 1], 0, 1], ['sq', [0, 1, -1], 1, .5],
                ['q4', [1, 1, 1], 0, .1]],
      'logcosh': [['lc', [1, 1, 0], 0, 1], ['lc', [0, 1, -1], 1, 1], ['sq', [1, 0, 0], 1, .3], ['sq', [0, 1, 0], 0, .3],
                  ['sq', [0, 0, 1], -1, .3]],
      'expsum': [['exp', [1, 0, -1], 0, 1], ['exp', [-1, 1, 0], 0, 1], ['sq', [1, 0, 0], 0, .3], ['sq', [0, 1, 0], 1, .3],
                 ['sq', [0, 0, 1], 0, .3]]}
B1 = {'none': None, 'box': [[-2], [2]], 'act': [[.75], [INF]], 'up': [[-INF], [-.5]], 'tiny': [[-.1], [.15]]}
B2 = {'none': None, 'box': [[-2, -2], [2, 2]], 'pos': [[.5, -3], [3, 3]], 'corner': [[1, 1], [4, 4]],
      'half': [[-INF, .5], [.25, INF]], 'tiny': [[-.3, -.4], [.2, .1]]}
B3 = {'none': None, 'box': [[-1, -1, -1], [1, 1, 1]], 'mixed': [[.25, -INF, -.25], [INF, .5, 2]]}
EQ2 = [['lin', [1, 1], 1]]
EQ3 = [['lin', [1, 1, 1], 1]]
OPTS = [{}, {'final_degree': 'diagonal', 'msimul': 2000, 'miter': 2000}, {'whichmodel': 'frobnorm'},
        {'whichmodel': 'l2norm'}, {'whichmodel': 'regression'}]


class Ridge:
    """sum of w * phi(a.x - b)"""

    def __init__(self, terms):
        self.t = [(k, np.array(a, float), float(b), float(w)) for k, a, b, w in terms]

    def f(self, x):
        return float(sum(w * PHI[k][0](float(a.dot(x) - b)) for k, a, b, w in self.t))

    def g(self, x):
        return sum(w * PHI[k][1](float(a.dot(x) - b)) * a for k, a, b, w in self.t)

    def H(self, x):
        return sum(w * PHI[k][2](float(a.dot(x) - b)) * np.outer(a, a) for k, a, b, w in self.t)


def newton(F, x, Z):
    """minimise F on x + range(Z)"""
    for _ in range(300):
        g = Z.T.dot(F.g(x))
        if np.max(np.abs(g), initial=0) < 1e-12:
            break
        d = -Z.dot(np.linalg.solve(Z.T.dot(F.H(x)).dot(Z), g))
        t, f0 = 1.0, F.f(x)
        while F.f(x + t * d) > f0 + 1e-4 * t * F.g(x).dot(d) and t > 1e-12:
            t /= 2
        if t <= 1e-12:
            break
        x = x + t * d
    return x


def minimiser(F, n, b, rows):
    """least of the minimisers on all faces of the box (cut by the equalities) that lie in the box; None if there is none or if the
    gradients of the constraints and of the bounds active there are dependent"""
    lb, ub = b if b else ([-INF] * n, [INF] * n)
    A = np.array([r[1] for r in rows], float).reshape(len(rows), n)
    c = np.array([r[2] for r in rows], float)
    best = None
    for face in itertools.product((0, -1, 1), repeat=n):
        if any((s < 0 and lb[i] <= -1e19) or (s > 0 and ub[i] >= 1e19) for i, s in enumerate(face)):
            continue
        fixed = [i for i in range(n) if face[i]]
        S = np.vstack([A, np.eye(n)[fixed]])
        d = np.concatenate([c, [lb[i] if face[i] < 0 else ub[i] for i in fixed]])
        x, Z = np.zeros(n), np.eye(n)
        if len(S):
            x = np.linalg.lstsq(S, d, rcond=None)[0]
            if np.max(np.abs(S.dot(x) - d)) > 1e-9:
                continue
            Z = np.linalg.svd(S)[2][np.linalg.matrix_rank(S):].T
        if Z.shape[1]:
            x = newton(F, x, Z)
        if any(x[i] < lb[i] - 1e-9 or x[i] > ub[i] + 1e-9 for i in range(n)):
            continue
        if best is None or F.f(x) < F.f(best) - 1e-12:
            best = x
    if best is None:
        return None
    act = [i for i in range(n) if best[i] < lb[i] + 1e-6 or best[i] > ub[i] - 1e-6]
    S = np.vstack([A, np.eye(n)[act]])
    if len(S) and (np.linalg.matrix_rank(S) < len(S)):
        return None
    return best


def cases(tier):
    out = []
    big = tier == 'thorough'
    X1 = [[0], [2.5], [-3], [.7], [9]]
    X2 = [list(map(float, s)) for s in itertools.product((-2, 0, 1.5) if not big else (-3, -2, -.5, 0, 1, 1.5, 4), repeat=2)]
    X3 = [[0, 0, 0], [1, 2, -1], [-2, .5, 1.5]] + ([[3, 3, 3], [-1, 0, 2], [.5, -3, -.25]] if big else [])
    for fk, t in F1.items():
        for bk, b in B1.items():
            for x0 in X1:
                out.append(['1/%s/%s' % (fk, bk), 1, t, b, [], x0, {}])
                for o in OPTS[2:] if big else ():
                    out.append(['1/%s/%s' % (fk, bk), 1, t, b, [], x0, o])
    for fi, (fk, t) in enumerate(F2.items()):
        for bi, (bk, b) in enumerate(list(B2.items()) + [('line', None)] + [('line+' + k, v) for k, v in B2.items() if v]):
            rows = EQ2 if bk[:4] == 'line' else []
            for xi, x0 in enumerate(X2):
                for oi, o in enumerate(OPTS):
                    if not big and oi and (xi + oi + fi + bi) % 4:
                        continue
                    if rows and oi == 1:
                        continue
                    out.append(['2/%s/%s' % (fk, bk), 2, t, b, rows, x0, o])
    for fk, t in F3.items():
        for bk, b in list(B3.items()) + [('plane', None)] + [('plane+' + k, v) for k, v in B3.items() if v]:
            for xi, x0 in enumerate(X3):
                for o in OPTS if big else OPTS[:1]:
                    if 'msimul' in o:
                        continue
                    out.append(['3/%s/%s' % (fk, bk), 3, t, b, EQ3 if bk[:5] == 'plane' else [], x0, o])
    return out


def run(case):
    label, n, terms, b, rows, x0, o = case
    r = Res()
    F = Ridge(terms)
    s = dict(n=n, me=len(rows), mi=0, c=rows, nl='const')
    if b:
        s['lb'], s['ub'] = b
    P = Problem(s)
    P._f, P._g = F.f, F.g
    xs = minimiser(F, n, b, rows)
    if xs is None:
        if not rows:
            raise AssertionError('oracle found no minimiser: ' + label)
        r.count['inconsistent or dependent'] += 1
        return r
    r.evals = 1
    R = solve_problem(P, x0, options(**o))
    if R.exc is not None:
        r.bad('the solver raised %r' % R.exc, fp='exc', tb=R.tb)
        return r
    x = vec(R.x)
    e = float(np.max(np.abs(x - xs)))
    r.count['flag%d' % R.flag] += 1
    r.sample = dict(case=label, options=o, x=x.tolist(), minimiser=xs.tolist(), evaluations=len(R.fx))
    if np.max(np.abs(xs - np.array(x0, float))) > 1e-6:
        r.keys.add(h(case))
    tol = 2e-3 * (1 + np.max(np.abs(xs)))

    def again(start):
        R = solve_problem(P, start, options(**o))
        return R.exc is None and R.flag == 0 and np.max(np.abs(vec(R.x) - xs)) <= tol
    if rows and b and R.flag == 15:
        r.count['both kinds of constraints, not solved but said so'] += 1
    elif (R.flag != 0 or not e <= tol) and solvable_nearby(P, x0, again):
        r.count['solved from starts nearby only'] += 1
    elif R.flag != 0 or not e <= tol:
        r.bad('not solved: flag %d, distance to the minimiser %.3g' % (R.flag, e), fp='unsolved:' + label,
              x=x, minimiser=xs, start=x0, options=o)
    return r

"""C24: trust-region subproblems are solved as promised, also next to bounds."""
import itertools

import numpy as np
from mc.core import Res, h
from mc import unit as U, drive
from sqpdfo.bcdfo_solve_TR_MS import bcdfo_solve_TR_MS_ as MS
from sqpdfo.bcdfo_solve_TR_MS_bc import bcdfo_solve_TR_MS_bc_ as MSBC

ID, LEVEL = 'C24', 'exploration'
RULE = ('every symmetric matrix and gradient with entries from the alphabet x radius x accuracy: step, multiplier, norm, value '
        'and gradient compared with the exact global solution (eigen decomposition, including hard cases); with every pair of '
        'bounds per variable: feasibility, consistency, no increase, exactness where no bound or a positive definite interior '
        'solution is involved; non-trivial = a negative optimal value; distinct = problem data')
BOUNDS = ('ball: n=1 and n=2 entries {-2,-1,0,1,3} x gradients {-3,-1,0,.1,2}, n=3 entries {-1,0,2} x {-1,0,2}, 5 radii, data scaled by 1, 1e4, 1e-4; '
          'bounds: n<=2, entries {-1,0,2}, 7 bound pairs per variable, 3 radii (thorough: n=3, more radii); n=4 (thorough 5): 9 named matrices, each variable and pair bounded')
ASSUMPTIONS = ['optimality to 3 times the accuracy asked for plus 1e-6 x radius (absolute gradient threshold of the solver)',
               'with bounds the method is a documented heuristic: optimality is judged only where it is exact']
CHUNK = 2
INF = 1e20
B = [(-INF, INF), (0, 1), (-.5, .25), (0, INF), (-INF, 0), (-.1, INF), (-1, 0)]


def sym(n, v):
    H = np.zeros((n, n))
    k = 0
    for i in range(n):
        for j in range(i + 1):
            H[i, j] = H[j, i] = v[k]
            k += 1
    return H


def mats(n):
    e = np.eye(n)
    d = np.arange(n)
    t = 2 * e - np.eye(n, k=1) - np.eye(n, k=-1)
    neg = e.copy()
    neg[-1, -1] = -1
    one = np.outer(1 + d % 2, 1 + d % 2).astype(float)
    far = 3 * e
    far[0, -1] = far[-1, 0] = 1
    far[n - 2, n - 1] = far[n - 1, n - 2] = -2
    return {'id': e, 'tri': t, 'zero': 0 * e, 'neg': neg, 'minus': -t, 'rank1': one, 'ill': np.diag(10. ** (d - 1)), 'far': far,
            'mix': t - 2 * neg}


def boxes(n):
    """patterns of bounds for many variables: none, all, each single variable, each pair of neighbours"""
    I = 1e20
    free, out = (-I, I), [((-I, I),) * n, ((-.25, .5),) * n, ((0, .3),) * n]
    for b in ((0, .3), (-.25, 1)):
        for i in range(n):
            out.append(tuple(b if k == i else free for k in range(n)))
            if i:
                out.append(tuple(b if k in (i - 1, i) else free for k in range(n)))
    return out


def cases(tier):
    big = tier == 'thorough'
    out = []
    va, ga = (-2, -1, 0, 1, 3), (-3, -1, 0, .1, 2)
    for v in va:
        for g in ga:
            out.append(['ball', 1, [v], [[g]], [1e-7, .01, .5, 1, 2, 100]])
    for v in itertools.product(va, repeat=3):
        out.append(['ball', 2, v, list(itertools.product(ga, repeat=2)), [1e-8, 1e-5, .01, .5, 1, 2, 100] if big else [1e-7, 1, 100]])
    for v in itertools.product((-1, 0, 2), repeat=6):
        out.append(['ball', 3, v, list(itertools.product((-1, 0, 2), repeat=3)), [.5, 2, 30] if big else [.7]])
    for v in (-1, 0, 2):
        for g in (-3, 0, .1, 2):
            for b in B:
                out.append(['box', 1, [v], [[g]], [b], [.05, 1, 10]])
    for v in itertools.product((-1, 0, 2), repeat=3):
        for bb in itertools.product(B, repeat=2):
            out.append(['box', 2, v, list(itertools.product((-3, 0, .1, 2), repeat=2)), bb, [.05, .3, 1, 10] if big else [.05, 1, 10]])
    for n in (4, 5) if big else (4,):
        gs = [tuple(((3 * k + a) % 5 - 2) * 1.0 for k in range(n)) for a in range(5)] + [tuple(2.0 if k == i else 0.0 for k in range(n)) for i in range(n)]
        for m in mats(n):
            out.append(['ball', n, m, gs, [.5, 3, 30]])
            for bb in boxes(n):
                out.append(['box', n, m, gs[::1 if big else 2], bb, [.3, 5]])
    b3 = list(itertools.product([B[0], B[1], B[4], (-.3, .2)], repeat=3))
    for v in itertools.product((0, 2), (-1, 1), (0, 3), (0, 1), (0, -1), (1, 4)) if big else [(2, 1, 3, 0, -1, 4), (2, 0, 2, 0, 0, 2), (2, -1, -1, 0, 1, 1)]:
        for bb in b3:
            out.append(['box', 3, v, list(itertools.product((-3, .1, 2), repeat=3)), bb, [.3, 5]])
    return out


def num(a):
    return float(np.asarray(a, float).reshape(-1)[0])


def ball(r, H, g, D, eps):
    r.evals += 1
    s, lam, norms, val, gp, nf, ne, msg, hc = MS(U.col(g), H.copy(), D, eps)
    s, g = np.asarray(s, float).reshape(-1), np.array(g, float)
    v = float(g.dot(s) + .5 * s.dot(H).dot(s))
    o, so, lo, hard = U.tr_global(g, H, D)
    d = dict(H=H, g=g, Delta=D, eps=eps, s=s, value=v, optimum=o, lam=num(lam), msg=str(msg)[:40])
    sc = 1 + np.max(np.abs(H)) * D * D + np.max(np.abs(g)) * D
    if not np.all(np.isfinite(s)) or s.shape != g.shape:
        r.bad('step is not a finite vector', fp='shape', **d)
        return
    if np.linalg.norm(s) > D * (1 + eps) * (1 + 1e-9):
        r.bad('step leaves the ball', fp='radius', **d)
    if abs(num(norms) - np.linalg.norm(s)) > 1e-8 * (1 + D):
        r.bad('reported norm is not that of the step', fp='norm', reported=num(norms), **d)
    if abs(num(val) - v) > 1e-9 * sc:
        r.bad('reported value is not that of the step', fp='value', reported=num(val), **d)
    if np.max(np.abs(np.asarray(gp, float).reshape(-1) - (g + H.dot(s)))) > 1e-9 * sc / D + 1e-9 * np.max(np.abs(H)):
        r.bad('reported gradient is not that at the step', fp='gplus', reported=gp, **d)
    if v > o + 3 * eps * abs(o) + 1e-6 * D + 1e-12 * sc:
        r.bad('step is not globally optimal in the ball', fp='optimal', hard=hard, **d)
    if num(lam) < 0:
        r.bad('negative multiplier', fp='lambda', **d)
    if o < -1e-9:
        r.keys.add(h('b', H.tolist(), g.tolist(), D))
        r.count['hard'] += bool(hard)
        r.count['interior' if np.linalg.norm(so) < D * .99 else 'boundary'] += 1
    return v, o


def box(r, H, g, l, u, D, opt):
    r.evals += 1
    g, l, u = (np.array(a, float) for a in (g, l, u))
    gi, Hi, li, ui = U.col(g), H.copy(), U.col(l), U.col(u)
    s, lam, norms, val, gp, nf, ne, msg = MSBC(gi, Hi, li, ui, D, 1e-3, 1, opt)
    s = np.asarray(s, float).reshape(-1)
    v = float(g.dot(s) + .5 * s.dot(H).dot(s))
    d = dict(H=H, g=g, lb=l, ub=u, Delta=D, s=s, value=v, msg=str(msg)[:40])
    sc = 1 + np.max(np.abs(H)) * D * D + np.max(np.abs(g)) * D
    if not np.all(np.isfinite(s)) or s.shape != g.shape:
        r.bad('step is not a finite vector', fp='shape', **d)
        return
    if np.linalg.norm(s) > D * (1 + 1e-3) + 1e-5 * min(1, D) * len(s):
        r.bad('step leaves the trust region', fp='radius', **d)
    if max(np.max(l - s), np.max(s - u)) > 1e-12 * min(1, 10 * D):
        r.bad('step leaves the bounds', fp='bounds', **d)
    if abs(num(norms) - np.linalg.norm(s)) > 1e-8 * (1 + D):
        r.bad('reported norm is not that of the step', fp='norm', reported=num(norms), **d)
    if abs(num(val) - v) > 1e-9 * sc:
        r.bad('reported value is not that of the step', fp='value', reported=num(val), **d)
    if v > 1e-9 * min(sc, np.max(np.abs(H)) * D * D + np.max(np.abs(g)) * D + 1e-12):
        r.bad('step increases the model', fp='ascent', **d)
    if not (np.array_equal(Hi, H) and np.array_equal(li.reshape(-1), l) and np.array_equal(ui.reshape(-1), u)):
        r.bad('matrix or bounds were modified', fp='modified', **d)
    o, so, lo, hard = U.tr_global(g, H, D)
    blocked = np.any((np.abs(l) <= 1e-10) & (g > 0)) or np.any((np.abs(u) <= 1e-10) & (g < 0))
    if not hard and not blocked and np.all(so > l + 1e-3 * min(1, D)) and np.all(so < u - 1e-3 * min(1, D)):
        r.count['no bound'] += 1
        if v > o + 3e-3 * abs(o) + 1e-6 * D:
            r.bad('no bound is in the way, but the step is not optimal', fp='free', optimum=o, **d)
    w = np.linalg.eigvalsh(H)
    if w[0] > 1e-9:
        bo, bs = U.box_qp_global(g, H, np.maximum(l, -D), np.minimum(u, D))
        if np.linalg.norm(bs) < D * .999 and bo < -1e-9 * min(1, D):
            r.count['convex, ball inactive'] += 1
            if v > .05 * bo:
                r.bad('less than 5 percent of the possible decrease of a convex model', fp='decrease', optimum=bo, **d)
    if v < -1e-9 * min(1, D):
        r.keys.add(h('x', H.tolist(), g.tolist(), l.tolist(), u.tolist(), D))


def run(case):
    r = Res()
    H = sym(case[1], case[2]) if case[1] < 4 else mats(case[1])[case[2]]
    if case[0] == 'ball':
        for g in case[3]:
            for D in case[4]:
                for eps in ((1e-3, 1e-8, .1) if case[1] == 1 else (1e-3,)):
                    ball(r, H, g, D, eps)
                for k in (1e4, 1e-4):
                    if case[1] == 2 and (k > 1 or D > 1e-3):
                        ball(r, H * k, np.array(g) * k, D, 1e-3)
    else:
        opt = drive.options()
        for g in case[3]:
            for D in case[5]:
                box(r, H, g, [b[0] for b in case[4]], [b[1] for b in case[4]], D, opt)
            for k in (1e-4, 1e-7) if case[1] < 3 else (1e-6,):       # the same shapes at late-run scales
                for K in (H, H / k):
                    box(r, K, g, [b[0] * k if abs(b[0]) < 1e19 else b[0] for b in case[4]],
                        [b[1] * k if abs(b[1]) < 1e19 else b[1] for b in case[4]], case[5][1 % len(case[5])] * k, opt)
    r.viol = r.viol[:4]
    r.sample = dict(case=case[:3], evaluations=r.evals)
    return r

"""C26: multipliers and optimality measures are right for every active-set pattern."""
import itertools

import numpy as np
from mc.core import Res, h
from mc import unit as U, drive
import sqpdfo.sqpdfo_global_variables as glob
from sqpdfo.blls import blls_
from sqpdfo.bcdfo_projgrad import bcdfo_projgrad_
from sqpdfo.sqpdfo_compute_multiplier import sqpdfo_compute_multiplier_
from sqpdfo.sqpdfo_optimality import sqpdfo_optimality_

ID, LEVEL = 'C26', 'exploration'
RULE = ('bounded least squares: every matrix, right-hand side and bound pattern of the alphabet against enumeration of all faces; '
        'multipliers: every Jacobian, gradient and bound/activity pattern, with and without slack variables, against enumeration; '
        'projected gradient and Lagrangian gradient against their definitions; non-trivial = at least one active bound or a nonzero '
        'multiplier; distinct = problem data')
BOUNDS = ('least squares: shapes 1x1,1x2,2x1,2x2 entries {-1,0,2} (thorough {-1,0,.5,2}), 3x3 Gram matrices of 144 factors, 5 bound pairs per variable; '
          'multipliers: n=2, me 0..2, entries {-1,0,2}, 7 bound pairs, slacks {0,.5}; n=3,4 (thorough 5), 5 Jacobians of 0..3 rows, each variable and pair bounded')
ASSUMPTIONS = ['with multiplier bounds active away from stationarity the documented method (normal equations) is not the exact bounded '
               'least-squares solution; optimality of multipliers is judged where an exact multiplier exists or no bound is active']
CHUNK = 4
I, INF = np.inf, 1e20
B = [(-I, I), (0, I), (-I, 0), (-1, 1), (.5, 2)]
XB = [(-INF, INF), (0, INF), (-INF, 0), (0, 5), (-5, 0), (-1, 1), (-5, 5)]


class V:
    pass


def cases(tier):
    big = tier == 'thorough'
    out = []
    ent = (-1, 0, .5, 2) if big else (-1, 0, 2)
    for m, n in ((1, 1), (1, 2), (2, 1), (2, 2)):
        for a in itertools.product(ent, repeat=m * n):
            if any(a):
                out.append(['ls', m, n, a])
    if big:
        for a in itertools.product((-1, 0, 2), repeat=6):
            if any(a[:3]) and any(a[3:]):
                out.append(['ls', 2, 3, a])
    for a in itertools.product((-1, 1, 2), (0, 1), (-1, 1), (0, 1), (1, 3), (0, 2)):
        out.append(['gram', 3, 3, a])
    for me in (0, 1, 2):
        for J in itertools.product((-1, 0, 2), repeat=2 * me):
            out.append(['mult', me, 0, J, []])
    for J in itertools.product((-1, 0, 2), repeat=2):
        for s in (0, .5):
            out.append(['mult', 1, 1, J, [s]])
    for J in itertools.product((-1, 2), repeat=4):
        for s in ([0], [.5]):
            out.append(['mult', 2, 1, J, s])
    for n in (3, 4, 5) if big else (3, 4):
        for j in range(5):
            for s in ([], [0], [.5]):
                if len(s) <= len(JN(n)[j]):
                    out.append(['multn', n, j, s])
    for x in (-1, -.999995, 0, .25, 1):
        out.append(['pg', x])
    return out


def JN(n):
    e = np.eye(n)
    return [[], [[1 + k % 2 for k in range(n)]], [list(e[0] - e[-1]), list(e[-1] + 2 * e[1])],
            [[0] * (n - 1) + [-2]], [[1] * n, list(e[0]), list(e[1] - e[2])]]


def ls(r, A, b, l, u):
    r.evals += 1
    s, rn, opt, ec = blls_(A.copy(), U.col(b), U.col(l), U.col(u))
    s = np.asarray(s, float).reshape(-1)
    d = dict(A=A, b=b, lb=l, ub=u, s=s, exit=int(ec))
    if max(np.max(np.array(l) - s), np.max(s - np.array(u))) > 0:
        r.bad('least-squares solution leaves its bounds', fp='ls-bounds', **d)
    res = float(np.linalg.norm(A.dot(s) - np.array(b, float)))
    if abs(res - float(np.squeeze(rn))) > 1e-9 * (1 + res):
        r.bad('reported residual is not that of the solution', fp='ls-residual', got=rn, want=res, **d)
    o, xs = U.box_ls_global(A, b, l, u)
    if res > o + 1e-6 * (1 + o):
        r.bad('bounded least-squares problem not solved', fp='ls-optimal', residual=res, best=o, xs=xs, **d)
    if ec != 0:
        r.bad('bounded least-squares solver gave up', fp='ls-exit', **d)
    if np.any(xs == np.array(l)) or np.any(xs == np.array(u)):
        r.keys.add(h(A.tolist(), b, l, u))


def mult(r, J, g, bb, sl):
    r.evals += 1
    n, me, ns = len(g), len(J), len(sl)
    drive.fresh()
    glob.set_nbr_slacks(ns)
    glob.set_slacks(U.col(sl) if ns else np.zeros((0, 1)))
    values = V()
    values.success, values.fail_unexpected = 0, 30
    opt = drive.options()
    opt.inf, opt.dxmin, opt.verbose = INF, 1e-6, 0
    info = V()
    info.g, info.ae, info.ce, info.ci = U.col(g), J.copy(), U.col([.3, -.2, .1][:me]), np.array([])
    x, lb, ub = U.col([0] * n), U.col([b[0] for b in bb]), U.col([b[1] for b in bb])
    lm, info2 = sqpdfo_compute_multiplier_(x, lb, ub, info, opt, values)
    lm = np.asarray(lm, float).reshape(-1)
    d = dict(J=J, g=g, bounds=bb, slacks=sl, multiplier=lm)
    if lm.size != n + me or not np.all(np.isfinite(lm)):
        r.bad('multiplier has the wrong size or is not finite', fp='m-size', **d)
        return
    lo, up = np.full(n + me, -I), np.full(n + me, I)
    for i, b in enumerate(bb):
        if b[0] <= -INF or b[1] == 0:
            lo[i] = 0
        if b[1] >= INF or b[0] == 0:
            up[i] = 0
    if np.any(lm < lo - 1e-9) or np.any(lm > up + 1e-9):
        r.bad('multiplier of a bound has an inadmissible sign', fp='m-sign', **d)
    At = np.hstack([np.eye(n), J.T.reshape(n, me)])
    if ns:
        S = np.zeros((ns, n + me))
        S[:, n + me - ns:] = -2 * np.diag(sl)
        At = np.vstack([At, S])
    gl = np.concatenate([np.array(g, float), np.zeros(ns)])
    o, xs = U.box_ls_global(At, -gl, lo, up)
    res = float(np.linalg.norm(At.dot(lm) + gl))
    un = np.linalg.lstsq(At[:, lo < up], -gl, rcond=1e-12)[0]
    fr = np.linalg.norm(At[:, lo < up].dot(un) + gl) if un.size else np.linalg.norm(gl)
    exact = o < 1e-9 or abs(fr - o) < 1e-9 and np.all(un > lo[lo < up] + 1e-6) and np.all(un < up[lo < up] - 1e-6)
    if exact and res > o + 1e-4:
        r.bad('multiplier does not minimise the gradient of the Lagrangian', fp='m-optimal', residual=res, best=o, **d)
    if exact:
        r.count['exact multiplier'] += 1
    r.keys.add(h(J.tolist(), g, bb, sl))
    # gradient of the Lagrangian and feasibility
    feas, compl, info3 = sqpdfo_optimality_(x, U.col(lm), lb, ub, info, opt)
    act = np.array([1.0 if abs(b[0]) < 1e-5 or abs(b[1]) < 1e-5 else 0.0 for b in bb])
    want = np.array(g, float) + act * lm[:n] + (J.T.dot(lm[n:]) if me else 0)
    if np.max(np.abs(np.asarray(info3.glag, float).reshape(-1) - want)) > 1e-9:
        r.bad('gradient of the Lagrangian is wrong', fp='glag', got=info3.glag, want=want, **d)
    wf = np.array([.3, -.2, .1][:me]) - np.concatenate([np.zeros(me - ns), np.array(sl, float) ** 2])
    if me and np.max(np.abs(np.asarray(feas, float).reshape(-1) - wf)) > 1e-12:
        r.bad('feasibility is wrong', fp='feas', got=feas, want=wf, **d)
    if np.asarray(info.g).reshape(-1).tolist() != list(map(float, g)):
        r.bad('the gradient given was modified', fp='modified', **d)


def run(case):
    r = Res()
    k = case[0]
    if k in ('ls', 'gram'):
        m, n, a = case[1:]
        if k == 'ls':
            A = np.array(a, float).reshape(m, n)
        else:
            L = np.array([[a[0], a[1], a[2]], [0, a[3], a[4]], [a[5], 1, 0]], float)
            A = L.dot(L.T)
        bs = (-2, .5, 3) if k == 'ls' else (-2, 3)
        for b in itertools.product(bs, repeat=m):
            for bb in itertools.product(B if k == 'ls' else B[:4], repeat=n):
                ls(r, A, list(b), [t[0] for t in bb], [t[1] for t in bb])
    elif k == 'mult':
        me, ns, J, sl = case[1:]
        for g in itertools.product((-2, 0, 1), repeat=2):
            for bb in itertools.product(XB, repeat=2):
                mult(r, np.array(J, float).reshape(me, 2), g, bb, sl)
    elif k == 'multn':
        n, j, sl = case[1:]
        J = np.array(JN(n)[j], float).reshape(-1, n)
        gs = [tuple((3 * i + a) % 4 - 1.5 for i in range(n)) for a in range(4)] + [tuple(J.sum(0)), (0,) * n]
        gs += [tuple(2.0 if k == i else 0.0 for k in range(n)) for i in range(n)]
        free = (-INF, INF)
        for g in gs:
            for bb in [(free,) * n] + [(b,) * n for b in XB] + [tuple(b if k == i or k == i2 else free for k in range(n))
                                                                for b in XB for i in range(n) for i2 in (i, n - 1)]:
                mult(r, J, g, bb, sl)
    else:
        x = case[1]
        for g in (-3, -.5, 0, .5, 3):
            for l, u in ((-1, 1), (-INF, 1), (-1, INF), (-1, 4), (-INF, INF)):
                for x2, g2 in ((0, 0), (.5, -2), (1, 7)):
                    gn, pg = bcdfo_projgrad_(2, U.col([x, x2]), U.col([g, g2]), U.col([l, -1]), U.col([u, 1]))
                    r.evals += 1
                    X, G, Lo, Up = np.array([x, x2]), np.array([g, g2]), np.array([l, -1]), np.array([u, 1])
                    w = X - np.clip(X - G, Lo, Up)
                    gn = float(np.squeeze(gn))
                    if abs(gn - np.max(np.abs(w))) > 1e-12 or np.max(np.abs(np.abs(np.asarray(pg, float).reshape(-1)) - np.abs(w))) > 1e-12:
                        r.bad('projected gradient is wrong', fp='projgrad', x=X, g=G, lb=Lo, ub=Up, got=pg, norm=gn, want=w)
                    r.keys.add(h(x, g, l, u, x2))
    r.viol = r.viol[:4]
    r.sample = dict(case=case, evaluations=r.evals)
    return r

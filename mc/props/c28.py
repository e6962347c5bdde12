"""C28: the trial step respects bounds, radius and linearised constraints, and makes progress."""
import itertools

import numpy as np
from mc.core import Res, h
from mc import unit as U, drive
from mc.props.c24 import sym, mats, boxes
from mc.props.c25 import steihaug
import sqpdfo.sqpdfo_global_variables as glob
from sqpdfo.helper import dummyOptions, dummyValues
from sqpdfo.sqpdfo_solve_TR_bc import sqpdfo_solve_TR_bc_ as step
from sqpdfo.sqpdfo_compute_multiplier import sqpdfo_compute_multiplier_ as mult

ID, LEVEL = 'C28', 'exploration'
RULE = ('every curvature matrix, gradient, constraint Jacobian and residual, bound pattern (start inside, at and near bounds), radius '
        'and translation of the alphabets, with and without slack variables: the step is judged by its definition (bounds, radius, '
        'linearised infeasibility, decrease) and, where no bound interferes, compared with restoration + Steihaug steps from an '
        'independent computation; non-trivial = non-zero step; distinct = problem data')
BOUNDS = ('n=1,2: entries {-1,0,2}, 0..2 constraints of 5 Jacobians, 4..6 bound pairs per variable, 2 radii; n=3,4 (thorough 5): '
          '9 named matrices (definite, indefinite, singular, coupled, ill-scaled), 5 Jacobians of 0..3 rows; bounds: n=3 all combinations of 3 pairs, '
          'n>3 none, all, and each single variable and neighbouring pair bounded; slacks {0,.5,2}; 2 translations')
ASSUMPTIONS = ['progress is required from starts strictly inside the bounds (at bounds the active-set estimate may stall, see DESIGN.md)',
               'accuracy 1e-4 of the radius (subproblem accuracy 1e-6)']
CHUNK = 1
V = dummyValues()
INF = 1e20
JAC = {1: [(), ((1,),), ((-2,),)],
       2: [(), ((1, 0),), ((1, 1),), ((1, -2),), ((1, 0), (1, 1)), ((0, 0),)],
       3: [(), ((1, 0, 0),), ((1, 1, -1),), ((0, 2, 1),), ((1, 0, 0), (1, 1, 0)), ((1, 1, 1), (1, -1, 0))]}
JAC[4] = [(), ((1, 1, -1, 2),), ((1, 0, 0, 1), (0, 1, 1, 0)), ((0, 0, 0, 2),), ((1, 0, 0, 0), (0, 1, -1, 0), (1, 0, 1, 1))]
JAC[5] = [(), ((1, 1, -1, 2, 0),), ((1, 0, 0, 1, 0), (0, 1, 1, 0, -1)), ((0, 0, 0, 2, 0),), ((1, 0, 0, 0, 0), (0, 1, -1, 0, 1), (1, 0, 1, 1, 0))]


BD = {1: [(-INF, INF), (0, INF), (-.25, .25), (-1, 0), (-.1, 3)],
      2: [(-INF, INF), (0, INF), (-.25, .25), (-1, 0)],
      3: [(-INF, INF), (0, .3), (-.25, 1)]}


class I_:
    pass


def cases(tier):
    big = tier == 'thorough'
    out = []
    for n in (1, 2, 3, 4, 5) if big else (1, 2, 3, 4):
        va = list(itertools.product((-1, 0, 2), repeat=n * (n + 1) // 2) if n < 3 else mats(n))
        for v in va:
            for j in range(len(JAC[n])):
                for half in range(3 if n > 2 else 1):
                    out.append(['eq', n, v, j, half, big])
        if n < 3:
            for k, v in enumerate(va):
                for j in range(1, len(JAC[n])):
                    if n == 2 and not big and k % 6 != j % 6:
                        continue
                    out.append(['sl', n, v, j, 0, big])
    return out


def call(x, l, u, delta, M, c, A, g, nsl=0, sl=None, o=None):
    n, me = len(x), len(c)
    info = I_()
    info.flag, info.hl, info.ci, info.ai = 0, [], [], []
    info.ce = np.array(c, float).reshape(-1, 1) if me else np.array([])
    info.ae = A.copy() if me else np.array([])
    info.g = np.array(g, float).reshape(-1, 1)
    glob.set_nbr_slacks(nsl)
    glob.set_slacks(np.array(sl, float).reshape(-1, 1) if nsl else None)
    glob.set_check_condition(0)
    glob.set_threshold(1e-8)
    o = o or dummyOptions()
    X, Lb, Ub = (np.array(a, float).reshape(-1, 1) for a in (x, l, u))
    lbo = np.where(np.abs(Lb[:n] - X) < 1e-5, Lb[:n], -np.inf)
    ubo = np.where(np.abs(Ub[:n] - X) < 1e-5, Ub[:n], np.inf)
    if me or np.isfinite(lbo).any() or np.isfinite(ubo).any():
        lm, _ = mult(X, lbo, ubo, info, o, V)
        if len(lm) < n + me:
            lm = np.concatenate([lm, np.zeros((n + me - len(lm), 1))])
    else:
        lm = np.zeros((n, 1))
    keep = [a.copy() for a in (X, Lb, Ub, M, info.ce, info.ae, info.g)]
    with np.errstate(all='ignore'):
        out = step(None, X, Lb, Ub, delta, 0, me, M, 1e-6, 1e-6, info, o, V, 0, lm, np.array([]), np.array([]), info.g.copy(),
                   np.arange(n))
    same = all(np.array_equal(a, b) for a, b in zip(keep, (X, Lb, Ub, M, info.ce, info.ae, info.g)))
    return out, same


def reference(M, g, c, A, delta, n, me):
    c = np.array(c, float)
    sure = True
    if me:
        r = np.linalg.lstsq(A, -c, rcond=None)[0]
        if abs(np.linalg.norm(r) - delta) < 1e-3 * delta:
            sure = False
        if np.linalg.norm(r) > delta:
            r = U.tr_global(A.T @ c, A.T @ A, delta)[1]
    else:
        r = np.zeros(n)
    if me:
        _, sv, Vt = np.linalg.svd(A)
        rank = int((sv > 1e-9).sum())
        Z = Vt[rank:].T
    else:
        Z = np.eye(n)
    if Z.shape[1] == 0:
        return r, sure
    Mt = Z.T @ M @ Z
    gt = Z.T @ (np.array(g) + M @ r)
    if me:
        try:
            t, f, k, s2, _ = steihaug(Mt, -gt, delta, 20 * n, 1e-6)
            # the same path for slightly moved data, or the comparison is not made
            t2, f2, _, _, _ = steihaug(Mt, -gt * (1 + 2e-5) + 2e-5, delta, 20 * n, 1e-6)
            if np.linalg.norm(t - t2) > 1e-2 * delta or np.linalg.norm(gt) < 1e-3:
                s2 = False
        except np.linalg.LinAlgError:
            return r, False
        return r + Z @ t, sure and s2
    return None, False


def run(case):
    kind, n, v, j, half, big = case
    r = Res()
    M = sym(n, v) if n < 3 else mats(n)[v]
    A = np.array(JAC[n][j], float).reshape(-1, n)
    me = len(A)
    try:
        (eq if kind == 'eq' else slk)(r, n, M, A, me, v, j, half, big)
    finally:
        drive.fresh()
    r.sample = dict(case=case)
    return r


def eq(r, n, M, A, me, v, j, half, big):
    ga = (-1, 0, 2)
    gl = list(itertools.product(ga, repeat=n))
    if n == 3:
        gl = gl[half::3]
    if n > 3:
        gl = [tuple(((3 * k + a) % 5 - 2) * b for k in range(n)) for a in range(5) for b in (1, -1)] + [
            tuple((2.0 if k == i else 0.0) for k in range(n)) for i in range(n)] + [(0,) * n]
        gl = gl[half::3]
    vs = sum(v) if n < 3 else len(v)
    for g in gl:
        for c in itertools.product((-1, 0, .5) if n < 3 and me < 2 else (-1, 0), repeat=me):
            for ib, bb in enumerate(boxes(n) if n > 3 else itertools.product(BD[n], repeat=n)):
                for delta in (.2, 2) if n == 1 or big else (2,) if (vs + sum(g) + ib) % 2 else (.2,):
                    for T in ((0.0, 3.0, -2.0), (0, 0, 0)) if n == 1 or big and n == 2 else ((0., 0, 0),):
                        T = np.resize(np.array(T, float), n)
                        l = np.array([b[0] for b in bb]) + T
                        u = np.array([b[1] for b in bb]) + T
                        one(r, n, M, A, me, g, c, l, u, delta, T, v)


def one(r, n, M, A, me, g, c, l, u, delta, T, v):
    det = dict(M=M, g=g, c=c, A=A, lb=l, ub=u, delta=delta, x=T)
    r.evals += 1
    try:
        out, same = call(T, l, u, delta, M.copy(), c, A, g)
        xn = np.asarray(out[0], float).reshape(-1)
    except Exception as e:
        r.bad('trial step raised %r' % e, 'raise', **det)
        return
    if not same:
        r.bad('arguments altered', 'alias', **det)
    if xn.shape != (n,) or not np.isfinite(xn).all():
        r.bad('trial point is not a finite vector', 'nan', xnew=xn, **det)
        return
    s = xn - T
    g, c = np.array(g, float), np.array(c, float)
    det['step'] = s
    if np.linalg.norm(s) > 1e-12:
        r.keys.add(h((v, g.tolist(), c.tolist(), l.tolist(), u.tolist(), delta, A.tolist())))
    if (xn < l - 1.001e-8).any() or (xn > u + 1.001e-8).any():
        r.bad('trial point violates a bound', 'bounds', **det)
    free = (l < -1e19).all() and (u > 1e19).all()
    lim = 1.0 if not me else 1.41422 if free else 3.0
    if np.linalg.norm(s) > lim * delta * (1 + 1e-5):
        r.bad('step longer than the radius allows', 'radius', **det)
    if float(np.asarray(out[1]).reshape(-1)[0]) > delta:
        r.bad('radius returned larger than given', 'delta', **det)
    inside = (l < T - .1).all() and (u > T + .1).all()
    q = g @ s + .5 * s @ M @ s
    if me:
        f0, f1 = np.linalg.norm(c), np.linalg.norm(c + A @ s)
        rp = float(np.asarray(out[2]).reshape(-1)[0])
        if inside and abs(rp - (f0 - f1)) > 1e-6 * (1 + f0):   # (at a bound the bound is one of the equations)
            r.bad('predicted reduction of infeasibility is not that of the step', 'rpred', got=rp, want=f0 - f1, **det)
        if f1 > f0 + 1e-7:
            r.bad('linearised infeasibility increases', 'feas', before=f0, after=f1, **det)
        if inside and np.linalg.norm(A.T @ c) > 1e-9 and f1 > f0 - 1e-3:
            r.bad('linearised infeasibility not reduced from an interior point', 'nofeas', before=f0, after=f1, **det)
        if f0 == 0 and q > 1e-7:
            r.bad('model increases along a step from a feasible point', 'incr', q=q, **det)
        if f0 == 0 and inside:
            Q, R_ = np.linalg.qr(A.T, mode='complete')
            rk = np.linalg.matrix_rank(A)
            Z = np.linalg.svd(A)[2][rk:].T
            if Z.shape[1] and np.linalg.norm(Z.T @ g) > 1e-6:
                r.count['progress'] = r.count.get('progress', 0) + 1
                if q > -1e-4:
                    r.bad('no progress from a feasible interior point', 'stall', q=q, **det)
        E, sure = reference(M, g, c, A, delta, n, me)
        if E is not None and sure and (E > l - T + 1e-3).all() and (E < u - T - 1e-3).all():
            rr = np.linalg.lstsq(A, -c, rcond=None)[0]
            if free or (rr > l - T + 1e-3).all() and (rr < u - T - 1e-3).all() and inside:
                # restoration directions inside the box: nothing interferes (unless a bound was first violated)
                r.count['reference'] = r.count.get('reference', 0) + 1
                if np.linalg.norm(E - s) > 1e-2 * delta and (free or np.linalg.norm(rr) < .5 * delta):
                    r.bad('step is not restoration plus tangent step', 'ref', expected=E, **det)
    else:
        if q > 1e-9:
            r.bad('model increases along the step', 'incr', q=q, **det)
        if inside and np.linalg.norm(g) > 0 and q > -1e-4 and np.linalg.eigvalsh(M)[0] >= 0:
            r.bad('no progress from an interior point', 'stall', q=q, **det)
        val, sg, lam, hard = U.tr_global(g, M, delta)
        if free:
            r.count['reference'] = r.count.get('reference', 0) + 1
            if q > val + 1e-5 * (1 + abs(val)):
                r.bad('not the minimiser over the ball', 'ref', q=q, best=val, **det)
    act = bool(np.asarray(out[4]).reshape(-1)[0])
    if not me and act != (np.linalg.norm(s) >= delta) and abs(np.linalg.norm(s) - delta) > 1e-9:
        r.bad('activity of the radius misreported', 'act', active=act, **det)


def slk(r, n, M, A, me, v, j, half, big):
    for g in itertools.product((-1, 0, 2), repeat=n):
        for nsl in range(1, me + 1):
            for sl in itertools.product((0, .5, 2) if big or n == 1 or nsl == 1 else (.5, 0), repeat=nsl):
                for c in itertools.product((-1, 0, .25), repeat=me):
                    for bb in itertools.product(((-INF, INF), (0, INF), (-.25, 1)), repeat=n):
                        for delta in (.2, 2) if big or n == 1 else (2,) if (v[0] + len(sl)) % 2 else (.2,):
                            l = np.array([b[0] for b in bb] + [0.0] * nsl)
                            u = np.array([b[1] for b in bb] + [INF] * nsl)
                            det = dict(M=M, g=g, c=c, A=A, lb=l, ub=u, delta=delta, slacks=sl)
                            r.evals += 1
                            try:
                                out, same = call(np.zeros(n), l, u, delta, M.copy(), c, A, g, nsl, sl)
                                xn = np.asarray(out[0], float).reshape(-1)
                                sn = np.asarray(out[8], float).reshape(-1)
                            except Exception as e:
                                r.bad('trial step raised %r' % e, 'raise', **det)
                                continue
                            if not same:
                                r.bad('arguments altered', 'alias', **det)
                            if xn.shape != (n,) or sn.shape != (nsl,) or not np.isfinite(xn).all() or not np.isfinite(sn).all():
                                r.bad('trial point is not a finite vector', 'nan', xnew=xn, slnew=sn, **det)
                                continue
                            det.update(xnew=xn, slnew=sn)
                            if np.linalg.norm(xn) + np.linalg.norm(sn - sl) > 1e-12:
                                r.keys.add(h((v, g, c, l.tolist(), u.tolist(), delta, j, sl)))
                            if (xn < l[:n] - 1.001e-8).any() or (xn > u[:n] + 1.001e-8).any():
                                r.bad('trial point violates a bound', 'bounds', **det)
                            if (sn < -1.001e-8).any():
                                r.bad('slack variable becomes negative', 'slneg', **det)
                            sl_ = np.array(sl, float)
                            pad = np.zeros(me - nsl)
                            ce = np.array(c, float) - np.concatenate([pad, sl_ ** 2])
                            if np.linalg.norm(np.concatenate([xn, sn - sl_])) > 3 * delta * (1 + 1e-5):
                                r.bad('step longer than the radius allows', 'slradius', **det)
                            free = (l[:n] < -1e19).all() and (u[:n] > 1e19).all()
                            if free:
                                N = n + nsl
                                ME, gE = np.zeros((N, N)), np.zeros(N)
                                ME[:n, :n], gE[:n] = M, g
                                AE = np.hstack([A, np.vstack([np.zeros((me - nsl, nsl)), -2 * np.diag(sl_)])])
                                E, sure = reference(ME, gE, ce, AE, delta, N, me)
                                if sure and (E[n:] + sl_ > 1e-3).all():
                                    rr = np.linalg.lstsq(AE, -ce, rcond=None)[0]
                                    if np.linalg.norm(rr) < .5 * delta and (rr[n:] + sl_ > 1e-3).all():
                                        r.count['slack reference'] = r.count.get('slack reference', 0) + 1
                                        f0, f1 = np.linalg.norm(ce), np.linalg.norm(ce + AE @ np.concatenate([xn, sn - sl_]))
                                        rp = float(np.asarray(out[2]).reshape(-1)[0])
                                        if abs(rp - (f0 - f1)) > 1e-6 * (1 + f0):
                                            r.bad('predicted reduction of infeasibility is not that of the step', 'slrpred',
                                                  got=rp, want=f0 - f1, **det)
                                        if np.linalg.norm(E - np.concatenate([xn, sn - sl_])) > 1e-2 * delta:
                                            r.bad('step is not restoration plus tangent step', 'slref', expected=E, **det)

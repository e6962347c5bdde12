"""C27: curvature matrices are what they should be (BFGS, model of the Lagrangian, convexification, conditioning)."""
import itertools

import numpy as np
from mc.core import Res, h
from mc import unit as U, drive
from mc.props.c24 import sym, mats
from mc.props.c21 import grid, variants
import sqpdfo.sqpdfo_global_variables as glob
from sqpdfo.helper import dummyOptions, dummyValues
from sqpdfo.sqpdfo_bfgs_update import sqpdfo_bfgs_update_ as bfgs
from sqpdfo.sqpdfo_check_convex import sqpdfo_check_convex_ as convex
from sqpdfo.sqpdfo_check_cond import sqpdfo_check_cond_ as condfix
from sqpdfo.sqpdfo_computeHessian import sqpdfo_computeHessian_ as hessian
from sqpdfo.bcdfo_build_QR_of_Y import bcdfo_build_QR_of_Y_ as build
from sqpdfo.bcdfo_computeP import bcdfo_computeP_ as computeP

ID, LEVEL = 'C27', 'exploration'
RULE = ('BFGS: every matrix, step and gradient change of the alphabet, first or later update, against the inverse-form update with '
        'Powell\'s correction; whole Hessian step: every set from a grid x values x multipliers x slacks, and every BFGS situation '
        'including restarts and restarts from failure; convexification and conditioning: every symmetric matrix of the alphabet in '
        'several units against the spectrum; non-trivial = matrix changed; distinct = input')
BOUNDS = ('n=1,2 entries {-2,-1,0,1,3}, n=3 entries {-1,0,2}; steps/gradient changes {-1,0,.5,2}; 0..2 constraints; multipliers {-2,0,.5}; n=4: named matrices, 36 step/gradient pairs; models n=3,4: variants of the standard sets; '
          'units 1, 1e4, 1e-4')
ASSUMPTIONS = ['near ties of the curvature condition (1e-9) are not judged']
CHUNK = 2
V = dummyValues()


class I_:
    pass


def opts(**kw):
    o = dummyOptions()
    for k, v in kw.items():
        setattr(o, k, v)
    return o


def cases(tier):
    big = tier == 'thorough'
    out = []
    va = (-2, -1, 0, 1, 3)
    for v in va:
        out.append(['bfgs', 1, [v]])
    for v in itertools.product(va, repeat=3):
        out.append(['bfgs', 2, v])
    for v in itertools.product((-1, 0, 2) if not big else (-1, 0, 1, 2), repeat=6):
        if np.linalg.eigvalsh(sym(3, v))[0] > 0 or big and sum(v) % 3 == 0:
            out.append(['bfgs', 3, v])
    for n, va2 in ((1, va), (2, va), (3, (-1, 0, 2) if not big else (-1, 0, 1, 2))):
        for v in itertools.product(va2, repeat=n * (n + 1) // 2):
            out.append(['spec', n, v])
    for n in (1, 2):
        q = (n + 1) * (n + 2) // 2
        for p in range(n + 1, q + 1):
            for c in range(len(grid(n)) if big else min(5, len(grid(n)))):
                for me in (0, 1, 2):
                    for sl in range(0, me + 1):
                        out.append(['model', n, p, c, me, sl])
    for n in (4, 5) if big else (4,):
        for m in mats(n):
            out.append(['spec', n, m])
            out.append(['bfgs', n, m])
    for n in (3, 4):
        q = (n + 1) * (n + 2) // 2
        for p in (n + 1, 2 * n, 2 * n + 1, 3 * n - 1, q - 2, q) if big else (n + 1, 2 * n + 1, 3 * n - 1, q):
            for me in (0, 2):
                for sl in range(0, me + 1):
                    out.append(['model', n, p, 0, me, sl])
    for me in (0, 1, 2):
        for rest in (0, 1, 2, 3):
            for nit in (1, 2):
                for v in itertools.product((1, 2, -1), (0, 1), (1, 3)) if not big else itertools.product((1, 2, -1, 0), (-1, 0, 1), (1, 3, .1)):
                    out.append(['step', me, rest, nit, v])
    return out


def ref(H, y, s, first):
    """(expected H or None for refusal, pc, sure)"""
    n = len(s)
    if not s.any():
        return None, 1, True
    sHs, ys = s @ H @ s, y @ s
    if sHs <= 0:
        return None, 1, sHs == 0 or abs(sHs) > 1e-9
    sure = abs(ys - .2 * sHs) > 1e-9 * (abs(sHs) + abs(ys)) and sHs > 1e-12 * abs(H).max() * (s @ s)
    if not sure:
        return H, 1, False
    pc = 1.0
    if ys < .2 * sHs:
        pc = .8 * sHs / (sHs - ys)
        y = pc * y + (1 - pc) * (H @ s)
        ys = y @ s
    B = H if not first else (y @ y) / ys * np.eye(n)
    if np.linalg.eigvalsh(B)[0] <= 1e-9:
        return B - np.outer(B @ s, B @ s) / (s @ B @ s) + np.outer(y, y) / ys, pc, sure
    T = np.eye(n) - np.outer(s, y) / ys
    return np.linalg.inv(T @ np.linalg.inv(B) @ T.T + np.outer(s, s) / ys), pc, sure


def fl(x):
    return float(np.asarray(x, float).reshape(-1)[0])


def close(A, B, tol=1e-8):
    A, B = np.asarray(A, float), np.asarray(B, float)
    return A.shape == B.shape and np.abs(A - B).max() <= tol * max(1e-12, np.abs(B).max())


def do_bfgs(r, n, v):
    H = sym(n, v) if n < 4 else mats(n)[v]
    pd = np.linalg.eigvalsh(H)[0] > 1e-9
    al = (-1, 0, .5, 2) if n < 3 else (-1, 0, 2)
    vecs = list(itertools.product(al, repeat=n)) if n < 4 else [tuple(((3 * k + a) % 5 - 2) for k in range(n)) for a in range(5)] + [
        (0,) * (n - 1) + (2,)]
    for sb in vecs:
        for yb in vecs:
            for first in (0, 1):
                for u in (1, 1e-4) if n < 3 else (1,):
                    s, y = np.array(sb, float) * u, np.array(yb, float) * u
                    Hi, yi, si = H.copy(), y.reshape(-1, 1).copy(), s.reshape(-1, 1).copy()
                    info = I_()
                    info.flag = 99
                    r.evals += 1
                    det = dict(H=H, y=y, s=s, first=first)
                    try:
                        M, pc, inf, _ = bfgs(Hi, yi, si, first, info, opts(), V)
                        M, pc = np.asarray(M, float), fl(pc)
                    except Exception as e:
                        r.bad('update raised %r' % e, 'raise', **det)
                        continue
                    if not ((Hi == H).all() and (yi[:, 0] == y).all() and (si[:, 0] == s).all()):
                        r.bad('arguments altered', 'alias', **det)
                    X, pce, sure = ref(H, y, s, first)
                    if not sure:
                        continue
                    if X is None:
                        r.count['refused'] = r.count.get('refused', 0) + 1
                        if inf.flag != V.fail_unexpected or not (M == H).all():
                            r.bad('unusable step not refused unchanged', 'refuse', flag=inf.flag, M=M, **det)
                        continue
                    if inf.flag != V.success:
                        r.bad('usable update refused', 'flag', flag=inf.flag, **det)
                        continue
                    r.keys.add(h((v, sb, yb, first, u)))
                    if abs(pc - pce) > 1e-8:
                        r.bad('wrong Powell correction', 'pc', pc=pc, expected=pce, **det)
                    cnd = 1e-7 if pd or first else 1e-6
                    if not close(M, X, cnd):
                        r.bad('not the BFGS update', 'value', M=M, expected=X, **det)
                    elif pd:
                        if abs(M - M.T).max() > 1e-9 * abs(M).max() or np.linalg.eigvalsh(M)[0] <= 0:
                            r.bad('updated matrix is not symmetric positive definite', 'pd', M=M, **det)


def do_spec(r, n, v):
    for u in (1, 1e4, 1e-4, 1e-9):
        A = (sym(n, v) if n < 4 else mats(n)[v]) * u
        w, Q = np.linalg.eigh(A)
        r.evals += 1
        det = dict(A=A)
        Ai = A.copy()
        try:
            B = np.asarray(convex(Ai, opts()), float)
        except Exception as e:
            r.bad('convexification raised %r' % e, 'cvx-raise', **det)
            continue
        if not (Ai == A).all():
            r.bad('argument altered', 'cvx-alias', **det)
        sc = abs(A).max() or 1.0
        if w[0] > 1e-13 * sc:
            if not (B == A).all():
                r.bad('convex matrix changed', 'cvx-same', B=B, **det)
        elif w[0] < -1e-13 * sc:
            r.keys.add(h((n, v, u)))
            if not ((w < 1e-10 * (1 - 1e-5)) | (w > 1e-10 * (1 + 1e-5))).all() or ((abs(w) < 1e-13 * sc) & (abs(w - 1e-10) < 1e-10)).any() and sc > 1e2:
                continue
            E = Q @ np.diag(np.where(w < 1e-10, 1e-9, w)) @ Q.T
            if B.shape != A.shape or abs(B - E).max() > 1e-12 * sc + 1e-15:
                r.bad('convexified matrix is not the spectral one', 'cvx-value', B=B, expected=E, **det)
            if np.linalg.eigvalsh((B + B.T) / 2)[0] < -1e-13 * sc:
                r.bad('convexified matrix has negative curvature', 'cvx-neg', B=B, **det)
        elif abs(B - A).max() > 1e-9 + 1e-12 * sc:
            r.bad('nearly convex matrix changed much', 'cvx-near', B=B, **det)
        # conditioning
        for thr in (1e3, 1e16):
            sv = np.linalg.svd(A, compute_uv=False)
            c = np.inf if sv[-1] == 0 else sv[0] / sv[-1]
            Ai = A.copy()
            r.evals += 1
            if not A.any():
                continue
            try:
                B, bad = condfix(Ai, thr, opts())
                B = np.asarray(B, float)
            except Exception as e:
                r.bad('conditioning raised %r' % e, 'cond-raise', thr=thr, **det)
                continue
            if not (Ai == A).all():
                r.bad('argument altered', 'cond-alias', **det)
            if c > 1e14 and thr > 1e14:
                if abs(B - A).max() > 1.1e-7 + 1e-10 * sc:
                    r.bad('conditioning changed the matrix by more than its floor', 'cond-much', B=B, **det)
                continue
            if abs(c - thr) < 1e-3 * thr:
                continue
            if c <= thr:
                if bad or not (B == A).all():
                    r.bad('well-conditioned matrix changed', 'cond-same', B=B, thr=thr, **det)
            else:
                UU, S, VT = np.linalg.svd(A)
                if (abs(S - 1e-7) < 1e-12).any():
                    continue
                E = np.where(S < 1e-7, 1e-7, S)
                Bs = np.sort(np.linalg.svd(B, compute_uv=False))[::-1]
                if not bad or B.shape != A.shape or abs(B - B.T).max() > 1e-12 * sc:
                    r.bad('ill-conditioned matrix not reported or not symmetric', 'cond-flag', B=B, thr=thr, **det)
                elif abs(B - A).max() > 1e-7 * 1.01 + 1e-12 * sc:
                    r.bad('conditioned matrix is far from the original', 'cond-value', B=B, expected=E, thr=thr, **det)
                elif w[0] >= -1e-13 * sc and abs(Bs - E).max() > 1e-12 * sc + 1e-15:
                    r.bad('small singular values not raised to the floor', 'cond-sv', B=B, sv=Bs, expected=E, **det)


def do_model(r, n, p, c, me, nsl):
    G = grid(n)
    others = [x for k, x in enumerate(G) if k != c]
    sub = list(itertools.combinations(others, p - 1)) if n < 3 else [s[1:] for s in variants(n, p, False)]
    for k, rest in enumerate(sub):
        if n == 2 and me and k % 3:
            pass
        Y = np.array([G[c] if n < 3 else (0,) * n] + list(rest), float).T
        for shift in (1, 0):
            fY = np.array([((7 * j + 3 * k) % 11) - 4.0 for j in range(p)])
            cY = np.array([[((5 * j + 2 * i + k) % 7) - 3.0 for j in range(p)] for i in range(me)]).reshape(me, p)
            (mod,), base, s, cond = (lambda t: (t[0][:1] or [None], t[1], t[2], t[3]))(U.fit(Y, [fY], 0, bool(shift)))
            if mod is None or cond > 1e6:
                r.count['degenerate'] = r.count.get('degenerate', 0) + 1
                continue
            for lmc in itertools.product((-2, 0, .5), repeat=me):
                r.evals += 1
                glob.set_nbr_slacks(nsl)
                glob.set_slacks(np.array([[.5], [2.0]])[:nsl] if nsl else [])
                lm = np.array([9.0] * n + list(lmc)).reshape(-1, 1)
                det = dict(Y=Y, fY=fY, ceY=cY, lm=lmc, shift=shift, slacks=nsl)
                try:
                    QZ, RZ, x, scale = build(Y, 0, shift, 1, 1, 1e15)
                    x0 = Y[:, [0]].copy()
                    fm = computeP(QZ, RZ, Y, fY.reshape(1, -1), 0, np.zeros((1, p)), np.arange(p), 0, p - 1,
                                  np.zeros((n, 1)), scale, shift)
                    info = I_()
                    info.flag, info.niter, info.nsimul = 0, 3, [0, 5]
                    info.g, info.ai, info.ae, = np.zeros((n, 1)), [], []
                    gx = np.arange(1., n + 1).reshape(-1, 1)
                    ceY = cY.copy() if me else np.array([])
                    gce = np.arange(1., me * n + 1).reshape(me, n) if me else np.array([])
                    M, pc, inf = hessian(None, x0, 0, 1, lm, np.eye(n), n, me, 0, x0, gx, np.array([]), gce, info,
                                         opts(hess_approx=V.model), V, fm, Y.copy(), fY.copy(), np.array([]), ceY, 1.0,
                                         scale, shift, QZ, RZ, 0, np.arange(p), 0, p - 1)
                    M = np.asarray(M, float)
                except Exception as e:
                    r.bad('Hessian raised %r' % e, 'model-raise', **det)
                    continue
                finally:
                    glob.set_nbr_slacks(0)
                    glob.set_slacks([])
                lag = fY + (np.array(lmc) @ cY if me else 0)
                ms, base, s, cond = U.fit(Y, [lag], 0, bool(shift))
                E = ms[0][2] * s * s
                r.keys.add(h((Y.tolist(), lmc, me, nsl, shift)))
                if M.shape != (n, n) or abs(M - E).max() > 1e-8 * cond * (1 + abs(lag).max()):
                    r.bad('not the Hessian of the model of the Lagrangian', 'model-value', M=M, expected=E, **det)
                if not (np.array_equal(inf.g, gx) and (not me or np.array_equal(inf.ae, gce))):
                    r.bad('gradients not recorded', 'model-grad', **det)


def do_step(r, me, rest, nit, v):
    n = 2
    M0 = sym(2, v)
    al = (-1, 0, 2)
    for sb in itertools.product(al, repeat=2):
        for dg in itertools.product((-1, .5, 3), repeat=2):
            for lmc in itertools.product((-2, .5), repeat=me):
                for nsim in (3, 4):
                    s = np.array(sb, float)
                    g0, g1 = np.array([1., -2.]), np.array([1., -2.]) + dg
                    a0 = np.array([[1., 2.], [0, -1.]])[:me]
                    a1 = np.array([[1.5, 1.], [-1, 0.]])[:me]
                    lm = np.array([7.0, -7.0] + list(lmc))
                    info = I_()
                    info.flag, info.niter, info.nsimul = 0, nit, [0, nsim]
                    info.g, info.ai, info.ae = g0.reshape(-1, 1).copy(), [], a0.copy() if me else []
                    r.evals += 1
                    det = dict(M=M0, s=s, g_old=g0, g_new=g1, a_old=a0, a_new=a1, lm=lm, restart=rest, niter=nit, nsimul=nsim)
                    try:
                        M, pc, inf = hessian(None, np.zeros((2, 1)), 0, me > 0, lm.reshape(-1, 1), M0.copy(), n, me, 0,
                                             s.reshape(-1, 1), g1.reshape(-1, 1), np.array([]), a1.copy() if me else np.array([]),
                                             info, opts(hess_approx=V.bfgs, bfgs_restart=rest), V, None, np.zeros((2, 6)),
                                             np.zeros(6), np.array([]), np.array([]), 1.0, None, 1, None, None, 0,
                                             np.arange(6), 0, 5)
                        M = np.asarray(M, float)
                    except Exception as e:
                        r.bad('Hessian raised %r' % e, 'step-raise', **det)
                        continue
                    y = g1 - g0
                    if me:
                        y = y + (a1 - a0).T @ np.array(lmc)
                    if rest and nsim % rest == 0:
                        E, sure, ok = np.eye(2), True, True
                    else:
                        E, _, sure = ref(M0, y, s, nit == 1)
                        ok = True
                        if E is None:
                            E, _, sure2 = ref(np.eye(2), y, s, nit == 1)
                            sure, ok = sure and sure2, E is not None
                            if E is None:
                                E = np.eye(2)
                    if not sure:
                        continue
                    r.keys.add(h((v, sb, dg, lmc, nsim, rest, nit, me)))
                    if ok != (inf.flag == 0):
                        r.bad('wrong status', 'step-flag', flag=inf.flag, **det)
                    if not close(M, E, 1e-6):
                        r.bad('not the BFGS matrix of the change of the Lagrangian gradient', 'step-value', got=M, expected=E, **det)
                    if not (np.array_equal(inf.g, g1.reshape(-1, 1)) and (not me or np.array_equal(inf.ae, a1))):
                        r.bad('gradients not recorded', 'step-grad', **det)


def run(case):
    r = Res()
    with drive.silent() if hasattr(drive, 'silent') else __import__('contextlib').redirect_stdout(__import__('io').StringIO()):
        {'bfgs': do_bfgs, 'spec': do_spec, 'model': do_model, 'step': do_step}[case[0]](r, *case[1:])
    r.sample = dict(case=case)
    return r

"""C23: repairing the interpolation set keeps its centre and yields a poised set near it."""
import itertools

import numpy as np
from mc.core import Res, h
from mc import unit as U
from mc.props.c22 import best
from sqpdfo.bcdfo_build_QR_of_Y import bcdfo_build_QR_of_Y_ as build
from sqpdfo.bcdfo_repair_Y import bcdfo_repair_Y_ as repair
from sqpdfo.bcdfo_evalL import bcdfo_evalL_ as evalL

ID, LEVEL = 'C23', 'exploration'
RULE = ('every ordered-first set of the stated size from a grid with near, far and nearly dependent positions x radius x threshold '
        'x kind of model is repaired and the outcome judged by exact maxima of the Lagrange polynomials; non-trivial = at least one '
        'point was replaced; distinct = (set, radius, threshold, kind)')
BOUNDS = 'n=1: p 2,3; n=2: p 3..6 from 10 positions; n=3 p 4 from 8 positions; 3 radii, thresholds 1.2 (and 3, 20); kinds 0..3 (quick: 0..2, 3 centres for p > n+1)'
ASSUMPTIONS = ['Lagrange maxima to 1 percent; the documented 20 improvement loops may end unpoised (counted)']
CHUNK = 2
EPS = 1e-3
P1 = [(0,), (1,), (-1,), (.01,), (30,), (3,)]
P2 = [(0, 0), (1, 0), (0, 1), (-1, 0), (1, 1), (.02, 0), (25, 3), (0, -30), (3, -2), (.99, .01)]
P3 = [(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1), (.01, 0, .01), (1, 1, .001), (0, 40, 0), (2, -3, 4)]
PTS = {1: P1, 2: P2, 3: P3}


def cases(tier):
    big = tier == 'thorough'
    out = []
    for n in (1, 2, 3):
        q = (n + 1) * (n + 2) // 2
        for kind in (range(4) if big or n == 1 else (0, 1, 2)):
            for p in range(n + 1, q + 1):
                if n == 3 and p not in ((4, 5, 8) if big else (4,)):
                    continue
                for D in (.1, 1, 5):
                    for thr in (1.2, 3, 20) if big or p == n + 1 else (1.2,):
                        for c in range(len(PTS[n]) if big or p <= n + 1 else 3 if n < 3 else 2):
                            out.append([n, kind, p, D, thr, c])
    return out


def run(case):
    n, kind, p, D, thr, c = case
    r = Res()
    G = PTS[n]
    rest = [k for k in range(len(G)) if k != c]
    for comb in itertools.combinations(rest, p - 1):
        one(r, np.array([G[c]] + [G[k] for k in comb], float).T, n, kind, p, D, thr, (c, comb))
        if len(r.viol) > 3:
            break
    return r


def one(r, Y, n, kind, p, D, thr, tag):
    r.evals += 1
    sh, far = 1, 10.0
    QZ, RZ, xb, sc = build(Y, kind, sh, D, 1.0, 1e15)
    Yi = Y.copy()
    QZ, RZ, Yn, rep, mi, rad, xb, sc = repair(QZ, RZ, Yi, D, far, 1e-10, thr, EPS, xb, 1, kind, 0, None, None, None, 1, sc, sh, 1.0, 1e15)
    rep = [int(v) for v in np.asarray(rep).reshape(-1)]
    mi, rad = float(np.squeeze(mi)), float(np.squeeze(rad))
    Yn = np.asarray(Yn, float)
    d = dict(Y=Y, kind=kind, Delta=D, threshold=thr, result=Yn, replaced=rep, reported=mi)
    if not np.array_equal(Yi, Y):
        r.bad('the given set was modified in place', fp='modified', **d)
    if Yn.shape != Y.shape or not np.all(np.isfinite(Yn)):
        r.bad('repaired set has the wrong shape or is not finite', fp='shape', **d)
        return
    if not np.array_equal(Yn[:, 0], Y[:, 0]) or 0 in rep:
        r.bad('the centre of the set was replaced', fp='centre', **d)
    if len(set(rep)) != len(rep):
        r.bad('an index is listed twice', fp='twice', **d)
    changed = [j for j in range(p) if not np.array_equal(Yn[:, j], Y[:, j])]
    if set(changed) - set(rep):
        r.bad('a changed point is not listed as replaced', fp='unlisted', **d)
    dist = [float(np.linalg.norm(Yn[:, j] - Yn[:, 0])) for j in range(p)]
    for j in range(p):
        if j in rep and dist[j] > D * (1 + EPS) * (1 + 1e-9):
            r.bad('a replaced point lies outside the trust region', fp='outside', j=j, **d)
        if dist[j] > far * (1 + EPS) * D * (1 + 1e-9):
            r.bad('a far point was kept', fp='far', j=j, **d)
    if abs(rad - max(dist)) > 1e-9 * (1 + max(dist)):
        r.bad('reported radius of the set is wrong', fp='radius', got=rad, want=max(dist), **d)
    if rep:
        r.keys.add(h(tag, n, kind, D, thr))
        r.count['replaced %d' % len(rep)] += 1
    elif mi != 0:
        r.bad('an improvement is reported although nothing was replaced', fp='phantom', **d)
    LM, base, s, cond = U.fit(Yn, np.eye(p), kind, True)
    if not LM or cond > 1e8:
        LM0, _, _, cond0 = U.fit(Y, np.eye(p), kind, True)
        if mi < thr and LM0 and cond0 < 1e10:
            r.bad('the repaired set does not determine a model', fp='degenerate', cond=cond, **d)
        else:
            r.count['not determined'] += 1
        return
    lam = max(best(LM[j], s, D) for j in range(1, p))
    if mi < thr and lam > thr * 1.01 + 1e-5:
        r.bad('repaired set is declared poised, but is not', fp='poised', lam=lam, **d)
    if mi >= thr:
        r.count['loop limit'] += 1
    elif rep and abs(mi - lam) > .01 * lam + 1e-5:
        r.bad('reported poisedness is not that of the repaired set', fp='lambda', lam=lam, **d)
    x = Yn[:, 0] + D * np.array([.5, -.25, .75])[:n]
    lv = np.array([U.peval(L, base, s, x) for L in LM])
    got = evalL(QZ, RZ, Yn, np.arange(p), U.col(x), xb, kind, sc, sh).reshape(-1)
    if np.max(np.abs(got - lv)) > 1e-9 * max(10, cond) * (1 + np.max(np.abs(lv))):
        r.bad('the factorisation returned is not that of the repaired set', fp='stale', got=got, want=lv, **d)
    r.sample = r.sample or d

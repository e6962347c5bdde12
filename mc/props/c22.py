"""C22: geometry of the interpolation set is measured correctly (largest Lagrange values in a ball)."""
import itertools

import numpy as np
from mc.core import Res, h
from mc import unit as U
from mc.props.c21 import grid, variants
from sqpdfo.bcdfo_build_QR_of_Y import bcdfo_build_QR_of_Y_ as build
from sqpdfo.bcdfo_find_new_yj import bcdfo_find_new_yj_ as newyj
from sqpdfo.bcdfo_poisedness_Y import bcdfo_poisedness_Y_ as poised

ID, LEVEL = 'C22', 'exploration'
RULE = ('every poised set of the stated size from an integer grid x kind of model x shift: for every index and radius the proposed '
        'replacement point and its value are compared with the exact maximum of |Lagrange polynomial| over the ball; the '
        'poisedness of the set with the maximum over all indices; non-trivial = determined set; distinct = (set, kind, shift)')
BOUNDS = 'as C21 with kinds 0..3, p up to full quadratic; 3 radii; accuracy 1e-3; quick: centres up to symmetry for n=2, n=3 subset sizes 4 and 10; n=4: variants of the standard set of 5, 9, 12, 15 points'
ASSUMPTIONS = ['maximum to the accuracy asked for (3e-3 relative + 1e-5)']
CHUNK = 2
EPS = 1e-3


def cases(tier):
    big = tier == 'thorough'
    out = []
    for n in (1, 2, 3):
        q = (n + 1) * (n + 2) // 2
        G = grid(n)
        for kind in range(4):
            for p in range(n + 1, q + 1):
                if not big and (n == 3 and p not in (4, 10) or kind == 3 and p < q):
                    continue            # kind 3 coincides with kind 2 below full size
                for sh in (1, 0) if big or n == 1 or (n == 2 and p < 5) else (1,):
                    for t in ((0, 1, 2) if sh and big else (0, 1) if sh and kind == 0 and p == q else (0,)):
                        for c in range(1 if n == 3 else len(G) if big or n == 1 else 5):
                            out.append([n, kind, p, sh, t, c])
    for kind in range(3):
        for p in (5, 9, 12, 15):
            for sh in (1, 0) if big else (1,):
                out.append([4, kind, p, sh, 0, 0 if big else 1])
    return out


TR = [[0.0, 1.0], [50.0, .01], [-3.0, 100.0]]


def best(m, s, D):
    """max |m| over |x-base|<=D for a polynomial (c,g,H) in u=(x-base)*s with c=0"""
    c, g, H = m
    a = -U.tr_global(g, H, D * s)[0]
    b = -U.tr_global(-g, -H, D * s)[0]
    return max(a, b)


def run(case):
    n, kind, p, sh, t, c = case
    r = Res()
    off, un = TR[t]
    G = grid(n)
    if n == 3:
        G = G[:10 if p < 10 else 11]
    rest = [k for k in range(len(G)) if k != c]
    eps = EPS
    if n > 3:
        S = list(variants(n, p, False))[::1 + 2 * c]
    for comb in itertools.combinations(rest, p - 1) if n < 4 else range(len(S)):
        Y = np.array([G[c]] + [G[k] for k in comb] if n < 4 else S[comb], float).T * un + off
        LM, base, s, cond = U.fit(Y, np.eye(p), kind, bool(sh))
        if not LM or cond > 1e6:
            r.count['degenerate'] += 1
            continue
        if not sh:
            LM = [(0.0, m[1] + m[2].dot(Y[:, 0]), m[2]) for m in LM]
        r.evals += 1
        r.keys.add(h(n, kind, sh, t, c, comb))
        QZ, RZ, xb, sc = build(Y, kind, sh, 1.0, 1.0, 1e15)
        Y0 = Y.copy()
        d = dict(Y=Y, kind=kind, shift=sh)
        rad = max(np.linalg.norm(Y[:, j] - Y[:, 0]) for j in range(p))
        lam, yr = poised(QZ, RZ, Y, eps, xb, 1, kind, 0, None, None, None, 1, sc, sh)
        lam, yr = float(np.squeeze(lam)), float(np.squeeze(yr))
        if abs(yr - rad) > 1e-9 * rad:
            r.bad('reported radius of the set is wrong', fp='radius', got=yr, want=rad, **d)
        want = max(best(LM[j], s, rad) for j in range(1, p))
        if abs(lam - want) > 3 * eps * want + 1e-5:
            r.bad('poisedness of the set is wrong', fp='poisedness', got=lam, want=want, **d)
        for j in range(p):
            for D in (.3 * un, un, 4 * un):
                y, imp, msg = newyj(QZ, RZ, Y, j, D, eps, xb, 1, kind, sc, sh)
                imp = float(np.squeeze(imp))
                y = np.asarray(y, float).reshape(-1)
                if j == 0:
                    if imp != 0:
                        r.bad('a replacement for the current best point is proposed', fp='centre', **d)
                    continue
                w = best(LM[j], s, D)
                dd = dict(d, j=j, Delta=D, y=y, reported=imp, maximum=w)
                if np.linalg.norm(y - Y[:, 0]) > D * (1 + eps) * (1 + 1e-9):
                    r.bad('proposed point lies outside the ball', fp='ball', **dd)
                at = abs(U.peval(LM[j], Y[:, 0], s, y))
                if abs(at - imp) > 1e-6 * cond * (1e-3 + at):
                    r.bad('reported value is not the Lagrange value of the proposed point', fp='value', at=at, **dd)
                if abs(imp - w) > 3 * eps * w + 1e-5:
                    r.bad('proposed point does not maximise the Lagrange polynomial', fp='maximum', **dd)
                if w > 1:
                    r.count['above one'] += 1
        if not np.array_equal(Y, Y0):
            r.bad('the point set was modified', fp='modified', **d)
        if len(r.viol) > 3:
            r.viol = r.viol[:4]
            return r
    r.sample = dict(case=case, sets=r.evals)
    return r

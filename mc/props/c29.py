"""C29: choosing the best interpolation point: exhaustive over value patterns, bounds, dummies, slacks and penalty."""
import itertools

import numpy as np
from mc.core import Res, h
from mc import unit as U
from mc.drive import fresh
import sqpdfo.sqpdfo_global_variables as glob
from sqpdfo.bcdfo_build_QR_of_Y import bcdfo_build_QR_of_Y_ as build
from sqpdfo.bcdfo_evalP import bcdfo_evalP_ as evalP
from sqpdfo.bcdfo_computeP import bcdfo_computeP_ as computeP
from sqpdfo.sqpdfo_find_smallf import sqpdfo_find_smallf_ as smallf

ID, LEVEL = 'C29', 'exploration'
RULE = ('for every point set x pattern of objective values x pattern of constraint values x penalty x bounds x dummy points x slacks '
        'the real selection is executed; the chosen centre must be the merit-best admissible point and every array, the index list, '
        'the factorisation and the reported values must be the input with exactly that exchange; distinct = all combinations in '
        'which the centre changes')
BOUNDS = ('n<=2; 3-6 points; objective values from {-1,0,2}, constraint values from {0,1,-2} (1-2 constraints, 0-2 slacks); penalties '
          '{0,.5,1,10}; 6 bound boxes (different per variable); every dummy subset of size <=2; 4 model kinds')
ASSUMPTIONS = ['the current centre lies inside the bounds and is no dummy point', 'ties: the centre only moves to a strictly better point']
CHUNK = 1
SETS = {1: [[(0,), (1,), (-2,)], [(1,), (0,)]],
        2: [[(0, 0), (1, 0), (0, 1)], [(1, 0), (0, 0), (0, -1), (2, 1)], [(0, 0), (1, 0), (0, 1), (-1, 0), (0, -1), (1, 1)]]}
BOX = [((-9, 9), (-9, 9)), ((-1, 1), (-1, 1)), ((0, 1), (0, 1)), ((-.5, 1), (-7, -.0)), ((-.5, 5), (0, .5)), ((0, 9), (-9, 0))]  # (lo,hi) per variable


class C:
    unused, inY, dummy, nodummy = 0, 1, 1, 0


class Info:
    pass


def cases(tier):
    out = []
    for n in SETS:
        for k in range(len(SETS[n])):
            for kind in range(4):
                for m, ns in ((0, 0), (1, 0), (1, 1), (2, 1), (2, 2)):
                    for box in range(len(BOX)):
                        if any(not BOX[box][i][0] <= v <= BOX[box][i][1] for i, v in enumerate(SETS[n][k][0])):
                            continue
                        out.append([n, k, kind, m, ns, box, tier == 'thorough'])
    return out


def run(case):
    n, k, kind, m, ns, box, big = case
    r = Res()
    P = SETS[n][k]
    p = len(P)
    Y = np.array(P, float).T.reshape(n, p)
    fresh()
    xl = np.array([[float(b[0])] for b in BOX[box][:n]])
    xu = np.array([[float(b[1])] for b in BOX[box][:n]])
    inside = [all(lo <= v <= hi for v, (lo, hi) in zip(q, BOX[box])) for q in P]
    QZ, RZ, xb, sc = build(Y, kind, 1, 1.0, 1.0, 1e15)
    idx = np.array([3 * i + 1 for i in range(p)])
    total = 3 * p + 2
    fvals = list(itertools.product((-1., 0., 2.), repeat=p)) if p <= 4 else [
        tuple(2. if i not in (a, b) else (-1. if i == a else 0.) for i in range(p)) for a in range(p) for b in range(p)]
    if m == 0:
        cpat = [None]
    else:
        cpat = [np.zeros((m, p))]
        for j in range(p):
            for v in (1., -2.):
                if not big and (j + (v > 0) + p) % 2:
                    continue
                A = np.ones((m, p)) * v
                A[:, j] = 0
                cpat.append(A)
                B = np.zeros((m, p))
                B[-1, j] = v
                cpat.append(B)
    slacks = [None] if not ns else [np.full((ns, 1), -1.5)] + ([np.zeros((ns, 1)), np.ones((ns, 1))] if big or p == 2 else [])
    dummies = [()] + [(i,) for i in range(1, p)] + (list(itertools.combinations(range(1, p), 2)) if big or p <= 3 else [])
    if not big and len(fvals) > 27:
        fvals = fvals[::5]
    if not big and p > 3:
        dummies = [(), (1,), (1, p - 1)]
    done = set()
    for sig in ((0., .5, 1., 10.) if big else (.5, 10.)) if m else (1.,):
        for sl in slacks:
            glob.set_nbr_slacks(ns)
            glob.set_slacks(sl if ns else [])
            for cy in cpat:
                for dm in dummies:
                    for fv in fvals:
                        one(r, case, Y, QZ, RZ, sc, idx, total, kind, fv, cy, sig, sl, ns, dm, inside, xl, xu, done)
                    if len(r.viol) > 5:
                        return r
    r.sample = dict(case=case)
    return r


def one(r, case, Y, QZ, RZ, sc, idx, total, kind, fv, cy, sig, sl, ns, dm, inside, xl, xu, done):
    n, p = Y.shape
    m = 0 if cy is None else cy.shape[0]
    fY = np.array(fv)
    ceY = np.array([]) if cy is None else cy.copy()
    ds = np.zeros(total)
    for i in dm:
        ds[idx[i]] = 1
    info = Info()
    info.f, info.ce, info.ci = 99., np.full((m, 1), 99.), np.array([])
    x0 = Y[:, [0]].copy()
    r.evals += 1
    x, fx, QZ2, RZ2, Y2, fY2, ciY2, ceY2, ind2, ib, sc2, info2 = smallf(
        C, QZ, RZ, Y.copy(), fY.copy(), np.array([]), ceY.copy(), idx.copy(), idx[0], p, np.arange(n), x0, xl, xu, fv[0], ds, kind, sc, 1,
        1.0, 1.0, 1e15, sig, info)
    merit = []
    for i in range(p):
        v = fv[i]
        if m and np.any(cy):
            s = cy[:, i].copy()
            if ns:
                s[m - ns:] -= (np.asarray(sl).reshape(-1)) ** 2
            v += sig * float(np.sqrt(s.dot(s)))
        merit.append(v)
    ok = [i for i in range(p) if inside[i] and i not in dm]
    best = min(merit[i] for i in ok)
    d = dict(values=fv, constraints=cy, penalty=sig, slacks=sl, dummies=dm)
    tie = 1e-9 * (1 + abs(best))
    j = [i for i in range(p) if np.array_equal(Y2[:, 0], Y[:, i])]
    if not j:
        r.bad('the centre is no longer one of the points', fp='centre', Y=Y2, **d)
        return
    j = j[0]
    if j not in ok:
        r.bad('the centre is a dummy point or outside the bounds', fp='inadmissible', centre=j, **d)
        return
    if merit[j] > best + tie:
        r.bad('a better admissible point exists', fp='better', centre=j, merit=merit, **d)
        return
    if j and merit[0] <= best:
        r.bad('the centre moved without improvement', fp='tie', centre=j, merit=merit, **d)
        return
    perm = list(range(p))
    perm[0], perm[j] = perm[j], perm[0]
    if not np.array_equal(Y2, Y[:, perm]) or not np.array_equal(np.asarray(fY2).reshape(-1), fY[perm]) or not np.array_equal(
            np.asarray(ind2).reshape(-1), idx[perm]) or (m and not np.array_equal(ceY2, cy[:, perm])):
        r.bad('points, values and indices are not the input with the centre exchanged', fp='exchange', centre=j, Y=Y2, fY=fY2, ind=ind2,
              ceY=ceY2, **d)
        return
    if int(ib) != idx[j]:
        r.bad('the index of the best point is wrong', fp='index', got=int(ib), want=int(idx[j]), **d)
    if float(info2.f) != fv[j] or (m and not np.array_equal(np.asarray(info2.ce).reshape(-1), cy[:, j])):
        r.bad('reported values are not those of the centre', fp='info', f=info2.f, ce=info2.ce, **d)
    if j and (float(fx) != fv[j] or not np.array_equal(np.asarray(x).reshape(-1), Y[:, j])):
        r.bad('x or its value is not that of the centre', fp='x', x=x, fx=fx, **d)
    if j:
        r.keys.add(h(case, fv, None if cy is None else cy.tolist(), sig, None if sl is None else np.asarray(sl).tolist(), dm))
        if j not in done and (kind != 3 or p <= (n + 1) * (n + 2) // 2):
            done.add(j)
            Pm = computeP(QZ2, RZ2, Y2, np.asarray(fY2).reshape(1, -1), kind, np.zeros((1, (n + 1) * (n + 2) // 2)), ind2, 0, 0,
                          np.zeros((n, 1)), sc2, 1, 1.0)
            for i in range(p):
                v = float(np.asarray(evalP(Pm, Y2[:, [i]], Y2[:, [0]], sc2, 1)).reshape(-1)[0])
                if abs(v - np.asarray(fY2).reshape(-1)[i]) > 1e-8:
                    r.bad('the factorisation does not belong to the exchanged set', fp='qr', point=i, value=v, **d)
                    break

"""C21: interpolation models and Lagrange polynomials are those of the point set."""
import itertools

import numpy as np
from mc.core import Res, h
from mc import unit as U
from sqpdfo.bcdfo_build_QR_of_Y import bcdfo_build_QR_of_Y_ as build
from sqpdfo.bcdfo_computeP import bcdfo_computeP_ as computeP
from sqpdfo.bcdfo_computeLj import bcdfo_computeLj_ as computeLj
from sqpdfo.bcdfo_evalL import bcdfo_evalL_ as evalL
from sqpdfo.bcdfo_evalP import bcdfo_evalP_ as evalP
from sqpdfo.bcdfo_gradP import bcdfo_gradP_ as gradP
from sqpdfo.bcdfo_hessP import bcdfo_hessP_ as hessP

ID, LEVEL = 'C21', 'exploration'
RULE = ('every point set of the stated size from an integer grid, every kind of model, with and without shifting, at several '
        'offsets and units: model values, gradients, Hessians and all Lagrange polynomials compared with an independent fit '
        'in exact monomials; non-trivial = point set determines the model (condition < 1e7); distinct = (set, kind, shift)')
BOUNDS = ('n=1: all sets of 2,3 (4,5 regression) points of {-2..2}; n=2: all sets of 3..6 (7,8 regression) points of a 3x3 grid, '
          'every choice of centre; n=3: centre 0, all subsets of 9 (thorough 10) directions, 4..10 points; n=4,5 (thorough 6): the standard set of p points '
          'in both orders of the variables with every single exchange of a point for each of 2 others and every swap of neighbours; '
          '3 (thorough 5) offset/unit pairs')
ASSUMPTIONS = ['reference fit uses numpy least squares / null-space elimination; agreement to 1e-8 x condition']
CHUNK = 2

TR = [[0.0, 1.0], [100.0, .01], [-7.0, 1000.0], [1e4, 1.0], [.1, 1e-5]]


def grid(n):
    if n == 1:
        return [(v,) for v in (-2, -1, 0, 1, 2)]
    if n == 2:
        return [(a, b) for a in (-1, 0, 1) for b in (-1, 0, 1)]
    if n > 3:
        return [(0,) * n] + standard(n)
    e = [(1, 0, 0), (0, 1, 0), (0, 0, 1), (-1, 0, 0), (0, -1, 0), (0, 0, -1), (1, 1, 0), (1, 0, 1), (0, 1, 1), (1, -1, 2)]
    return [(0, 0, 0)] + e


def standard(n):
    """directions in the order of the monomials: +e_i, -e_i, then pairs by subdiagonal"""
    def e(*ix):
        return tuple(sum((1 if a > 0 else -1) for a in ix if abs(a) == k + 1) for k in range(n))
    return [e(i + 1) for i in range(n)] + [e(-i - 1) for i in range(n)] + [e(k + i + 1, i + 1) for k in range(1, n) for i in range(n - k)]


def variants(n, p, big):
    base = [(0,) * n] + standard(n)[:p - 1]
    alt = [tuple((2, -1, 1, 0, 1, 2)[:n]), tuple((0, 1, -1, 2, -2, 1)[:n])]
    for k in range(p - len(base)):
        base.append(tuple(3 * (i == k) - 1 for i in range(n)))
    for S in (base, [x[::-1] for x in base]):
        yield S
        for j in range(1, p):
            for a in alt if big else alt[:1 + (p <= 2 * n)]:
                yield S[:j] + [a] + S[j + 1:]
            if j > 1:
                yield S[:j - 1] + [S[j], S[j - 1]] + S[j + 1:]


def sizes(n, big):
    q = (n + 1) * (n + 2) // 2
    return range(n + 1, q + 1) if n == 4 or big and n == 5 else sorted({n + 1, 2 * n - 1, 2 * n + 1, 2 * n + 3, 3 * n, q - 2, q})


def cases(tier):
    big = tier == 'thorough'
    out = []
    for n in (4, 5, 6) if big else (4, 5):
        q = (n + 1) * (n + 2) // 2
        for kind in range(4):
            for p in list(sizes(n, big)) + [q + 1, q + 2] * (kind == 3):
                for sh in (0, 1) if n == 4 or big else (1,):
                    for t in ((0, 1, 2) if sh and big else (0,)):
                        out.append([n, kind, p, sh, t, 0, 11 if big else 10])
    for n in (1, 2, 3):
        q = (n + 1) * (n + 2) // 2
        G = grid(n)
        for kind in range(4):
            for p in range(n + 1, q + 1 + (2 if kind == 3 else 0)):
                if p > len(G):
                    continue
                for sh in (0, 1):
                    for t in range(len(TR) if big else 3):
                        if not sh and t:
                            continue
                        for c in range(len(G) if n < 3 else 1):
                            if n == 3 and not big and t and p not in (4, 7, 10):
                                continue
                            out.append([n, kind, p, sh, t, c, 11 if big else 10])
    return out


def run(case):
    n, kind, p, sh, t, c, lim = case
    r = Res()
    off, un = TR[t]
    if n > 3:
        for k, S in enumerate(variants(n, p, lim > 10)):
            pts = np.array(S, float).T
            one(r, pts * un + off, kind, sh, n, p, (n + 1) * (n + 2) // 2, un, (t, k, p), pts)
            if len(r.viol) > 3:
                break
        return r
    G = grid(n)
    if n == 3:
        G = G[:lim + 1 if p == 10 else lim]
    rest = [k for k in range(len(G)) if k != c]
    q = (n + 1) * (n + 2) // 2
    for comb in itertools.combinations(rest, p - 1):
        pts = np.array([G[c]] + [G[k] for k in comb], float).T
        Y = pts * un + off
        one(r, Y, kind, sh, n, p, q, un, (t, c, comb), pts)
        if len(r.viol) > 3:
            break
    return r


def one(r, Y, kind, sh, n, p, q, un, tag, pts):
    r.evals += 1
    k = np.arange(p)
    F = np.vstack([((3 * k * k + 1) % 7) - 3.0, 1.0 + pts[0] ** 2 - 2 * pts[-1] + 3 * pts[0] * pts[-1]])
    Y0, F0 = Y.copy(), F.copy()
    M, base, s, cond = U.fit(Y, F, kind, bool(sh))
    QZ, RZ, xb, sc = build(Y, kind, sh, 1.0, 1.0, 1e15)
    P = computeP(QZ, RZ, Y, F, kind, np.zeros((2, q)), k, 0, 0, np.zeros((2, 1)), sc, sh, 1.0)
    Ls = [computeLj(QZ, RZ, j, Y, kind, sc, sh) for j in range(p)]
    d = dict(Y=Y, kind=kind, shift=sh)
    if not (np.all(np.isfinite(P)) and all(np.all(np.isfinite(L)) for L in Ls)):
        r.bad('a model or Lagrange polynomial of this set is not finite', fp='finite', **d)
        return
    X = [Y[:, j] for j in range(p)] + [Y[:, 0] + un * np.array([.5, -.25, .75, -.4, .3, -.6])[:n], Y[:, 0] - un * np.array([2, 1.5, 1, -1, .5, 1])[:n]]
    V = [evalL(QZ, RZ, Y, k, U.col(x), xb, kind, sc, sh).reshape(-1) for x in X]
    if not (np.array_equal(Y, Y0) and np.array_equal(F, F0)):
        r.bad('the point set or the values were modified', fp='modified', **d)
    if not (M and cond < 1e7):
        r.count['degenerate'] += 1
        return
    r.keys.add(h(kind, sh, n, tag))
    r.count['kind%d' % kind] += 1
    LM, _, _, _ = U.fit(Y, np.eye(p), kind, bool(sh))
    tol = 1e-9 * max(10.0, cond)
    for ix, x in enumerate(X):
        xc = U.col(x)
        lv = np.array([U.peval(L, base, s, x) for L in LM])
        big = 1 + np.max(np.abs(lv))
        if np.max(np.abs(V[ix] - lv)) > tol * big:
            r.bad('value of a Lagrange polynomial is wrong', fp='evalL', at=x, got=V[ix], want=lv, **d)
            return
        half = k[::2]
        vh = evalL(QZ, RZ, Y, half, xc, xb, kind, sc, sh).reshape(-1)
        if np.max(np.abs(vh[half] - lv[half])) > tol * big:
            r.bad('value of a Lagrange polynomial depends on which ones are asked for', fp='evalLsub', at=x, got=vh, want=lv, **d)
            return
        for j, L in enumerate(Ls):
            if abs(float(np.squeeze(evalP(L, xc, xb, sc, sh))) - lv[j]) > tol * big:
                r.bad('coefficients of a Lagrange polynomial are wrong', fp='computeLj', at=x, j=j, want=lv[j], **d)
                return
        pv = np.asarray(evalP(P, xc, xb, sc, sh)).reshape(-1)
        for i, m in enumerate(M):
            want = U.peval(m, base, s, x)
            u = (x - base) * s
            if abs(pv[i] - want) > tol * (big + abs(want)) * 8:
                r.bad('model value is wrong', fp='evalP', at=x, got=pv[i], want=want, **d)
                return
            g = np.asarray(gradP(P[[i], :], xc, xb, sc, sh)).reshape(-1)
            wg = s * (m[1] + m[2].dot(u))
            H = np.asarray(hessP(P[[i], :], xc, xb, sc, sh))
            wh = s * s * m[2]
            mag = 8 * tol * (big + np.max(np.abs(m[1])) + np.max(np.abs(m[2])) * (1 + np.max(np.abs(u))))
            if g.shape != (n,) or np.max(np.abs(g - wg)) > mag * s:
                r.bad('model gradient is wrong', fp='gradP', at=x, got=g, want=wg, **d)
                return
            if H.shape != (n, n) or np.max(np.abs(H - wh)) > mag * s * s:
                r.bad('model Hessian is wrong', fp='hessP', at=x, got=H, want=wh, **d)
                return
    if r.sample is None:
        r.sample = dict(Y=Y, kind=kind, shift=sh, condition=cond, model=P)

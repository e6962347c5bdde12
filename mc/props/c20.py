"""C20: explicit-state exploration of the interpolation-set operations against a list model."""
import itertools

import numpy as np
from mc.core import Res, h
from mc import unit as U
from mc.props.c21 import grid
from sqpdfo.bcdfo_build_QR_of_Y import bcdfo_build_QR_of_Y_ as build
from sqpdfo.bcdfo_augment_Y import bcdfo_augment_Y_ as augment
from sqpdfo.bcdfo_replace_in_Y import bcdfo_replace_in_Y_ as replace
from sqpdfo.bcdfo_include_in_Y import bcdfo_include_in_Y_ as include
from sqpdfo.sqpdfo_swap_in_Y import sqpdfo_swap_in_Y_ as swap
from sqpdfo.bcdfo_evalL import bcdfo_evalL_ as evalL

ID, LEVEL = 'C20', 'model_checking'
RULE = ('model state = ordered list of point identities; all sequences of augment / replace / swap / include (3 criteria, successful or '
        'not, 2 thresholds, 2 choice sets) over a grid from every listed start set are explored breadth first to the depth; every '
        'transition is executed by the real code on the objects of its predecessor and compared with the model')
BOUNDS = ('n=1 depth 3 (thorough 4), n=2 depth 2 from 3..6 points (thorough 3), n=3 depth 1 (thorough 2); sub-basis, Frobenius, l2 and '
          'regression models, shifted and unshifted')
ASSUMPTIONS = ['criteria are judged only where the Lagrange values are not within 1e-6 of a tie or of the threshold']
CHUNK = 1
G2 = grid(2)


def pts(n):
    if n == 1:
        return [(-2,), (-1,), (0,), (1,), (2,)]
    if n == 2:
        return [(0, 0), (1, 0), (0, 1), (-1, 0), (0, -1), (1, 1), (3, -2), (.1, 0)]
    return [(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1), (-1, 0, 0), (0, -1, 0), (1, 1, 0), (0, 2, 1)]


def starts(n):
    if n == 1:
        return [[2, 3], [2, 1], [3, 0, 4], [0, 4]]
    if n == 2:
        return [[0, 1, 2], [1, 0, 2, 3], [0, 1, 2, 3, 4], [5, 0, 1, 2, 3, 4], [0, 6, 7], [2, 0, 6, 5]]
    return [[0, 1, 2, 3], [1, 0, 2, 3, 4, 5]]


def cases(tier):
    big = tier == 'thorough'
    out = []
    for n in (1, 2, 3):
        depth = {1: 4 if big else 3, 2: 3 if big else 2, 3: 2 if big else 1}[n]
        for s in starts(n):
            for kind in range(4):
                for sh in (1, 0):
                    if n == 2 and not big and not sh and len(s) > 3:
                        continue
                    ops = actions(n, tuple(s), kind)
                    step = max(1, len(ops) // 6) if depth > 2 or (n == 2) else len(ops)
                    for lo in range(0, len(ops), step):
                        out.append([n, s, kind, sh, depth, lo, min(len(ops), lo + step)])
    return out


def actions(n, s, kind):
    P = pts(n)
    q = (n + 1) * (n + 2) // 2
    p = len(s)
    out = []
    free = [k for k in range(len(P)) if k not in s]
    for k in free:
        if p < q + (1 if kind == 3 else 0):
            out.append(('aug', k))
    if p == q and free and kind != 3:
        out.append(('aug', free[0]))            # must be ignored
    for j in range(p):
        for k in free[:3]:
            out.append(('rep', j, k))
    for i, j in itertools.combinations(range(p), 2):
        out.append(('swap', i, j) if (i + j) % 2 else ('swap', j, i))
    out.append(('swap', 0, 0))
    for k in free:
        for crit in ('weighted', 'standard', 'distance'):
            for succ in (0, 1):
                out.append(('inc', k, crit, succ, .05, 1))
            out.append(('inc', k, crit, 1, .8, 1))
        out.append(('inc', k, 'weighted', 1, .05, 2))
        out.append(('inc', k, 'weighted', 0, .05, 3))
        out.append(('inc', k, 'standard', 0, 50.0, 1))
    return out


class Impl:
    pass


def fresh_state(n, s, kind, sh):
    P = pts(n)
    o = Impl()
    o.Y = np.array([P[k] for k in s], float).T.reshape(n, len(s))
    o.QZ, o.RZ, o.xb, o.sc = build(o.Y, kind, sh, 1.0, 1.0, 1e15)
    return o


def val(k):
    return 10.0 + 3 * k


def fingerprint(o):
    return [np.array(a, float).copy() for a in (o.Y, o.QZ, o.RZ, o.xb, o.sc)]


def apply(r, o, s, op, n, kind, sh, d):
    """execute one transition on the implementation; returns (new impl, new model state) or None"""
    P = pts(n)
    before = fingerprint(o)
    b = Impl()
    s2 = list(s)
    x = U.col(P[op[1]]) if op[0] in ('aug', 'inc') else None
    if op[0] == 'aug':
        p1, b.QZ, b.RZ, b.Y, b.xb, b.sc = augment(x, o.Y, kind, sh, 1.0, 1.0, 1e15)
        q = (n + 1) * (n + 2) // 2
        if len(s) < q or kind == 3:
            s2.append(op[1])
        if int(p1) != len(s2):
            r.bad('wrong number of points reported after adding one', fp='count', got=p1, **d)
    elif op[0] == 'rep':
        b.QZ, b.RZ, b.Y, b.xb, b.sc = replace(o.QZ, o.RZ, U.col(P[op[2]]), o.Y, op[1], o.xb, kind, o.sc, sh, 1.0, 1.0, 1e15)
        s2[op[1]] = op[2]
    elif op[0] == 'swap':
        ids = np.array(s)
        f = np.array([val(k) for k in s])
        ci = np.array([[val(k) + 1 for k in s], [-val(k) for k in s]])
        ce = np.array([[val(k) * 2 for k in s]])
        none = np.array([])
        for cc, ee in ((ci, ce), (none, ce), (ci, none)):
            out = swap(op[1], op[2], o.QZ, o.RZ, o.Y, ids, f, cc, ee, o.xb, kind, o.sc, sh, 1.0, 1.0, 1e15)
            b.QZ, b.RZ, b.Y, nid, nf, nci, nce, b.xb, b.sc = out
            s2 = list(s)
            s2[op[1]], s2[op[2]] = s2[op[2]], s2[op[1]]
            ok = [int(v) for v in nid] == s2 and list(nf) == [val(k) for k in s2]
            if cc.size:
                ok = ok and np.array_equal(nci, np.array([[val(k) + 1 for k in s2], [-val(k) for k in s2]]))
            if ee.size:
                ok = ok and np.array_equal(nce, np.array([[val(k) * 2 for k in s2]]))
            if not ok:
                r.bad('values no longer belong to their points after an exchange', fp='values', ids=nid, f=nf, ci=nci, ce=nce, **d)
            if not (np.array_equal(ids, s) and list(f) == [val(k) for k in s]):
                r.bad('the lists given were modified', fp='modified', **d)
    else:
        _, k, crit, succ, thr, how = op
        p = len(s)
        choice = np.arange(1, p) if how == 1 else np.arange(1, p, 2) if how == 2 else np.arange(0)
        b.QZ, b.RZ, b.Y, pos, b.xb, b.sc = include(x, o.QZ, o.RZ, o.Y, choice, thr, crit, o.xb, kind, succ, o.sc, sh, 1.0, 1.0, 1e15)
        pos = int(pos)
        Y = np.array([P[m] for m in s], float).T.reshape(n, p)
        LM, base, sc, cond = U.fit(Y, np.eye(p), kind, bool(sh))
        xv = x.reshape(-1)
        if pos != -1 and pos not in choice:
            r.bad('a point outside the choice was replaced', fp='choice', pos=pos, **d)
            return None
        if LM and cond < 1e6:
            L = np.abs([U.peval(m, base, sc, xv) for m in LM])
            cv = {}
            for j in choice:
                if L[j] > thr + 1e-6:
                    dist = np.linalg.norm(Y[:, j] - (xv if succ else Y[:, 0]))
                    cv[int(j)] = {'weighted': dist ** 2 * L[j], 'standard': L[j], 'distance': dist}[crit]
            near = any(abs(L[j] - thr) <= 1e-6 for j in choice)
            r.count['judged'] += 1
            if not near:
                best = max(cv.values()) if cv else 0
                if pos == -1 and best > 1e-9:
                    r.bad('a point that may enter the set was not taken', fp='skipped', L=L, **d)
                if pos != -1 and (pos not in cv or cv[pos] < best * (1 - 1e-6)):
                    r.bad('the replaced point is not the one the criterion asks for', fp='criterion', pos=pos, cv=cv, L=L, **d)
        if pos != -1:
            s2[pos] = k
            r.count['included'] += 1
        else:
            r.count['refused'] += 1
    after = fingerprint(o)
    if any(not np.array_equal(u, v) for u, v in zip(before, after)):
        r.bad('the operation modified the set it was given', fp='modified', **d)
    return b, tuple(s2)


def check_state(r, o, s, n, kind, sh, d):
    P = pts(n)
    Y = np.array([P[k] for k in s], float).T.reshape(n, len(s))
    if not np.array_equal(np.asarray(o.Y, float), Y):
        r.bad('the set differs from the expected one', fp='set', got=o.Y, want=Y, **d)
        return False
    if sh and not np.array_equal(np.asarray(o.xb, float).reshape(-1), Y[:, 0]):
        r.bad('base point is not the first point of the set', fp='base', got=o.xb, **d)
    p = len(s)
    x = Y[:, 0] + np.array([.5, -.25, .75])[:n]
    got = evalL(o.QZ, o.RZ, o.Y, np.arange(p), U.col(x), o.xb, kind, o.sc, sh).reshape(-1)
    if not np.all(np.isfinite(got)):
        r.bad('Lagrange values of the set are not finite', fp='finite', **d)
        return False
    LM, base, sc, cond = U.fit(Y, np.eye(p), kind, bool(sh))
    if LM and cond < 1e7:
        lv = np.array([U.peval(m, base, sc, x) for m in LM])
        if np.max(np.abs(got - lv)) > 1e-9 * max(10, cond) * (1 + np.max(np.abs(lv))):
            r.bad('the factorisation does not belong to the set', fp='stale', got=got, want=lv, **d)
            return False
    else:
        r.count['degenerate states'] += 1
    return True


def run(case):
    n, s0, kind, sh, depth, lo, hi = case
    r = Res()
    s0 = tuple(s0)
    root = fresh_state(n, s0, kind, sh)
    check_state(r, root, s0, n, kind, sh, dict(path='start', set=s0))
    seen = {s0}
    r.states.add(h(n, kind, sh, s0))
    level = [(root, s0, ())]
    for dep in range(depth):
        nxt = []
        for o, s, path in level:
            ops = actions(n, s, kind)
            if dep == 0:
                ops = ops[lo:hi]
            for op in ops:
                d = dict(start=s0, path=path, op=op, kind=kind, shift=sh)
                res = apply(r, o, s, op, n, kind, sh, d)
                r.trans += 1
                r.traces += 1
                if res is None or len(r.viol) > 3:
                    return r
                b, s2 = res
                if s2 in seen and s2 == s:
                    if not np.array_equal(np.asarray(b.Y, float), np.asarray(o.Y, float)):
                        r.bad('the set changed although the operation was refused', fp='set', **d)
                    continue
                if not check_state(r, b, s2, n, kind, sh, d):
                    return r
                r.states.add(h(n, kind, sh, s2))
                if s2 not in seen:
                    seen.add(s2)
                    nxt.append((b, s2, path + (op,)))
        level = nxt
    r.sample = dict(case=case, states=len(seen), transitions=r.trans)
    return r

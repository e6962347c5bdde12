"""C25: truncated conjugate gradients follow Steihaug's path to its end."""
import itertools

import numpy as np
from mc.core import Res, h
from mc import unit as U
from mc.props.c24 import sym
from sqpdfo.sqpdfo_truncated_cg import sqpdfo_truncated_cg_ as tcg

ID, LEVEL = 'C25', 'exploration'
RULE = ('every symmetric matrix and right-hand side with entries from the alphabet x radius x iteration limit x tolerance: step, '
        'flag, residual and iteration count compared with Steihaug\'s path computed from explicit Krylov subspaces; '
        'non-trivial = right-hand side not zero; distinct = problem data')
BOUNDS = ('n=1,2 entries {-2,-1,0,1,3} x {-3,-1,0,.1,2}, n=3 entries {-1,0,2} (thorough {-2,-1,0,1,3}) x {-1,0,2}; 5 radii; '
          'n=4 tridiagonal with diagonal {1,2,7,-1}, n=5 {1,7,-1}, n=6 {1,4} (thorough {1,7,-1}) and neighbours {0,.5}, four right-hand sides; '
          'iteration limits 1..n and 20n; tolerances 1e-10 and .5; units 1, 1e6, 1e-6')
ASSUMPTIONS = ['flags are judged where curvature, residual and step length are not within 1e-8 (relative) of a switch']
CHUNK = 2


def band(d, off):
    return [d[i] if i == j else off if j == i - 1 else 0 for i in range(len(d)) for j in range(i + 1)]


def rhs(n):
    return [[1] * n, [1] + [0] * (n - 1), [(-1) ** i * (i + 1) for i in range(n)], [1, 2, -1, 0, 3, .5][:n]]


def cases(tier):
    big = tier == 'thorough'
    out = []
    va, ga = (-2, -1, 0, 1, 3), (-3, -1, 0, .1, 2)
    for v in va:
        out.append([1, [v], ga, 1])
    for v in itertools.product(va, repeat=3):
        for u in (1, 1e6, 1e-6):
            out.append([2, v, ga, u])
    for v in itertools.product(va if big else (-1, 0, 2), repeat=6):
        for u in (1, 1e-6) if big else (1,):
            out.append([3, v, (-1, 0, 2), u])
    for n in (4, 5, 6):
        for d in itertools.product((1, 2, 7, -1) if n == 4 else (1, 7, -1) if big or n == 5 else (1, 4), repeat=n):
            for off in ((0, .5, -1) if big else (0, .5)):
                out.append([n, band(d, off), rhs(n), 1])
    if big:
        for v in itertools.product((-1, 0, 2), repeat=6):
            out.append([4, list(v) + [1, 0, -1, 3], (0, 1), 1])
            out.append([4, list(v) + [0, 1, 1, 5], (0, 1), 1])
    return out


def steihaug(A, b, delta, maxit, tol):
    """(x, flag, number of iterations, sure?) from explicit Krylov minimisers."""
    n = len(b)
    x = np.zeros(n)
    sure = True
    sA = max(abs(A).max(), 1e-300)
    K = np.zeros((n, 0))
    for k in range(1, n + 3):
        r = b - A @ x
        nr = np.linalg.norm(r)
        if abs(nr - tol) < 1e-8 * (np.linalg.norm(b) + sA * np.linalg.norm(x)):
            sure = False
        if nr > tol and nr < 1e-7 * np.linalg.norm(b):
            sure = False        # rounding decides
        if nr <= tol:
            return x, 0, k, sure, nr
        if k > maxit:
            return x, -1, maxit, sure, nr
        if K.shape[1] == n:
            return x, None, k, False, nr
        # direction: residual made A-conjugate to the Krylov space so far
        d = r.copy()
        if K.shape[1]:
            G = K.T @ A @ K
            d = r - K @ np.linalg.solve(G, K.T @ (A @ r))
        nd = np.linalg.norm(d)
        c = d @ A @ d / (nd * nd)
        if abs(c) < 1e-8 * sA:
            if not (c == 0 and K.shape[1] == 0 and (2 * A == np.round(2 * A)).all()):     # exact arithmetic
                sure = False
        if c <= 0:
            a, bb, cc = d @ d, x @ d, x @ x - delta ** 2
            t = (-bb + np.sqrt(bb * bb - a * cc)) / a
            return x + t * d, 2, k, sure, nr
        # next minimiser over the larger space
        q = r - K @ (K.T @ r)
        q /= np.linalg.norm(q)
        K = np.column_stack([K, q])
        xn = K @ np.linalg.solve(K.T @ A @ K, K.T @ b)
        if abs(np.linalg.norm(xn) - delta) < 1e-8 * delta:
            sure = False
        if np.linalg.norm(xn) > delta:
            d = xn - x
            a, bb, cc = d @ d, x @ d, x @ x - delta ** 2
            t = (-bb + np.sqrt(bb * bb - a * cc)) / a
            return x + t * d, 1, k, sure, nr
        x = xn
    return x, None, k, False, nr


def run(case):
    n, v, ga, unit = case
    r = Res()
    A = sym(n, v) * unit
    for gb in itertools.product(ga, repeat=n) if not isinstance(ga[0], (list, tuple)) else ga:
        b = np.array(gb, float)
        if n <= 2 and unit != 1:
            b = b * np.sqrt(unit)
        nb = np.linalg.norm(b)
        for rad in (1e-3, .5, 1, 3, 1e3):
            delta = rad * (nb / (abs(A).max() or 1) if nb and unit != 1 else 1)
            for mi in sorted({1, n, 20 * n}):
                for tol in (1e-10, .5):
                    tl = tol * max(nb, 1e-30) if tol < .1 or unit != 1 else tol
                    A0, b0 = A.copy(), b.reshape(-1, 1).copy()
                    r.evals += 1
                    try:
                        x, info = tcg(A0, b0, delta, mi, tl)
                        x = np.asarray(x, float).reshape(-1)
                        flag, it, prec = int(info.flag), int(info.iter), float(np.asarray(info.prec).reshape(-1)[0])
                    except Exception as e:
                        r.bad('truncated CG raised %r' % e, 'raise', A=A, b=b, delta=delta, maxit=mi, tol=tl)
                        continue
                    det = dict(A=A, b=b, delta=delta, maxit=mi, tol=tl, x=x, flag=flag)
                    if not (A0 == A).all() or not (b0[:, 0] == b).all():
                        r.bad('arguments were altered', 'alias', **det)
                    if x.shape != (n,) or not np.isfinite(x).all():
                        r.bad('step is not a finite vector', 'shape', **det)
                        continue
                    nx = np.linalg.norm(x)
                    q = .5 * x @ A @ x - b @ x
                    sc = nb * nx + abs(A).max() * nx * nx
                    if nx > delta * (1 + 1e-8):
                        r.bad('step leaves the trust region', 'radius', **det)
                    if flag not in (0, -1, 1, 2):
                        r.bad('undocumented flag', 'flag', **det)
                    if flag == 0 and np.linalg.norm(A @ x - b) > tl * (1 + 1e-6) + 1e-12 * (nb + abs(A).max() * nx):
                        r.bad('convergence reported with a residual above the tolerance', 'res', **det)
                    if flag in (1, 2) and abs(nx - delta) > 1e-7 * delta:
                        r.bad('boundary reported for a step that is not on it', 'bnd', **det)
                    if flag == 2 and np.linalg.eigvalsh(A)[0] > 1e-8 * abs(A).max():
                        r.bad('negative curvature reported for a positive definite matrix', 'curv', **det)
                    if q > 1e-10 * sc:
                        r.bad('quadratic increases along the step', 'incr', **det)
                    if flag in (0, -1) and abs(prec - np.linalg.norm(A @ x - b)) > 1e-8 * (nb + abs(A).max() * nx):
                        r.bad('reported residual is not that of the step', 'prec', prec=prec, **det)
                    if nb:
                        # at least the decrease of the best multiple of b, once an iteration is made
                        c = b @ A @ b
                        t = delta / nb if c <= 0 else min(delta / nb, nb * nb / c)
                        if nb > tl * (1 + 1e-8):
                            qc = .5 * t * t * c - t * nb * nb
                            if q > qc + 1e-8 * abs(qc):
                                r.bad('less decrease than the steepest descent step', 'cauchy', q=q, qc=qc, **det)
                    try:
                        xs, fs, ks, sure, nr = steihaug(A, b, delta, mi, tl)
                    except np.linalg.LinAlgError:
                        r.count['undecided'] = r.count.get('undecided', 0) + 1
                        continue
                    if sure and fs is not None:
                        r.keys.add(h((A.tolist(), b.tolist(), delta, mi, tl)) if nb else 'zero')
                        r.count['end %d' % fs] = r.count.get('end %d' % fs, 0) + 1
                        if flag != fs:
                            r.bad('ended for the wrong reason', 'why', expected=fs, **det)
                        elif np.linalg.norm(x - xs) > 1e-6 * max(np.linalg.norm(xs), 1e-12):
                            r.bad('step is not on Steihaug\'s path', 'path', expected=xs, **det)
                        elif fs in (0, -1) and it != ks:
                            r.bad('wrong iteration count', 'iter', expected=ks, it=it, **det)
    r.sample = dict(n=n, entries=v, unit=unit)
    return r

"""Oracles for the unit-level checks, written from the definitions and not from the library's code."""
import itertools
import math

import numpy as np


# ------------------------------------------------------------ polynomials
def basis_terms(n):
    """monomials in the order the library documents: 1, x_i, x_i^2/2, then sub-diagonals of products"""
    t = [()] + [(i,) for i in range(n)] + [(i, i) for i in range(n)]
    for k in range(1, n):
        t += [(k + i, i) for i in range(n - k)]
    return t


def basis(X, q):
    """rows: points (columns of X); columns: first q basis functions"""
    X = np.asarray(X, float)
    n, m = X.shape
    out = np.empty((m, q))
    for c, t in enumerate(basis_terms(n)[:q]):
        v = np.ones(m)
        for i in t:
            v = v * X[i]
        if len(t) == 2 and t[0] == t[1]:
            v = v / 2
        out[:, c] = v
    return out


def quad_of(coef, n):
    """(c, g, H) of the polynomial with these basis coefficients at the origin of its coordinates"""
    g, H, c = np.zeros(n), np.zeros((n, n)), 0.0
    for a, t in zip(coef, basis_terms(n)):
        if len(t) == 0:
            c = a
        elif len(t) == 1:
            g[t[0]] = a
        else:
            H[t[0], t[1]] = a
            H[t[1], t[0]] = a
    return c, g, H


def fit(Y, F, kind, shift=True):
    """independent model fit.  Y n x p, F r x p. kind 0 sub-basis, 1 min Frobenius, 2 min l2, 3 regression.
    Returns (list of (c,g,H) in the coordinates u=(x-base)*s, base, s, cond)"""
    n, p = Y.shape
    q = (n + 1) * (n + 2) // 2
    base = Y[:, 0] if shift else np.zeros(n)
    D = Y - base[:, None]
    rad = max(math.sqrt(float(D[:, k].dot(D[:, k]))) for k in range(p)) if shift else 1.0
    s = 1.0 / rad
    U = D * s
    out = []
    if kind == 0:
        M = basis(U, p)
        cond = np.linalg.cond(M)
        if cond < 1e12:
            out = [np.linalg.solve(M, f) for f in F]
    elif kind == 1 and n + 1 < p < q:
        M = basis(U, q)
        A, B = M[:, :n + 1], M[:, n + 1:]
        # min |beta|^2  s.t. A alpha + B beta = f : null space of A' removes alpha
        cond = max(np.linalg.cond(A), np.linalg.cond(M))
        K = np.block([[B.dot(B.T), A], [A.T, np.zeros((n + 1, n + 1))]])
        if cond < 1e12:
            cond = max(cond, np.linalg.cond(K))
        if cond < 1e12:
            Qf, _ = np.linalg.qr(A, mode='complete')
            N = Qf[:, n + 1:]
            for f in F:
                beta = np.linalg.pinv(N.T.dot(B)).dot(N.T.dot(f))
                alpha = np.linalg.lstsq(A, f - B.dot(beta), rcond=None)[0]
                out.append(np.concatenate([alpha, beta]))
    elif kind == 1 and p == n + 1:
        M = basis(U, p)
        cond = np.linalg.cond(M)
        if cond < 1e12:
            out = [np.concatenate([np.linalg.solve(M, f), np.zeros(q - p)]) for f in F]
    else:
        M = basis(U, q)
        cond = np.linalg.cond(M)
        if cond < 1e12:
            out = [np.linalg.lstsq(M, f, rcond=1e-14)[0] for f in F]
    return [quad_of(c, n) for c in out], base, s, cond


def peval(m, base, s, x):
    c, g, H = m
    u = (np.asarray(x, float).reshape(-1) - base) * s
    return float(c + g.dot(u) + .5 * u.dot(H).dot(u))


# ------------------------------------------------------- trust-region problem
def tr_global(g, H, Delta):
    """global minimum of g.s+s'Hs/2 over |s|<=Delta (value, a minimiser, lambda, hard) by eigen decomposition"""
    g = np.asarray(g, float).reshape(-1)
    H = np.asarray(H, float)
    n = g.size
    w, V = np.linalg.eigh((H + H.T) / 2)
    a = V.T.dot(g)
    lo = max(0.0, -w[0])
    big = max(1.0, np.max(np.abs(w)), np.max(np.abs(a)) / Delta)
    near = (w - w[0]) <= 1e-13 * big

    def step(lam, mask=None):
        d = w + lam
        y = np.zeros(n)
        ok = np.ones(n, bool) if mask is None else mask
        y[ok] = -a[ok] / d[ok]
        return y
    if w[0] > 1e-14 * big:
        y = step(0.0)
        if np.linalg.norm(y) <= Delta:
            s = V.dot(y)
            return float(g.dot(s) + .5 * s.dot(H).dot(s)), s, 0.0, False
    if 0 < np.linalg.norm(a[near]) <= 1e-12 * big * Delta:       # numerically a hard case
        a = np.where(near, 0.0, a)
    gn = np.linalg.norm(a[near])
    if gn <= 1e-14 * max(1e-300, np.linalg.norm(a)) or np.linalg.norm(a) == 0:
        y = step(lo, ~near) if np.any(~near) else np.zeros(n)
        r = np.linalg.norm(y)
        if r <= Delta:
            if w[0] < 0:
                y[np.argmax(near)] = math.sqrt(max(0.0, Delta ** 2 - r ** 2))
            s = V.dot(y)
            return float(g.dot(s) + .5 * s.dot(H).dot(s)), s, lo, True
    l, u = lo, lo + np.linalg.norm(a) / Delta + 1e-300
    for _ in range(300):
        m = .5 * (l + u)
        if m <= l or m >= u:
            break
        d = w + m
        if np.any(d <= 0) or np.linalg.norm(a / d) > Delta:
            l = m
        else:
            u = m
    y = step(u)
    r2 = Delta ** 2 - float(y.dot(y))
    if r2 > 1e-12 * Delta ** 2 and w[0] + u <= 1e-9 * big:      # numerically hard: fill up along the lowest eigenvector
        k = int(np.argmax(near))
        sg = 1.0 if y[k] >= 0 else -1.0
        y[k] = sg * math.sqrt(y[k] ** 2 + r2)
    s = V.dot(y)
    return float(g.dot(s) + .5 * s.dot(H).dot(s)), s, u, False


# -------------------------------------------------- bound-constrained quadratics
def box_qp_global(g, H, l, u):
    """global minimum of g.s+s'Hs/2 over the box by enumerating all 3^n faces; needs a finite box
    in every direction of non-positive curvature.  Returns (value, minimiser)"""
    g = np.asarray(g, float).reshape(-1)
    n = g.size
    best = (math.inf, None)
    for face in itertools.product((0, 1, 2), repeat=n):
        s = np.zeros(n)
        ok = True
        for i, k in enumerate(face):
            if k == 1:
                s[i] = l[i]
            elif k == 2:
                s[i] = u[i]
            if k and not np.isfinite(s[i]):
                ok = False
        if not ok:
            continue
        fr = [i for i, k in enumerate(face) if k == 0]
        if fr:
            A = H[np.ix_(fr, fr)]
            b = -(g[fr] + H[np.ix_(fr, [i for i in range(n) if i not in fr])].dot(
                np.array([s[i] for i in range(n) if i not in fr])))
            if np.linalg.matrix_rank(A) < len(fr):
                continue            # the minimum of a singular face also occurs on a smaller face or is unbounded
            s[fr] = np.linalg.solve(A, b)
            if any(s[i] < l[i] - 1e-12 or s[i] > u[i] + 1e-12 for i in fr):
                continue
        v = float(g.dot(s) + .5 * s.dot(H).dot(s))
        if v < best[0]:
            best = (v, s)
    return best


def box_ls_global(A, b, l, u):
    """minimum of |Ax-b| over the box by enumerating all faces (min-norm solution on each)"""
    A = np.asarray(A, float)
    b = np.asarray(b, float).reshape(-1)
    n = A.shape[1]
    best = (math.inf, None)
    for face in itertools.product((0, 1, 2), repeat=n):
        x = np.zeros(n)
        if any((k == 1 and not np.isfinite(l[i])) or (k == 2 and not np.isfinite(u[i])) for i, k in enumerate(face)):
            continue
        for i, k in enumerate(face):
            x[i] = l[i] if k == 1 else u[i] if k == 2 else 0
        fr = [i for i, k in enumerate(face) if k == 0]
        if fr:
            r = b - A.dot(x)
            x[fr] = np.linalg.lstsq(A[:, fr], r, rcond=1e-12)[0]
            if any(x[i] < l[i] - 1e-10 or x[i] > u[i] + 1e-10 for i in fr):
                continue
        v = float(np.linalg.norm(A.dot(x) - b))
        if v < best[0]:
            best = (v, x)
    return best


def col(x):
    return np.array(x, float).reshape(-1, 1)

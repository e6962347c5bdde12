"""Closed driver around the public entry point: problems with exactly known
calculus, recorded user functions, and a pristine library state per run."""
import contextlib
import io
import itertools
import math
import os

import numpy as np
from mc import core  # noqa: F401  (path set-up)

import sqpdfo.sqpdfo_global_variables as glob
from sqpdfo import optimize

_pristine = {k: v for k, v in vars(glob).items() if not k.startswith('__')}


def fresh():
    """put every process-global of the library back to its import-time value"""
    for k in list(vars(glob)):
        if not k.startswith('__') and k not in _pristine:
            delattr(glob, k)
    for k, v in _pristine.items():
        setattr(glob, k, v)


class Opt:
    pass


DEF = dict(hess_approx='model', bfgs_restart=0, algo_descent='powell', whichmodel='subbasis',
           final_degree='quadratic', tol_grad=1e-5, tol_feas=1e-5, tol_bnds=1e-5, dxmin=1e-16,
           miter=500, msimul=500, verbose=0)


def options(**kw):
    o = Opt()
    for k, v in dict(DEF, **kw).items():
        if v is not None:
            setattr(o, k, v)
    return o


# ---------------------------------------------------------------- problems
NL = {
    'rosen': (lambda x: 100 * (x[1] - x[0] ** 2) ** 2 + (1 - x[0]) ** 2,
              lambda x: [-400 * x[0] * (x[1] - x[0] ** 2) - 2 * (1 - x[0]), 200 * (x[1] - x[0] ** 2)]),
    'rosen4': (lambda x: 4 * (x[1] - x[0] ** 2) ** 2 + (1 - x[0]) ** 2,
               lambda x: [-16 * x[0] * (x[1] - x[0] ** 2) - 2 * (1 - x[0]), 8 * (x[1] - x[0] ** 2)]),
    'quart': (lambda x: sum((v - 1) ** 4 + (v - 1) ** 2 for v in x),
              lambda x: [4 * (v - 1) ** 3 + 2 * (v - 1) for v in x]),
    'cosh': (lambda x: sum(math.cosh(v - .5) for v in x), lambda x: [math.sinh(v - .5) for v in x]),
    'saddle': (lambda x: x[0] * x[1] + .1 * (x[0] ** 4 + x[1] ** 4),
               lambda x: [x[1] + .4 * x[0] ** 3, x[0] + .4 * x[1] ** 3]),
    'absmax': (lambda x: max(abs(v - .3) for v in x), None),
    'const': (lambda x: 1.0, lambda x: [0.0] * len(x)),
}


class Problem:
    """spec: dict(n, H, g | nl, lb, ub, me, mi, c=[rows]) with constraint rows
       ['lin', a, b]   a.x - b      ['circ', r]   x.x - r*r     ['disc', r]  r*r - x.x
       ['prod', b]     x0*x1 - b    ['par']       x1 - x0^2"""

    def __init__(self, spec):
        self.s = spec
        self.n = spec['n']
        self.me = spec.get('me', 0)
        self.mi = spec.get('mi', 0)
        self.rows = spec.get('c', [])
        self.lb = spec.get('lb')
        self.ub = spec.get('ub')
        if 'nl' in spec:
            self._f, self._g = NL[spec['nl']]
        else:
            self.H = np.array(spec['H'], float)
            self.g0 = np.array(spec['g'], float)
            self._f = lambda x: float(0.5 * np.dot(x, self.H.dot(x)) + self.g0.dot(x))
            self._g = lambda x: self.H.dot(x) + self.g0

    def f(self, x):
        return self._f(np.asarray(x, float))

    def grad(self, x):
        return np.asarray(self._g(np.asarray(x, float)), float)

    def _row(self, r, x):
        k = r[0]
        if k == 'lin':
            return float(np.dot(r[1], x) - r[2])
        if k == 'circ':
            return float(np.dot(x, x) - r[1] ** 2)
        if k == 'disc':
            return float(r[1] ** 2 - np.dot(x, x))
        if k == 'prod':
            return float(x[0] * x[1] - r[1])
        if k == 'par':
            return float(x[1] - x[0] ** 2)
        raise KeyError(k)

    def _rowg(self, r, x):
        k = r[0]
        x = np.asarray(x, float)
        if k == 'lin':
            return np.array(r[1], float)
        if k == 'circ':
            return 2 * x
        if k == 'disc':
            return -2 * x
        if k == 'prod':
            v = np.zeros(self.n)
            v[0], v[1] = x[1], x[0]
            return v
        v = np.zeros(self.n)
        v[0], v[1] = -2 * x[0], 1
        return v

    def c(self, x):
        x = np.asarray(x, float)
        return [self._row(r, x) for r in self.rows]

    def jac(self, x):
        return np.array([self._rowg(r, x) for r in self.rows]).reshape(len(self.rows), self.n)

    # -------------------------------------------------------------- oracles
    def infeas(self, x):
        v = 0.0
        c = self.c(x)
        for j, cj in enumerate(c):
            v = max(v, abs(cj) if j < self.me else -cj)
        return v

    def outside(self, x):
        v = 0.0
        for i in range(self.n):
            if self.lb is not None:
                v = max(v, self.lb[i] - x[i])
            if self.ub is not None:
                v = max(v, x[i] - self.ub[i])
        return v

    def stationarity(self, x, act=1e-4, cact=1e-2, signed=True):
        """min over admissible multipliers of |grad f - J'lam - bound part|_inf (2-norm minimiser)"""
        from scipy.optimize import nnls
        x = np.asarray(x, float)
        g = self.grad(x)
        cols = []
        for i in range(self.n):
            e = np.zeros(self.n)
            e[i] = 1
            if self.lb is not None and x[i] - self.lb[i] < act:
                cols.append(e)
            if self.ub is not None and self.ub[i] - x[i] < act:
                cols.append(-e)
        c = self.c(x)
        J = self.jac(x)
        for j in range(len(c)):
            if j < self.me:
                cols += [J[j], -J[j]]
            elif c[j] < cact:
                cols += [J[j]] if signed else [J[j], -J[j]]
        if not cols:
            return float(np.max(np.abs(g)))
        A = np.array(cols).T
        mu, _ = nnls(A, g)
        return float(np.max(np.abs(A.dot(mu) - g)))

    def qp_solution(self):
        """global minimiser of a strictly convex QP with linear rows, by enumerating active sets"""
        n = self.n
        G, hh, eq = [], [], []          # a.x >= b
        for j, r in enumerate(self.rows):
            assert r[0] == 'lin'
            (eq if j < self.me else G).append((np.array(r[1], float), float(r[2])))
        for i in range(n):
            e = np.zeros(n)
            e[i] = 1
            if self.lb is not None and self.lb[i] > -1e19:
                G.append((e, self.lb[i]))
            if self.ub is not None and self.ub[i] < 1e19:
                G.append((-e, -self.ub[i]))
        best = None
        for k in range(0, min(n, len(G)) + 1):
            for S in itertools.combinations(range(len(G)), k):
                rows = eq + [G[i] for i in S]
                A = np.array([r[0] for r in rows]).reshape(len(rows), n)
                b = np.array([r[1] for r in rows])
                if len(rows) and np.linalg.matrix_rank(A) < len(rows):
                    continue
                K = np.block([[self.H, -A.T], [A, np.zeros((len(rows), len(rows)))]])
                sol = np.linalg.solve(K, np.concatenate([-self.g0, b]))
                x, lam = sol[:n], sol[n:]
                if np.any(lam[len(eq):] < -1e-10):
                    continue
                if any(a.dot(x) < bb - 1e-9 for a, bb in G):
                    continue
                v = self.f(x)
                if best is None or v < best[1] - 1e-12:
                    best = (x, v)
        return best


class Run:
    """outcome of one optimisation"""
    __slots__ = ('x', 'lm', 'info', 'exc', 'fx', 'cx', 'fcalls', 'ccalls', 'out', 'tb')

    @property
    def flag(self):
        return int(self.info.flag)


def solve(f, c, x0, lb=None, ub=None, me=0, mi=0, opts=None, li=None, ui=None, clean=True,
          capture=False, wrap=True):
    """call the public entry point with recording user functions. Exceptions are returned, not raised."""
    if clean:
        fresh()
    r = Run()
    r.fx, r.cx = [], []
    r.fcalls = r.ccalls = 0

    def F(x):
        r.fcalls += 1
        p = tuple(float(v) for v in x)
        r.fx.append([p, None])
        v = f(p)
        r.fx[-1][1] = v
        return v

    def C(x):
        r.ccalls += 1
        p = tuple(float(v) for v in x)
        r.cx.append([p, None])
        v = c(p)
        r.cx[-1][1] = v
        return v
    r.x = r.lm = r.info = r.exc = r.tb = None
    buf = io.StringIO() if capture else open(os.devnull, 'w')
    with contextlib.redirect_stdout(buf):
        try:
            r.x, r.lm, r.info = optimize(opts, F, x0, lb, ub, me, mi, C if c is not None else None, li, ui)
        except core.Hang:
            raise
        except BaseException as e:      # SystemExit included
            import traceback
            r.exc = e
            r.tb = [l.strip() for l in traceback.format_exc().splitlines() if l.strip()][-6:]
    r.out = buf.getvalue() if capture else ''
    buf.close()
    return r


def solve_problem(P, x0, opts=None, **kw):
    cp = lambda v: None if v is None else list(v)
    return solve(P.f, P.c if P.rows else None, list(x0), cp(P.lb), cp(P.ub), P.me, P.mi, opts, **kw)


def vec(x):
    return np.asarray(x, float).reshape(-1)


NEAR = [1e-9, -1e-9, 1e-8, -1e-8, 1e-7, -1e-7, 1e-6, -1e-6]


def solvable_nearby(P, x0, attempt):
    """a run that misses by bad luck of rounding is told from one that cannot succeed: attempt(start) -> solved, for eight starts around x0
    and objectives tilted by as little; true if at least two of them are solved"""
    got, f = 0, P.f
    size = 1 + abs(f(np.array(x0, float)))
    try:
        for e in NEAR:
            P.f = lambda x: f(x) + e * min(size, 1e3) * float(sum((-1) ** i * v for i, v in enumerate(np.ravel(x))))
            got += bool(attempt([float(v) * (1 + e) + e * (-1) ** i for i, v in enumerate(x0)]))
            if got == 2:
                return True
    finally:
        P.f = f
    return False

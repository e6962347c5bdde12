"""C13: in every run, models, iterate and trial steps are built on genuine and current data."""
import numpy as np
from mc.core import Res, h
from mc.drive import options, solve_problem, Problem
from mc import lattice as L
from mc.hooks import Hooks
import sqpdfo.sqpdfo_global_variables as glob

ID, LEVEL = 'C13', 'exploration'
RULE = ('every problem x start x option set of the lattice is run to its end while every model computation and every trial-step '
        'computation is observed: states = observed (interpolation set, values) configurations; each point of the set must be an '
        'evaluated point with exactly its own values, the iterate must be the first of the set, its values and model gradients '
        'current, its trial step inside bounds and radius; non-trivial = a run with at least one observed trial step beyond the '
        'initial set; distinct = observed configurations')
BOUNDS = 'n<=4 (thorough 5), 2 quadratics + 4 nonlinear objectives x 6 bound sets x 9 constraint sets x 3 starts x 9 option sets'
ASSUMPTIONS = ['model gradients are recomputed where the model is determined by the set (linear or full quadratic) and the set '
               'is not ill-conditioned', 'observation wraps bcdfo_computeP_ and sqpdfo_solve_TR_bc_ wherever the package looks them up; '
               'if they are not there, nothing is observed and nothing is judged']
OPTS = [{}, {'hess_approx': 'bfgs'}, {'final_degree': 'linear'}, {'final_degree': 'diagonal'}, {'whichmodel': 'regression'},
        {'whichmodel': 'l2norm'}, {'whichmodel': 'frobnorm'}, {'bfgs_restart': 3, 'hess_approx': 'bfgs'},
        {'tol_grad': 1e-8, 'tol_feas': 1e-8, 'tol_bnds': 1e-8}]
INF = 1e20


def cases(tier):
    out = []
    big = tier == 'thorough'
    objs = [dict(H=[[2, 1], [1, 2]], g=[1, 0]), dict(nl='rosen4'), dict(H=[[1, 0], [0, 10]], g=[3, -4]), dict(nl='quart'),
            dict(nl='saddle'), dict(nl='cosh')]
    for oi, ob in enumerate(objs if big else objs[:4]):
        for bi, (bk, b) in enumerate(L.B2.items()):
            for ci, (ck, c) in enumerate(L.C2.items()):
                for xi, x0 in enumerate(L.X2):
                    for k, o in enumerate(OPTS):
                        if not big and (oi + xi + k + bi + ci) % 5:
                            continue
                        if ob.get('nl') == 'saddle' and xi:
                            continue
                        out.append([L.spec(2, b=b, c=c, **ob), x0, o])
    for b in L.B3.values():
        for c in L.C3.values():
            for hk in ('tri', 'mix') if big else ('tri',):
                for o in OPTS if big else OPTS[:6]:
                    out.append([L.spec(3, L.H3[hk], L.G3[0], b=b, c=c), L.X3[1], o])
    for n in (4, 5) if big else (4,):
        for label, s, x0 in L.large(n, big):
            for o in OPTS if big else OPTS[:1] + OPTS[5:6]:
                out.append([s, x0, o])
    return out


class Watch:
    def __init__(self, P, o):
        self.full_only = o.get('whichmodel') in ('l2norm', 'regression')     # minimum-norm models have other gradients
        self.P, self.bad, self.states, self.trans = P, [], set(), 0
        self.last = None
        self.fprev = np.inf
        self.steps = self.models = self.fits = self.mults = 0
        self.curved = o.get('hess_approx', 'model') == 'model'
        self.lms, self.hess = [], 0
        self.slack, self.slacks = None, 0
        self.sigma, self.at, self.merits = -np.inf, None, 0
        self.accepted = self.improved = False
        self.hooks = Hooks()

    def __enter__(self):
        H = self.hooks
        H.install('bcdfo_computeP', 'bcdfo_computeP_', self.model)
        H.install('sqpdfo_solve_TR_bc', 'sqpdfo_solve_TR_bc_', self.step, self.stepped)
        H.install('sqpdfo_swap_in_Y', 'sqpdfo_swap_in_Y_', self.accept)
        H.install('sqpdfo_computeHessian', 'sqpdfo_computeHessian_', self.penalty)
        H.install('sqpdfo_find_smallf', 'sqpdfo_find_smallf_', self.improve)
        H.install('sqpdfo_compute_multiplier', 'sqpdfo_compute_multiplier_', None, self.mult)
        return self

    def __exit__(self, *a):
        self.hooks.remove()

    def say(self, what, fp, **d):
        if len(self.bad) < 3 and fp not in [b[1] for b in self.bad]:
            self.bad.append((what, fp, d))

    def truth(self, y):
        return np.concatenate([[self.P.f(y)], self.P.c(y)])

    def model(self, call):
        try:
            Y, F = np.array(call.get('Y'), float), np.atleast_2d(np.array(call.get('fY'), float))
            ok = Y.ndim == 2 and Y.shape == (self.P.n, F.shape[1]) and len(F) == 1 + len(self.P.rows)
        except Exception:
            ok = False
        if ok:
            self.models += 1
            for j in range(Y.shape[1]):
                t = self.truth(Y[:, j])
                if np.max(np.abs(F[:, j] - t)) > 1e-9 * (1 + np.max(np.abs(t))):
                    self.say('a model is built with values that are not those of its point', 'stale', point=Y[:, j],
                             index=j, used=F[:, j], actual=t)
            self.last = (Y, F)
            self.states.add(h(Y.tolist()))
            self.trans += 1

    def penalty(self, call):
        # the penalty parameter in force, where the solver passes it on
        try:
            s = float(np.asarray(call.get('sigma'), float).reshape(-1)[0])
        except Exception:
            return
        if np.isfinite(s):
            if s < self.sigma:
                self.say('the penalty parameter decreased', 'sigma', before=self.sigma, now=s)
            self.sigma = s

    def improve(self, call):
        self.improved = True
        self.penalty(call)

    def mult(self, mem, out):
        try:
            self.lms = self.lms[-3:] + [np.array(out[0], float).reshape(-1)]
        except Exception:
            pass

    def accept(self, call):
        # the solver itself exchanges two points of the set only to move to an accepted trial point
        self.accepted = True
        if self.slack is not None:
            self.slack = (self.slack[0], True)

    def step(self, call):
        n = self.P.n
        try:
            info, idx = call.get('info'), np.array(call.get('indfree'), int).reshape(-1)
            x, delta = np.array(call.get('x'), float).reshape(-1), float(np.asarray(call.get('delta'), float).reshape(-1)[0])
            lb, ub = (np.array(call.get(v), float).reshape(-1)[idx] for v in ('lb', 'ub'))
            g = np.array(info.g, float).reshape(-1)
            A = np.array(info.ae, float).reshape(-1, n) if self.P.rows else np.zeros((0, n))
            ce = np.array(info.ce, float).reshape(-1) if self.P.rows else np.zeros(0)
            fi = float(np.asarray(info.f, float).reshape(-1)[0])
            if not (x.shape == (n,) == lb.shape):
                return None
        except Exception:
            return None
        try:
            M = np.array(call.get('M'), float)
            lm = np.array(call.get('lm'), float).reshape(-1)
            sl = glob.get_slacks()
            sl = None if sl is None else np.array(sl, float).reshape(-1)
        except Exception:
            M = lm = sl = None
        if lm is not None and len(lm) == n + len(ce):
            self.lms = self.lms[-3:] + [lm]
            self.multipliers(x, lb, ub, g, A, lm)
        if sl is not None and self.slack is not None and self.slack[1]:
            # an accepted trial point comes with its slacks; a slack at zero may be reset from the constraint value
            s, c = self.slack[0], ce[len(ce) - len(sl):]
            if len(s) == len(c) == len(sl):
                self.slacks += 1
                free = np.minimum(np.abs(sl - s), np.where(s == 0, np.abs(sl - np.sqrt(np.maximum(c, 0))), np.inf))
                if np.max(free, initial=0) > 1e-9 * (1 + np.max(np.abs(s), initial=0)):
                    self.say('the slacks are not those of the accepted trial point', 'slack', accepted=s, used=sl, ce=ce)
        return M, sl, fi, x, delta, lb, ub, g, A, ce

    def stepped(self, mem, out):
        try:
            self.slack = (np.array(out[8], float).reshape(-1), False) if mem is not None and mem[1] is not None else None
        except Exception:
            self.slack = None
        if mem is not None:
            M, sl, fi, x, delta, lb, ub, g, A, ce = mem
            self.look(M, sl, fi, x, delta, lb, ub, g, A, ce, np.array(out[0], float).reshape(-1))
            self.trial(M, sl, x, delta, g, out)
        self.accepted = self.improved = False

    def multipliers(self, x, lb, ub, g, A, lm):
        # the multipliers handed to the step: none where no bound is near, and without active bounds the least-squares ones
        n = len(x)
        if self.P.mi or len(A) == 0 or np.linalg.norm(A) == 0:
            return                      # squared slacks have their own columns
        sv = np.linalg.svd(A, compute_uv=False)
        far = (x > lb + 1e-4) & (x < ub - 1e-4)
        size = 1 + np.max(np.abs(g)) + np.max(np.abs(lm))
        self.mults += 1
        if np.any(np.abs(lm[:n][far]) > 1e-7 * size):
            self.say('a bound multiplier is used for a variable that is not at a bound', 'lmb', x=x, used=lm)
        elif np.all(far) and len(A) <= n and sv[-1] > .03 * max(sv[0], 1):
            ls = np.linalg.lstsq(-A.T, g, rcond=None)[0]
            if np.max(np.abs(ls - lm[n:])) > 1e-2 * (1 + np.max(np.abs(ls))):
                self.say('the multipliers used for the step are not those of the current gradients', 'lm', x=x, used=lm[n:], actual=ls)

    def trial(self, M, sl, x, delta, g, out):
        pass

    def look(self, M, sl, fi, x, delta, lb, ub, g, A, ce, xn):
        P = self.P
        self.steps += 1
        t = self.truth(x)
        if len(ce) != len(P.rows) or len(ce) and np.max(np.abs(ce - t[1:])) > 1e-9 * (1 + np.max(np.abs(t))):
            self.say('the step is computed with constraint values that are not those of the iterate', 'ce', x=x, used=ce, actual=t[1:])
        if abs(fi - t[0]) > 1e-9 * (1 + abs(t[0])):
            self.say('the step is computed with an objective value that is not that of the iterate', 'f', x=x, used=fi, actual=t[0])
        if not 0 < delta < 1e9:
            self.say('radius %r' % delta, 'delta')
        if xn.shape == x.shape and np.all(np.isfinite(xn)):
            if np.any(xn < lb - 1.001e-8) or np.any(xn > ub + 1.001e-8):
                self.say('trial point outside the bounds', 'bounds', x=x, xnew=xn)
            if np.linalg.norm(xn - x) > 3 * delta * (1 + 1e-5) + 1e-14 * (1 + np.max(np.abs(x))):
                self.say('step much longer than the radius', 'radius', x=x, xnew=xn, delta=delta)
        else:
            self.say('trial point is not a finite vector', 'finite', xnew=xn)
        if not P.rows:
            if t[0] > self.fprev + 1e-12 * (1 + abs(self.fprev)):
                self.say('the iterate got worse', 'monotone', before=self.fprev, now=t[0])
            self.fprev = t[0]
        if P.rows:
            # value plus penalty times violation (with the slacks carried along) never gets worse
            now = t.copy()
            if sl is not None and len(sl):
                now[len(now) - len(sl):] -= sl ** 2
            if self.at is not None and np.isfinite(self.sigma):
                a, b = (v[0] + self.sigma * np.linalg.norm(v[1:]) for v in (self.at, now))
                self.merits += 1
                if b > a + 1e-9 * (1 + abs(a) + self.sigma * (np.linalg.norm(self.at) + np.linalg.norm(now))):
                    self.say('the iterate got worse', 'merit', before=a, now=b, penalty=self.sigma, x=x)
            self.at = now
        if self.last is None:
            return
        Y, F = self.last
        if np.max(np.abs(Y[:, 0] - x)) > 1e-9 * (1 + np.max(np.abs(x))):
            self.say('the iterate is not the centre of the set the models were built on', 'centre', x=x, centre=Y[:, 0])
            return
        n, p = Y.shape
        q = (n + 1) * (n + 2) // 2
        if p != q and (p != n + 1 or self.full_only):
            return
        D = (Y - x[:, None])
        s = np.max(np.abs(D))
        if s == 0:
            return
        D = D / s
        cols = [np.ones(p)] + list(D)
        if p == q:
            cols += [D[i] * D[j] for i in range(n) for j in range(i + 1)]
        Z = np.array(cols).T
        if np.linalg.cond(Z) > 1e6:
            return
        self.fits += 1
        C = np.linalg.solve(Z, F.T).T
        G = C[:, 1:n + 1] / s
        tol = 1e-5 * (1 + np.max(np.abs(G))) + 1e-9 * np.max(np.abs(F)) / s
        if np.max(np.abs(G[0] - g)) > tol:
            self.say('the objective gradient used for the step is not that of the current model', 'grad', x=x, used=g, actual=G[0])
        if len(A) and (A.shape != G[1:].shape or np.max(np.abs(G[1:] - A)) > tol):
            self.say('the constraint gradients used for the step are not those of the current models', 'jac', x=x, used=A, actual=G[1:])
        if self.curved and p == q and M is not None and M.shape == (n, n):
            k, Hs = n + 1, np.zeros((len(F), n, n))
            for i in range(n):
                for j in range(i + 1):
                    Hs[:, i, j] += C[:, k] / s ** 2
                    Hs[:, j, i] += C[:, k] / s ** 2
                    k += 1
            cand = [Hs[0] + np.einsum('i,ijk', lm[n:n + len(A)], Hs[1:]) for lm in self.lms if len(lm) >= n + len(A)] if len(A) else [Hs[0]]
            if cand:
                self.hess += 1
                tol = 1e-4 * (1 + np.max(np.abs(Hs))) * (1 + max([np.max(np.abs(lm)) for lm in self.lms] + [0])) + 1e-8 * np.max(np.abs(F)) / s ** 2
                d = min(np.max(np.abs(M - c)) for c in cand)
                if d > tol:
                    self.say('the curvature used for the step is not that of the current Lagrangian model', 'hess', x=x, used=M,
                             actual=cand[-1], off=d, tol=tol)


def run(case):
    spec, x0, o = case
    r = Res()
    r.evals = 1
    P = Problem(spec)
    with Watch(P, o) as w:
        R = solve_problem(P, x0, options(**o))
    if R.exc is not None:
        r.bad('the solver raised %r' % R.exc, fp='exc', tb=R.tb)
        return r
    for what, fp, d in w.bad:
        r.bad(what, fp, **d)
    r.states |= w.states
    r.trans += w.trans
    if w.steps > 1:
        r.keys |= w.states
    r.count['steps'] += w.steps
    r.count['models'] += w.models
    r.count['gradients recomputed'] += w.fits
    r.count['Hessians recomputed'] += w.hess
    r.count['slacks checked'] += w.slacks
    r.count['multipliers checked'] += w.mults
    r.count['merits compared'] += w.merits
    r.sample = dict(case=case, flag=R.flag, steps=w.steps, models=w.models)
    return r

"""C14: the iteration is globalised: merit descends, penalty suffices and never decreases, the radius grows only after success."""
import numpy as np
from mc.core import Res, h
from mc.drive import options, solve_problem, Problem
from mc import lattice as L
from mc.props import c13

ID, LEVEL = 'C14', 'exploration'
RULE = ('every problem x start x option set of the lattice is run to its end; every iteration is observed and judged as a transition '
        '(iterate, radius, slacks, penalty) -> (iterate, radius, slacks, penalty) of the trust-region automaton; states = observed '
        'configurations at trial steps; non-trivial = a transition that is accepted or rejected; distinct = (iterate, trial point)')
BOUNDS = ('n=2: 6 objectives x 4 bound sets x 11 constraint sets (linear, circle, disc, product, parabola) x 4 starts x 6 option sets; n=3,4 with linear constraints')
ASSUMPTIONS = ['acceptance is observed where the solver exchanges the trial point with the centre; the penalty where it is handed on; if the '
               'functions are not there nothing is observed', 'relative rounding 1e-9']
OPTS = [{}, {'hess_approx': 'bfgs'}, {'final_degree': 'linear'}, {'whichmodel': 'regression'}, {'whichmodel': 'frobnorm'},
        {'final_degree': 'diagonal'}]
C = dict(L.C2)
C.update(prod=(1, 0, [['prod', .25]]), par=(0, 1, [['par']]))
X = L.X2 + [[.5, -2]]
OBJ = [dict(H=[[2, 1], [1, 2]], g=[1, 0]), dict(nl='rosen4'), dict(H=[[1, 0], [0, 10]], g=[3, -4]), dict(nl='quart'), dict(nl='cosh'),
       dict(H=[[1, 2], [2, -1]], g=[0, 1])]
B = ['none', 'unit', 'pos', 'half']


def cases(tier):
    out = []
    big = tier == 'thorough'
    for oi, ob in enumerate(OBJ):
        for bi, bk in enumerate(B):
            if ob.get('H') == [[1, 2], [2, -1]] and bk != 'unit':      # nonconvex: bounded problems only
                continue
            for ci, (ck, c) in enumerate(C.items()):
                for xi, x0 in enumerate(X):
                    for k, o in enumerate(OPTS):
                        if big or (oi + bi + ci + xi + k) % 5 == 0:
                            out.append([L.spec(2, b=L.B2[bk], c=c, **ob), x0, o])
    for b in L.B3.values():
        for c in L.C3.values():
            for hk in ('tri', 'mix'):
                for gi in (0, 1) if big else (0,):
                    for o in OPTS if big else OPTS[:3]:
                        out.append([L.spec(3, L.H3[hk], L.G3[gi], b=b, c=c), L.X3[1], o])
    for label, s, x0 in L.large(4, big):
        for o in OPTS if big else OPTS[:1]:
            out.append([s, x0, o])
    return out


class Watch(c13.Watch):
    def __init__(self, P, o):
        c13.Watch.__init__(self, P, o)
        self.pend, self.keys, self.n_acc, self.n_rej, self.lost, self.same = None, set(), 0, 0, 0, 0

    def merit(self, t, sl, sg):
        t = np.array(t, float)
        if len(self.P.rows) and sl is not None and len(sl):
            t[len(t) - len(sl):] -= np.asarray(sl) ** 2
        return t[0] + (sg * np.linalg.norm(t[1:]) if len(t) > 1 else 0.0)

    def trial(self, M, sl, x, delta, g, out):
        p, acc, imp = self.pend, self.accepted, self.improved
        sg = self.sigma if self.P.rows else 0.0
        self.pend = None
        if p is not None and np.isfinite(sg):
            px, pt, psl, pdelta, pxn, pslp, q, rp, pg, pM, rq = p
            tr = self.truth(pxn)
            m0, m1 = self.merit(pt, psl, sg), self.merit(tr, pslp, sg)
            size = 1 + abs(m0) + abs(m1) + sg * (np.linalg.norm(pt[1:]) + np.linalg.norm(tr[1:]))
            pred, ared = -q + sg * rp, m0 - m1
            tol = 1e-9 * size + rq          # rounding of the prediction
            self.trans += 1
            self.keys.add(h((px.tolist(), pxn.tolist())))
            big = 1e-6 * (1 + np.max(np.abs(x)))
            acc = acc or np.max(np.abs(px - pxn)) > big and np.max(np.abs(x - pxn)) <= 1e-6 * big
            if self.P.rows and rp > 1e-9 * size and pred < .3 * sg * rp - tol:
                self.say('the penalty parameter is too small for the step to promise progress', 'sufficient', penalty=sg, model=q,
                         infeasibility=rp, x=px)
            if acc:
                self.n_acc += 1
                if not pred > -tol or ared < 1e-4 * pred - tol:
                    self.say('a trial point was accepted without sufficient decrease', 'accept', x=px, trial=pxn, predicted=pred, actual=ared)
                if not imp and np.max(np.abs(x - pxn)) > 1e-9 * (1 + np.max(np.abs(x))):
                    self.say('an accepted trial point did not become the iterate', 'move', x=px, trial=pxn, now=x)
            else:
                self.n_rej += 1
                if not imp:
                    if np.max(np.abs(x - px)) > 1e-9 * (1 + np.max(np.abs(x))):
                        self.say('the iterate moved although the trial point was rejected', 'moved', x=px, trial=pxn, now=x)
                    if delta > pdelta * (1 + 1e-9):
                        self.say('the radius grew although the trial point was rejected', 'grew', before=pdelta, now=delta)
                    same = np.array_equal(x, px) and np.array_equal(g, pg) and np.array_equal(M, pM)
                    self.same += same
                    if same and delta >= pdelta:
                        self.say('after a rejected trial point neither the model changed nor the radius shrank', 'stuck', x=px, trial=pxn,
                                 radius=delta)
                    if ared > .9 * pred > 1e-6 * size:
                        self.lost += 1
        try:
            xn = np.array(out[0], float).reshape(-1)
            slp = None if sl is None else np.array(out[8], float).reshape(-1)
            s = xn - x
            q = float(g @ s + .5 * s @ M @ s)
            self.pend = (x, self.truth(x), sl, delta, xn, slp, q, float(np.asarray(out[2], float).reshape(-1)[0]),
                         np.array(g, copy=True), np.array(M, copy=True),
                         1e-13 * float(np.abs(g) @ np.abs(s) + np.abs(s) @ np.abs(M) @ np.abs(s)))
        except Exception:
            self.pend = None


def run(case):
    spec, x0, o = case
    r = Res()
    r.evals = 1
    P = Problem(spec)
    with Watch(P, o) as w:
        R = solve_problem(P, x0, options(**o))
    if R.exc is not None:
        r.bad('the solver raised %r' % R.exc, fp='exc', tb=R.tb)
        return r
    for what, fp, d in w.bad:
        if fp in ('sigma', 'merit', 'monotone', 'sufficient', 'accept', 'move', 'moved', 'grew', 'stuck'):
            r.bad(what, fp, **d)
    r.states |= w.states
    r.trans += w.trans
    r.keys |= w.keys
    r.count['accepted'] += w.n_acc
    r.count['rejected'] += w.n_rej
    r.count['rejected, model unchanged'] += w.same
    r.count['very good but not taken'] += w.lost
    r.count['merits compared'] += w.merits
    r.sample = dict(case=case, flag=R.flag, steps=w.steps)
    return r

"""C05: a failing user function is contained: every evaluation of every run is made to fail in every way."""
import itertools
import numpy as np
from mc.core import Res, h
from mc.drive import Problem, options, solve, solve_problem, vec
from mc import lattice as L

ID, LEVEL = 'C05', 'fault_enumeration'
RULE = ('for every problem the fault-free run is recorded; then for every evaluation k of it, and every fault kind '
        '(objective or constraint raises, returns NaN, objective returns +-Inf, one constraint component NaN, '
        'no number, or the wrong number of values), the run is repeated with exactly that fault; additionally every problem of a '
        'family whose constraint is infinite on one side of a wall is run; non-trivial = the fault was '
        'delivered after the initial set; distinct = (problem, k, kind)')
BOUNDS = 'every evaluation up to number 30 (thorough: 90) of each run; n<=3'
ASSUMPTIONS = ['deterministic user functions', 'a failure ends the run (the library treats it as fatal)']


class Boom(Exception):
    pass


FK = ['raise', 'nan', '+inf', '-inf', '?none', '?text', '?two', '?nothing']
CK = ['raise', 'nan0', 'nanlast', 'inf0', '-inflast*', '?none', '?text', '?short', '?long', '?nothing']
BAD = {'?none': lambda v: None, '?text': lambda v: 'oops', '?two': lambda v: [v, v], '?nothing': lambda v: [],
       '?short': lambda v: v[:-1], '?long': lambda v: v + [0.0]}


def cases(tier):
    out = []
    big = tier == 'thorough'
    for ob in (dict(H=[[2, 1], [1, 2]], g=[1, 0]), dict(nl='rosen4')) + ((dict(H=[[1, 0], [0, 10]], g=[3, -4]),) if big else ()):
        for bk in (L.B2 if big else ('none', 'unit', 'half')):
            for ck in (L.C2 if big else ('none', 'line', 'circ', 'half', 'wedge')):
                for x0 in (L.X2 if big else L.X2[1:2]):
                    out.append([L.spec(2, b=L.B2[bk], c=L.C2[ck], **ob), x0, {}])
    for c in L.C3.values():
        out.append([L.spec(3, L.H3['mix'], L.G3[0], b=L.B3['mixed'], c=c), L.X3[1], {}])
    for o in ({'hess_approx': 'bfgs'}, {'final_degree': 'linear'}, {'verbose': 3}):
        for ck in ('none', 'line', 'half'):
            out.append([L.spec(2, [[1, 0], [0, 10]], [3, -4], b=L.B2['unit'], c=L.C2[ck]), [1, 2], o])
    return [c + [90 if big else 30] for c in out] + cliffs(big)


def cliffs(big):
    """problems with a constraint that is infinite on one side of a wall"""
    out = []
    for n in (1, 2):
        for a, b in itertools.product((-1, 0, 1), (-1, 0, 1)):      # finite part a*x0 + b
            for wall in (-1, 0, .5, 2) if big else (0, .5):
                for side in (-1, 1):
                    for v in ('inf', '-inf', '1e26', '-1e30'):
                        if not big and (v[-1] != 'f') and n == 2:
                            continue
                        out.append(['cliff', n, a, b, wall, side, v, big])
    return out


def cliff(case):
    _, n, a, b, wall, side, v, big = case
    r = Res()
    val = float(v)

    def con(x):
        return val if side * (x[0] - wall) > 0 else float(a * x[0] + b)
    for me, mi in ((1, 0), (0, 1), (1, 1), (0, 2)):
        if me + mi == 2 and n == 1:
            continue
        two = me + mi == 2
        c = (lambda x: [float(x[1] - x[0]), con(x)]) if two else (lambda x: [con(x)])
        for t in (-3, 3):
            for x0 in (-1, 0, 1, 2) if big else (-1, 1):
                for bnd in (None, 4) if big else (None,):
                    seen = {}

                    def f(x):
                        return sum((p - t) ** 2 for p in x)
                    R = solve(f, c, [float(x0)] * n, None if bnd is None else [-bnd] * n, None if bnd is None else [bnd] * n,
                              me, mi, options(msimul=60 if big else 30))
                    r.evals += 1
                    d = dict(me=me, mi=mi, target=t, x0=x0, bound=bnd)
                    if R.exc is not None:
                        r.bad('infinite constraint values escape as %r' % R.exc, fp='cliffexc', tb=R.tb, **d)
                        continue
                    x = vec(R.x)
                    q = [p for p, w in R.fx]
                    if any(abs(k) >= 1e25 for p, w in R.cx for k in w):
                        r.keys.add(h(case, d))
                    if R.flag == 2:
                        continue
                    if tuple(float(k) for k in x) not in set(q):
                        r.bad('the returned point was never evaluated', fp='cliffpoint', x=x, **d)
                        continue
                    ref, ce = c(x), vec(R.info.ce)
                    for j, (p, w) in enumerate(zip(ref, ce)):
                        if abs(p) < 1e25 and p != w or abs(p) >= 1e25 and not w * np.sign(p) > 0:
                            r.bad('constraint values reported for the returned point differ from the true ones', fp='cliffce',
                                  ce=ce, actual=ref, x=x, **d)
                    viol = max(abs(p) if j < me else max(0, -p) for j, p in enumerate(ref))
                    if R.flag == 0 and viol > 1e-4:
                        r.bad('success is reported where a constraint is violated', fp='cliffok', x=x, actual=ref, **d)
    r.sample = dict(case=case)
    return r


def run(case):
    if case[0] == 'cliff':
        return cliff(case)
    spec, x0, o, cap = case
    r = Res()
    P = Problem(spec)
    o = dict(o, msimul=cap)
    base = solve_problem(P, x0, options(**o))
    r.evals = 1
    if base.exc is not None:
        r.bad('the solver raised %r' % base.exc, fp='exc', tb=base.tb)
        return r
    pts = [p for p, v in base.fx]
    N = len(pts)
    r.sample = dict(case=case, evaluations=N)
    for k in range(1, min(N, cap) + 1):
        for who, kinds in (('f', FK), ('c', CK if P.rows else [])):
            for kind in kinds:
                if 'inf' in kind and who == 'c' and k > 12 and cap <= 30:
                    continue
                if kind[0] == '?' and (cap <= 30 and k > P.n + 5 or k == 1 and kind in ('?short', '?long', '?nothing') and who == 'c'):
                    continue            # the number of values at the first evaluation defines the problem
                n = [0]

                def fault(kind=kind):
                    if kind == 'raise':
                        raise Boom('user')
                    return float(kind)

                def f(x):
                    n[0] += 1
                    if who == 'f' and n[0] == k:
                        return fault() if kind[0] != '?' else BAD[kind](P.f(x))
                    return P.f(x)

                def c(x):
                    v = P.c(x)
                    if who == 'c' and (n[0] == k or (kind[-1] == '*' and n[0] > k)):
                        if kind == 'raise':
                            raise Boom('user')
                        if kind[0] == '?':
                            return BAD[kind](v)
                        v[0 if '0' in kind else -1] = float(kind.rstrip('0last*'))
                    return v
                cp = lambda v: None if v is None else list(v)
                R = solve(f, c if P.rows else None, list(x0), cp(P.lb), cp(P.ub), P.me, P.mi, options(**o))
                r.evals += 1
                d = dict(evaluation=k, of=N, fault='%s %s' % (who, kind))
                if R.exc is not None:
                    r.bad('a failing user function escapes as %r' % R.exc, fp='escape', tb=R.tb, **d)
                    continue
                q = [p for p, v in R.fx]
                if 'inf' in kind and who == 'c':
                    # an infinite constraint value is a legal (very bad) value: the run goes on
                    r.count['infinite constraint'] += 1
                    if q[:k] != pts[:k]:
                        r.bad('evaluations before the infinite value differ', fp='cinf', **d)
                    if tuple(float(v) for v in vec(R.x)) not in {p for p, v in R.fx}:
                        r.bad('the returned point was never evaluated', fp='cinf', x=R.x, **d)
                    continue
                if R.flag != 3:
                    r.bad('failure not reported: flag %d' % R.flag, fp='flag', **d)
                if q != pts[:k]:
                    r.bad('%d evaluations instead of stopping at the failing one (%d)' % (len(q), k), fp='goeson', **d)
                    continue
                if k <= P.n + 1:
                    continue
                r.keys.add(h(spec, o, k, who, kind))
                x = tuple(float(v) for v in vec(R.x))
                good = {p: v for p, v in R.fx[:k - 1]}
                if x not in good:
                    r.bad('the returned point is not one that was evaluated successfully', fp='point', x=x, **d)
                    continue
                if float(R.info.f) != P.f(x):
                    r.bad('the reported value is not that of the returned point', fp='value', f=R.info.f, **d)
                if P.rows and not np.array_equal(vec(R.info.ce), np.array(P.c(x))):
                    r.bad('the reported constraints are not those of the returned point', fp='cvalue', ce=R.info.ce, **d)
                if not P.rows and float(R.info.f) > R.fx[0][1]:
                    r.bad('returned a point worse than the first one', fp='worse', **d)
                if not np.all(np.isfinite(vec(R.lm))):
                    r.bad('multipliers are not finite', fp='lm', **d)
        if len(r.viol) > 5:
            break
    return r

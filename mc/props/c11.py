"""C11: whatever the black box answers (every answer sequence over a small alphabet), the run stays sane."""
import itertools
import numpy as np
from mc.core import Res, h
from mc.drive import options, solve, vec

ID, LEVEL = 'C11', 'exploration'
RULE = ('closed system solver x environment: at each evaluation the environment picks the answer (objective and constraint '
        'values) from a finite alphabet; all answer sequences up to the depth are executed, afterwards the environment '
        'keeps one of two fixed behaviours (constant / growing with the distance); equal points get equal answers; '
        'non-trivial = all chosen answers were consumed; distinct = (environment, evaluated points, status)')
BOUNDS = ('n<=2; alphabets of 3-4 answers (negative, zero, positive, huge); depth 4-6 unconstrained, 3-5 bounded, 4 '
          'constrained (thorough: +2); 40 evaluations per run')
ASSUMPTIONS = ['answers are finite numbers and consistent (a function)']
AL = {'sign': [-1.0, 0.0, 1.0], 'huge': [0.0, 1.0, -1e12, 1e20], 'tiny': [0.0, 1e-14, -1e-14]}
CA = {'c': [(0.0, 0.0), (0.0, 1.0), (1.0, -1.0), (-1.0, 0.0)]}
DEPTHS = []


def confs(big):
    e = 1 if big else -1
    out = []
    for n, b in ((1, None), (1, [[-1], [1]]), (2, None), (2, [[-1, -1], [1, 1]])):
        for al in ('sign', 'huge', 'tiny'):
            d = (7 if al == 'sign' else 5 if al == 'huge' else 6) - (1 if b else 0) + e
            out.append((n, b, 0, 0, al, d, {}))
    for n, b in ((1, None), (2, None), (2, [[-1, -1], [1, 1]])):
        for me, mi in ((1, 0), (0, 1)):
            out.append((n, b, me, mi, 'c', 5 + e, {}))
    out.append((2, None, 0, 0, 'sign', 6 + e, {'hess_approx': 'bfgs'}))
    out.append((2, None, 1, 0, 'c', 5 + e, {'hess_approx': 'bfgs'}))
    out.append((2, None, 0, 0, 'sign', 6 + e, {'final_degree': 'linear'}))
    out.append((1, None, 0, 1, 'c', 5 + e, {'final_degree': 'linear'}))
    return out


def cases(tier):
    out = []
    for cf in confs(tier == 'thorough'):
        A = CA[cf[4]] if cf[4] in CA else AL[cf[4]]
        for pre in itertools.product(range(len(A)), repeat=2):
            out.append([list(cf), list(pre)])
    return out


FLAGS = {0, 3, 4, 5, 6, 7, 8, 9, 11, 15, 20, 21, 22, 30}


def run(case):
    (n, b, me, mi, al, depth, o), pre = case
    r = Res()
    con = al in CA
    A = CA[al] if con else AL[al]
    for rest in itertools.product(range(len(A)), repeat=depth - 2):
        seq = list(pre) + list(rest)
        for tail in ('const', 'far'):
            one(r, n, b, me, mi, A, con, seq, tail, o)
        if len(r.viol) > 5:
            break
    r.sample = dict(case=case)
    return r


def one(r, n, b, me, mi, A, con, seq, tail, o):
    memo, used = {}, [0]

    def ans(x):
        p = tuple(float(t) for t in x)
        if p not in memo:
            if used[0] < len(seq):
                memo[p] = A[seq[used[0]]]
                used[0] += 1
            else:
                q = 2.0 if tail == 'const' else 2.0 + sum(abs(t) for t in p)
                memo[p] = (q, q) if con else q
        return memo[p]
    f = (lambda x: ans(x)[0]) if con else ans
    c = (lambda x: [ans(x)[1]]) if con else None
    R = solve(f, c, [0.5] * n, b and list(b[0]), b and list(b[1]), me, mi, options(**dict(o, msimul=40, miter=40)))
    r.evals += 1
    d = dict(n=n, bounds=b, me=me, mi=mi, answers=[A[i] for i in seq], tail=tail, opts=o)
    if R.exc is not None:
        r.bad('the solver raised %r' % R.exc, fp='exc', tb=R.tb, **d)
        return
    if used[0] >= len(seq):
        r.keys.add(h(n, b, me, mi, tail, sorted(memo), R.flag, tuple(o)))
    if R.flag not in FLAGS:
        r.bad('undocumented status %r' % R.flag, fp='flag', **d)
    if len(R.fx) > 40 + (n + 1) * (n + 2) // 2:
        r.bad('%d evaluations with a limit of 40' % len(R.fx), fp='budget', **d)
    if int(R.info.niter) > 41:
        r.bad('%d iterations with a limit of 40' % R.info.niter, fp='budget', **d)
    x = tuple(float(t) for t in vec(R.x))
    if x not in memo:
        r.bad('the returned point was never evaluated', fp='point', x=x, **d)
        return
    want = memo[x][0] if con else memo[x]
    if float(R.info.f) != min(want, 1e25):
        # values above the internal cap (1e20 x the first value) may be reported capped
        cap = 1e20 * abs((R.fx[0][1]))
        if not (want > cap and float(R.info.f) == cap):
            r.bad('the reported value is not that of the returned point', fp='value', x=x, f=R.info.f, answered=want, **d)
    if con and abs(float(vec(R.info.ce)[0]) - memo[x][1]) > 1e-12:
        r.bad('the reported constraint value is not that of the returned point', fp='cvalue', x=x, ce=R.info.ce, **d)
    if not con and float(R.info.f) > R.fx[0][1]:
        r.bad('the returned point is worse than the first one', fp='worse', f=R.info.f, first=R.fx[0][1], **d)
    if not np.all(np.isfinite(vec(R.lm))):
        r.bad('multipliers are not finite', fp='lm', lm=R.lm, **d)
    if b is not None and (max(float(t) - u for t, u in zip(x, b[1])) > 2e-5 or max(l - float(t) for t, l in zip(x, b[0])) > 2e-5):
        r.bad('the returned point violates the bounds', fp='bounds', x=x, **d)

"""C07: an invalid request is refused without evaluating anything; no request alters what the caller passed."""
import copy
import itertools
import numpy as np
from mc.core import Res, h
from mc.drive import Problem, options, solve, vec, Opt
from mc import lattice as L

ID, LEVEL = 'C07', 'exploration'
RULE = ('every way of making a request invalid (missing pieces, contradictory or ill-sized bounds per component, NaN, each '
        'bad option value) is combined with every problem shape and silent/normal/loud output: the request must come back '
        'with the documented status and zero evaluations; every valid request (all container types, all ways of ending) '
        'must leave the caller\'s objects bit-identical; distinct = (defect, problem shape, verbosity, status)')
BOUNDS = '45-90 defects (NaN or wrong type of every option) x 24 problem shapes x 3 verbosities; 7 container types x 24 shapes x 4 ends for unchanged arguments'
ASSUMPTIONS = ['what is invalid is what the documentation and the option checker say']
BADOPT = [['dxmin', 0], ['dxmin', -1.0], ['dxmin', -1e-300], ['miter', 0], ['miter', -3], ['msimul', 0], ['msimul', -1], ['tol_grad', -1.0],
          ['tol_grad', -1e-12], ['tol_feas', -1.0], ['tol_feas', -1e-12], ['tol_bnds', -1e-12], ['tol_bnds', -2.0], ['inf', 0], ['inf', -1.0], ['hess_approx', 'newton'],
          ['hess_approx', ''], ['algo_descent', 'armijo'], ['algo_descent', ''], ['whichmodel', 'kriging'], ['whichmodel', ''],
          ['final_degree', 'cubic'], ['final_degree', ''], ['hess_approx', 'bfgsmodel'], ['whichmodel', 'l2'],
          ['final_degree', 'lin']]
NANOPT = [[k, w] for k in ('dxmin', 'inf', 'miter', 'msimul', 'tol_grad', 'tol_feas', 'tol_bnds', 'bfgs_restart') for w in ('NAN', 'LIST', 'None', '1')]
NANOPT += [[k, w] for k in ('hess_approx', 'algo_descent', 'whichmodel', 'final_degree') for w in ('NAN', 'ZERO', 'LIST', 'NONE')]
WORD = dict(NAN=float('nan'), LIST=[1.0, 2.0], NONE=None, ZERO=0)


def shapes():
    out = []
    for bk in ('none', 'unit', 'half'):
        for ck in ('none', 'line', 'half', 'eqin'):
            out.append(L.spec(2, [[2, 1], [1, 2]], [1, 0], b=L.B2[bk], c=L.C2[ck]))
    for b in L.B3.values():
        for c in L.C3.values():
            out.append(L.spec(3, L.H3['mix'], L.G3[0], b=b, c=c))
    return out


def cases(tier):
    out = []
    S = shapes()
    verbs = (0, 1, 4) if tier == 'quick' else range(7)
    for s in S:
        n = s['n']
        defects = [['f', None], ['x0', None], ['x0empty', None], ['x0nan', None], ['x0matrix', None]]
        if s['c']:
            defects.append(['c', None])
        else:
            defects += [['c+me', None], ['c+mi', None]]
        defects += [['me', w] for w in (-1, 1.5, -2.0)] + [['mi', w] for w in (-1, .5)] + [['me,mi', [2, -1]], ['me,mi', [-1, 2]]]
        for me, mi in itertools.product(range(4), repeat=2):
            if me + mi and me + mi != s['me'] + s['mi'] and s['c']:
                out += [['count', s, [me, mi], v] for v in verbs]
        defects += [['opt', o] for o in BADOPT + (NANOPT if tier == 'thorough' or s in S[:2] + S[-1:] else [])]
        for i in range(n):
            defects += [['cross', [i, g]] for g in (2.0, 1e-9)] + [['nanlb', i], ['nanub', i], ['crossinf', i]]
        defects += [['shortlb', k] for k in range(n)] + [['shortub', k] for k in range(n)]
        defects.append(['allfixed', None])
        for d in defects:
            for v in verbs:
                out.append(['bad', s, d, v])
        # pairs of defects: still refused
        for d1, d2 in itertools.combinations([['opt', BADOPT[0]], ['opt', BADOPT[7]], ['cross', [0, 2.0]], ['x0nan', None],
                                              ['shortlb', 0]], 2):
            out.append(['bad2', s, [d1, d2], 1])
        for cont in ('list', 'tuple', '1d', 'col', 'row', 'int', 'f32'):
            for end in ('ok', 'msimul', 'fault', 'refused'):
                out.append(['same', s, cont, end])
        for end in ('ok', 'msimul', 'refused'):
            out.append(['same', s, 'class', end])
    return out


class Boom(Exception):
    pass


def build(s, d, v):
    """arguments of a request with defect d"""
    P = Problem(s)
    n = s['n']
    a = dict(f=P.f, c=P.c if P.rows else None, x0=[1.0, 2.0, -1.0][:n], lb=list(P.lb or [-1e20] * n), ub=list(P.ub or [1e20] * n),
             me=P.me, mi=P.mi, o=dict(verbose=v))
    return a


def hurt(a, d, n):
    k, w = d
    flag = 1
    if k == 'f':
        a['f'] = None
    elif k == 'x0':
        a['x0'] = None
    elif k == 'x0empty':
        a['x0'] = []
    elif k == 'x0nan':
        a['x0'] = [float('nan')] + list(a['x0'])[1:] if a['x0'] else a['x0']
    elif k == 'x0matrix':
        a['x0'] = [[1.0, 2.0], [3.0, 4.0]]
        a['lb'], a['ub'] = [-5.0] * 4, [5.0] * 4
    elif k == 'c':
        a['c'] = None
    elif k == 'c+me':
        a['me'] = 1
    elif k == 'c+mi':
        a['mi'] = 1
    elif k in ('me', 'mi'):
        a[k] = w
    elif k == 'me,mi':
        a['me'], a['mi'] = w
    elif k == 'opt':
        a['o'] = dict(a['o'], **{w[0]: WORD.get(w[1], w[1]) if isinstance(w[1], str) else w[1]})
    elif k == 'cross':
        i, g = w
        a['ub'][i] = .25
        a['lb'][i] = .25 + g
        flag = 2
    elif k == 'crossinf':
        a['lb'][w], a['ub'][w] = 1e20, -1e20
        flag = 2
    elif k == 'nanlb':
        a['lb'][w] = float('nan')
    elif k == 'nanub':
        a['ub'][w] = float('nan')
    elif k == 'shortlb':
        a['lb'] = a['lb'][:w]
    elif k == 'shortub':
        a['ub'] = a['ub'][:w]
    elif k == 'allfixed':
        a['lb'] = a['ub'] = [.5] * n
        flag = 2
    return flag


def run(case):
    r = Res()
    kind, s, d, v = case
    n = s['n']
    r.sample = case
    if kind in ('bad', 'bad2'):
        a = build(s, d, v)
        flags = set()
        for dd in ([d] if kind == 'bad' else d):
            flags.add(hurt(a, dd, n))
        # silence the fixed-variable path: an f that counts
        calls = [0]
        f0 = a['f']
        f = None if f0 is None else f0
        R = solve_raw(f, a, calls)
        r.evals += 1
        r.keys.add(h(d, s, v, R[0]))
        if R[1] is not None:
            r.bad('an invalid request raised %r instead of being refused' % R[1], fp='exc', defect=d, verbose=v)
        elif R[0] not in flags:
            r.bad('an invalid request came back with status %s instead of %s' % (R[0], sorted(flags)), fp='status', defect=d, verbose=v)
        if calls[0]:
            r.bad('an invalid request was evaluated %d times' % calls[0], fp='evaluated', defect=d, verbose=v)
        return r
    if kind == 'count':           # the constraint function contradicts the stated numbers
        a = build(s, d, v)
        a['me'], a['mi'] = d
        calls = [0]
        R = solve_raw(a['f'], a, calls)
        r.evals += 1
        r.keys.add(h(case, R[0]))
        if R[1] is not None:
            r.bad('a wrong number of constraint values raised %r' % R[1], fp='exc', stated=d, verbose=v)
        elif R[0] not in (1, 2, 3):
            r.bad('a wrong number of constraint values came back with status %s' % R[0], fp='status', stated=d, verbose=v)
        if calls[0] > 2 * (n + 1):
            r.bad('%d evaluations with a wrong number of constraint values' % calls[0], fp='evaluated', stated=d, verbose=v)
        return r
    # arguments stay untouched
    P = Problem(s)
    x0, lb, ub = [1, 2, -1][:n], list(P.lb or [-9] * n), list(P.ub or [9] * n)
    if v == 'refused':
        lb[0], ub[0] = 3, 2
    mk = dict(list=lambda t: [float(q) for q in t], tuple=lambda t: tuple(float(q) for q in t), int=lambda t: np.array([int(round(max(-1e6, min(1e6, q)))) for q in t]))
    mk['1d'] = lambda t: np.array(t, float)
    mk['col'] = lambda t: np.array(t, float).reshape(-1, 1)
    mk['row'] = lambda t: np.array(t, float).reshape(1, -1)
    mk['class'] = mk['1d']
    mk['f32'] = lambda t: np.array(t, np.float32)
    args = [mk[d](t) for t in (x0, lb, ub)]
    li, ui = np.full(P.me + P.mi, -1e9), np.full(P.me + P.mi, 1e9)
    o = options(verbose=0, msimul=8 if v == 'msimul' else 60)
    if d == 'class':                      # the options are a class, not an object
        o = type('O', (), dict(vars(o), whichmodel='subbasis', hess_approx='bfgs'))
    before = copy.deepcopy((args, li, ui, {q: w for q, w in vars(o).items() if q[0] != '_'}))
    k = [0]

    def f(x):
        k[0] += 1
        if v == 'fault' and k[0] == n + 3:
            raise Boom()
        y = P.f(x)
        for i in range(len(x)):         # a user function may scribble over its argument
            x[i] = 777.0
        return y

    def c(x):
        y = P.c(x)
        for i in range(len(x)):
            x[i] = -777.0
        return y
    from mc.drive import fresh, optimize
    import contextlib, os
    fresh()
    r.evals += 1
    with contextlib.redirect_stdout(open(os.devnull, 'w')):
        optimize(o, f, args[0], args[1], args[2], P.me, P.mi, c if P.rows else None, li, ui)
    r.keys.add(h(case))
    for nm, was, now in zip(('start', 'lower bounds', 'upper bounds', 'constraint lower', 'constraint upper'),
                            list(before[0]) + [before[1], before[2]], args + [li, ui]):
        if type(was) is not type(now) or not np.array_equal(np.asarray(was), np.asarray(now)) \
                or np.shape(was) != np.shape(now) or (isinstance(was, np.ndarray) and was.dtype != now.dtype):
            r.bad('the caller\'s %s were changed by the call' % nm, fp='mutated', before=was, after=now)
    if {q: w for q, w in vars(o).items() if q[0] != '_'} != before[3]:
        r.bad('the caller\'s options were changed by the call', fp='mutated-options',
              changed={q: [before[3].get(q), vars(o).get(q)] for q in set(before[3]) | set(vars(o)) if before[3].get(q) != vars(o).get(q)})
    return r


def solve_raw(f, a, calls):
    """returns (flag, exception)"""
    from mc.drive import fresh, optimize
    import contextlib, os
    fresh()

    def F(x):
        calls[0] += 1
        return f(x)

    def C(x):
        calls[0] += 1
        return a['c'](x)
    o = options(**a['o'])
    for q, w in a['o'].items():
        setattr(o, q, w)
    with contextlib.redirect_stdout(open(os.devnull, 'w')):
        try:
            _, _, info = optimize(o, F if f is not None else None, a['x0'], a['lb'], a['ub'], a['me'], a['mi'],
                                  C if a['c'] is not None else None, None, None)
        except Exception as e:
            return None, e
    return int(info.flag), None

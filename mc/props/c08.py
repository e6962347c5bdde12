"""C08: equivalent ways of stating a problem give the same run (containers, number types, defaults, spellings)."""
import contextlib
import functools
import itertools
import os
import types
import numpy as np
from mc.core import Res, h
from mc.drive import Problem, fresh, optimize, vec, Opt
from mc import lattice as L

ID, LEVEL = 'C08', 'exploration'
RULE = ('for every problem shape, the reference call (plain lists, every argument and option explicit) is compared with '
        'every single-argument re-formulation and all pairs of re-formulations of (start, bounds): all evaluations made and '
        'everything returned must be bit-identical; distinct = (problem, re-formulation)')
BOUNDS = '23 problem shapes (n<=3) x 93 re-formulations'
ASSUMPTIONS = ['documented defaults are those of the option table; values in the alphabets are exactly representable']
FORM = {
    'list': lambda t: list(t), 'tuple': lambda t: tuple(t), '1d': lambda t: np.array(t, float),
    'col': lambda t: np.array(t, float).reshape(-1, 1), 'row': lambda t: np.array(t, float).reshape(1, -1),
    'nested': lambda t: [[v] for v in t], 'nestrow': lambda t: [list(t)], 'f32': lambda t: np.array(t, np.float32),
    'int': lambda t: [int(v) for v in t], 'i64': lambda t: np.array(t).astype(np.int64), 'i32col': lambda t: np.array(t).astype(np.int32).reshape(-1, 1),
    'fortran': lambda t: np.asfortranarray(np.array(t, float).reshape(-1, 1)), 'strided': lambda t: np.array(list(t) * 2, float)[:len(t)][::1],
    'rev': lambda t: np.array(list(t)[::-1], float)[::-1], 'matrix': lambda t: np.matrix(list(t)).T,
    'scalar': lambda t: t[0],
    'npscalars': lambda t: [np.float64(v) for v in t]}
whole = lambda v: int(v) if float(v).is_integer() else v
FRET = {'int': whole, 'npint': lambda v: np.int64(v) if float(v).is_integer() else v, 'np': np.float64, '0d': np.array, '1el': lambda v: [v], '1x1': lambda v: np.array([[v]])}
CRET = {'ints': lambda v: [whole(t) for t in v], 'i64': lambda v: np.array([whole(t) for t in v]), 'tuple': tuple, '1d': np.array, 'col': lambda v: np.array(v).reshape(-1, 1), 'row': lambda v: np.array(v).reshape(1, -1),
        'nested': lambda v: [[t] for t in v]}
DEFAULT = dict(hess_approx='model', algo_descent='powell', whichmodel='subbasis', final_degree='diagonal', bfgs_restart=0,
               tol_grad=1e-5, tol_feas=1e-5, tol_bnds=1e-5, dxmin=1e-8, miter=1000, msimul=1000, verbose=1, fout=1,
               inf=float('inf'))
OTHER = dict(hess_approx=['bfgs', 'model'], whichmodel=['subbasis', 'l2norm', 'regression'],
             final_degree=['linear', 'diagonal', 'quadratic'], algo_descent=['powell', 'wolfe'])


def spell(w):
    return [w.upper(), w.capitalize(), ' ' + w, w + '  ', w[:2] + ' ' + w[2:]]


def cases(tier):
    out = []
    S = []
    for bk in ('none', 'unit', 'pos'):
        for ck in ('none', 'line', 'half', 'eqin') + (('circ', 'quad', 'disc') if tier == 'thorough' else ()):
            S.append((L.spec(2, [[2, 1], [1, 2]], [1, 0], b=L.B2[bk], c=L.C2[ck]), [1, 2]))
    for b in (None, [[-1], [4]]):
        for c in ((0, 0, []), (0, 1, [['lin', [1], .5]])):
            S.append((L.spec(1, [[2]], [-3], b=b, c=c), [2]))
    for b in ([[-1, -1, -1], [1, 1, 1]], [[0, -2, -1], [4, 1, 2]]):
        for c in L.C3.values():
            S.append((L.spec(3, L.H3['mix'], L.G3[0], b=b, c=c), [1, 2, -1]))
    two = [['lin', [1, 1], -2], ['lin', [-1, -1], -2]]     # -2 <= x1+x2 <= 2
    for c in ((0, 2, two), (1, 2, [['lin', [1, -1], 1]] + two), (0, 3, two + [['lin', [1, 0], 0]])):
        S.append((L.spec(2, [[2, 1], [1, 2]], [1, 0], b=L.B2['none'], c=c), [1, 2]))
    for s, x0 in S:
        V = [['x0', k] for k in FORM if k != 'scalar'] + ([['x0', 'scalar'], ['lb', 'scalar'], ['ub', 'scalar']] if s['n'] == 1 and 'lb' in s else []) + [['fret', k] for k in FRET] + [['fcall', k] for k in ('object', 'partial', 'method', 'scribble')]
        if 'lb' in s:
            V += [['lb', k] for k in FORM if k != 'scalar'] + [['ub', k] for k in FORM if k != 'scalar']
            V += [['x0+lb+ub', [a, b, c]] for a, b, c in itertools.product(('tuple', 'col', 'row', 'i64', '1d'), repeat=3)
                  ] if tier == 'thorough' else [['x0+lb+ub', [a, b, c]] for a, b, c in itertools.product(('row', 'i64'), repeat=3)]
        else:
            V += [['nobounds', k] for k in ('none', 'lbnone', 'ubnone', 'inf', 'biginf')]
        if s['c']:
            V += [['cret', k] for k in CRET]
        V += [['li/ui', k] for k in ('explicit', 'explicit1e9', 'onesided-lower', 'onesided-upper', 'equalities') + (('twosided',) if s['mi'] > 1 else ())] if s['mi'] else []
        V += [['me/mi', k] for k in ('none', 'np', 'float0')]
        V += [['drop', k] for k in DEFAULT] + [['drop', 'all']] + [['drop', 'object']]
        V += [['drop2', list(k)] for k in itertools.combinations(sorted(DEFAULT), 2)] if tier == 'thorough' else []
        V += [['zerotol', k] for k in ('tol_grad', 'tol_feas', 'tol_bnds', 'loose tol_grad', 'loose tol_feas', 'loose tol_bnds')]
        for k, ws in OTHER.items():
            for w in ws:
                V += [['spell', [k, w, q]] for q in spell(w)] if tier == 'thorough' or len(s['c']) == 1 else []
        V += [['holder', k] for k in ('class', 'inherited', 'namespace', 'slots', 'dict', 'property')]
        V.append(['repeat', None])
        for v in V:
            out.append([s, x0, v])
    return out


_ref = {}


def go(s, x0, lb, ub, me, mi, o, li=None, ui=None, wrapf=None, wrapc=None):
    P = Problem(s)
    log, clog = [], []

    def f(x):
        log.append(tuple(float(t) for t in x))
        v = P.f(x)
        return v

    def c(x):
        clog.append(tuple(float(t) for t in x))
        return P.c(x)
    fresh()
    with contextlib.redirect_stdout(open(os.devnull, 'w')):
        x, lm, info = optimize(o, wrapf(f) if wrapf else f, x0, lb, ub, me, mi, (wrapc(c) if wrapc else c) if P.rows else None, li, ui)
    return (tuple(log), tuple(clog), tuple(vec(x)), np.shape(x), tuple(vec(lm)), np.shape(lm), int(info.flag), float(info.f),
            tuple(vec(info.ce)), int(info.niter), tuple(vec(info.nsimul)))


NAMES = ('points of f', 'points of c', 'x', 'shape of x', 'multipliers', 'shape of multipliers', 'status', 'f', 'constraints',
         'iterations', 'counters')


def mkopt(d):
    o = Opt()
    for k, v in d.items():
        setattr(o, k, v)
    return o


class Obj:
    def __init__(self, f):
        self.f = f

    def __call__(self, x):
        return self.f(x)

    def m(self, x):
        return self.f(x)


def scribble(f):
    def g(x):
        v = f(x)
        for i in range(len(x)):
            x[i] = 7e7
        return v
    return g


def run(case):
    s, x0, (kind, k) = case
    r = Res()
    n = s['n']
    lb, ub = s.get('lb', [-1e20] * n), s.get('ub', [1e20] * n)
    a = dict(s=s, x0=[float(t) for t in x0], lb=[float(t) for t in lb], ub=[float(t) for t in ub], me=s['me'], mi=s['mi'],
             o=mkopt(DEFAULT))
    b = dict(a)
    if kind in ('x0', 'lb', 'ub'):
        b[kind] = FORM[k](a[kind])
    elif kind == 'x0+lb+ub':
        for q, w in zip(('x0', 'lb', 'ub'), k):
            b[q] = FORM[w](a[q])
    elif kind == 'nobounds':
        b['lb'] = None if k in ('none', 'lbnone') else b['lb']
        b['ub'] = None if k in ('none', 'ubnone') else b['ub']
        if 'inf' in k:
            v = float('inf') if k == 'inf' else 1e25
            b['lb'], b['ub'] = [-v] * n, [v] * n
    elif kind == 'fret':
        b['wrapf'] = lambda f: (lambda x: FRET[k](f(x)))
    elif kind == 'cret':
        b['wrapc'] = lambda c: (lambda x: CRET[k](c(x)))
    elif kind == 'fcall':
        w = dict(object=Obj, partial=lambda f: functools.partial(lambda z, x: f(x), 0), method=lambda f: Obj(f).m, scribble=scribble)[k]
        b['wrapf'] = b['wrapc'] = w
    elif kind == 'li/ui':
        b['li'], b['ui'] = [-1e9] * (s['me'] + s['mi']), [1e9] * (s['me'] + s['mi'])
        if k == 'explicit':
            b['li'], b['ui'] = np.array(b['li']), tuple(b['ui'])
        elif k == 'onesided-lower':
            b['li'], b['ui'] = [0.0] * (s['me'] + s['mi']), [1e20] * (s['me'] + s['mi'])
        elif k == 'onesided-upper':
            b['li'], b['ui'] = [-1e20] * (s['me'] + s['mi']), [3.0] * (s['me'] + s['mi'])
        elif k == 'equalities':
            b['li'], b['ui'] = [0.0] * (s['me'] + s['mi']), [0.0] * s['me'] + [1e20] * s['mi']
        elif k == 'twosided':   # two of the returned constraints are the two sides of one stated inequality
            b['mi'] = s['mi'] - 1
            b['li'], b['ui'] = [0.0] * s['me'] + [-2.0] + [0.0] * (s['mi'] - 2), [0.0] * s['me'] + [2.0] + [1e20] * (s['mi'] - 2)
    elif kind == 'me/mi':
        f = dict(none=lambda v: v or None, np=np.int64, float0=lambda v: v)[k]
        b['me'], b['mi'] = f(s['me']), f(s['mi'])
    elif kind == 'drop':
        if k == 'all':
            b['o'] = None
        elif k == 'object':
            b['o'] = mkopt({})
        else:
            b['o'] = mkopt({q: v for q, v in DEFAULT.items() if q != k})
    elif kind == 'drop2':
        b['o'] = mkopt({q: v for q, v in DEFAULT.items() if q not in k})
    elif kind == 'holder':
        a['o'] = mkopt(dict(DEFAULT, msimul=n + 4))      # options that matter: they must be seen in every kind of holder
        D = vars(a['o'])
        if k == 'class':
            b['o'] = type('O', (), dict(D))
        elif k == 'inherited':
            b['o'] = type('O', (type('B', (), dict(D)),), {})()
        elif k == 'namespace':
            b['o'] = types.SimpleNamespace(**D)
        elif k == 'slots':
            b['o'] = type('O', (), dict(__slots__=tuple(D)))()
            for q in D:
                setattr(b['o'], q, D[q])
        elif k == 'dict':
            b['o'] = dict(D)
        elif k == 'property':
            b['o'] = type('O', (), {q: property(lambda self, q=q: D[q]) for q in D})()
    elif kind == 'zerotol':
        d = dict(DEFAULT) if not k.startswith('loose ') else dict(DEFAULT, **{t: 1e-3 for t in ('tol_grad', 'tol_feas', 'tol_bnds')})
        k = k.split()[-1]
        a['o'] = mkopt(dict(d, **{k: 1e-5}))
        b['o'] = mkopt(dict(d, **{k: 0}))
    elif kind == 'spell':
        a['o'] = mkopt(dict(DEFAULT, **{k[0]: k[1]}))
        b['o'] = mkopt(dict(DEFAULT, **{k[0]: k[2]}))
    key = repr((s, x0, vars(a['o'])))
    if key not in _ref:
        if len(_ref) > 50:
            _ref.clear()
        _ref[key] = go(**a)
        r.evals += 1
    got = go(**b)
    r.evals += 1
    r.keys.add(h(case))
    r.sample = dict(case=case, evaluations=len(got[0]))
    ref = _ref[key]
    if repr(ref) != repr(got):
        r.bad('%s %s: the run differs from that of the plain formulation' % (kind, k), fp='differs',
              in_=[nm for nm, u, v in zip(NAMES, ref, got) if repr(u) != repr(v)],
              plain=[ref[6], ref[7], ref[2]], this=[got[6], got[7], got[2]])
    if len(ref[0]) <= n + 1 and ref[6] != 0:
        r.bad('vacuous reference run', fp='vacuous')
    return r

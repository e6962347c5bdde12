"""C09: verbosity only changes what is printed; the printed figures and the history file are truthful and complete."""
import os
import re
import numpy as np
from mc.core import Res, h
from mc.drive import Problem, options, solve, solve_problem, vec
from mc import lattice as L

ID, LEVEL = 'C09', 'exploration'
RULE = ('every problem x option set x end (success, each kind of limit, failing function) is run at all seven verbosity '
        'levels; all runs must make the same evaluations and return the same bits; the history file and the printed '
        'summary are parsed and compared with the evaluation log; non-trivial = the run iterated; distinct = (problem, '
        'options, verbosity, exit flag)')
BOUNDS = '7 verbosity levels x 27 problem shapes (n<=3) x 7 option/fault variants'
ASSUMPTIONS = ['the history file is written for verbosity 1-3 (header and footer always)']


class Boom(Exception):
    pass


def cases(tier):
    out = []
    big = tier == 'thorough'
    for bi, bk in enumerate(['none', 'unit', 'half', 'inf'] + (['tiny', 'pos', 'lo'] if big else [])):
        b = [[float('-inf')] * 2, [float('inf')] * 2] if bk == 'inf' else L.B2[bk]
        for ck, c in L.C2.items():
            for vi, v in enumerate([{}, {'msimul': 7}, {'miter': 2}, {'hess_approx': 'bfgs'}, {'final_degree': 'linear'},
                                    {'_fault': 5}, {'_fault': 2}]):
                if not big and (bi + vi + len(ck)) % 2 and bk != 'inf':
                    continue
                out.append([L.spec(2, [[2, 1], [1, 2]], [1, 0], b=b, c=c), [1, 2], v])
    for b in L.B3.values():
        for c in L.C3.values():
            out.append([L.spec(3, L.H3['tri'], L.G3[0], b=b, c=c), [1, 2, -1], {}])
    for nl in ('rosen4', 'saddle'):
        for ck in ('none', 'circ', 'disc'):
            out.append([L.spec(2, nl=nl, b=L.B2['unit'], c=L.C2[ck]), [1, 2], {}])
    return out


ROW = re.compile(r'^[-+0-9.eEnaif]+$')


def parse_hist(txt):
    """rows of the history file, or an error text"""
    lines = [l.strip() for l in txt.replace('];', '\n];\n').split('\n')]
    lines = [l for l in lines if l]
    if not lines or not lines[0].startswith('function A=history'):
        return 'no header'
    if 'A=[' not in ' '.join(lines[:2]):
        return 'no matrix start'
    if lines[-1] != '];':
        return 'not closed'
    if sum(l == '];' for l in lines) != 1:
        return 'closed more than once'
    rows = []
    for l in lines[2:-1]:
        t = l.split()
        try:
            rows.append([float(v) for v in t])
        except ValueError:
            return 'unreadable row %r' % l
    return rows


def run(case):
    spec, x0, v = case
    spec = dict(spec)
    for k in ('lb', 'ub'):
        if k in spec:
            spec[k] = [float(t) for t in spec[k]]
    r = Res()
    P = Problem(spec)
    o = {k: t for k, t in v.items() if k[0] != '_'}
    ref = None
    for verb in range(7):
        if os.path.exists('convhist.m'):
            os.unlink('convhist.m')
        n = [0]

        def f(x):
            n[0] += 1
            if n[0] == v.get('_fault'):
                raise Boom()
            return P.f(x)
        cp = lambda t: None if t is None else list(t)
        R = solve(f, P.c if P.rows else None, list(x0), cp(P.lb), cp(P.ub), P.me, P.mi, options(**dict(o, verbose=verb)),
                  capture=True)
        r.evals += 1
        d = dict(verbose=verb)
        if R.exc is not None:
            r.bad('the solver raised %r' % R.exc, fp='exc', tb=R.tb, **d)
            continue
        ok = R.flag != 3 or len(R.fx) > P.n + 1
        key = (tuple(p for p, _ in R.fx), R.flag, tuple(vec(R.x)) if ok else None,
               tuple(vec(R.lm)) if ok else None, float(R.info.f) if ok else None, int(R.info.niter))
        if ref is None:
            ref = key
        elif key != ref:
            r.bad('verbosity %d changes the computation' % verb, fp='changes', changed=[
                w for w, a, b in zip(('points', 'flag', 'x', 'lm', 'f', 'niter'), key, ref) if a != b], **d)
        if len(R.fx) > P.n + 1:
            r.keys.add(h(case, verb, R.flag))
        hist(r, R, P, verb, d, ok)
        text(r, R, P, verb, d, ok)
    r.sample = dict(case=case, evaluations=len(ref[0]) if ref else 0)
    return r


def hist(r, R, P, verb, d, ok):
    if not os.path.exists('convhist.m'):
        r.bad('no history file', fp='nohist', **d)
        return
    rows = parse_hist(open('convhist.m').read())
    if isinstance(rows, str):
        r.bad('history file: ' + rows, fp='histformat', **d)
        return
    if verb not in (1, 2, 3):
        return
    width = 6 if P.rows else 5
    vals = [t for _, t in R.fx if t is not None]
    table = [[float(t) for t in m.groups() if t] for m in re.finditer(
        r'^ *(\d+) +(\d+) +([-+][0-9.enaif+-]+) +([-+][0-9.enaif+-]+) +([0-9.enaif+-]+)' + (r' +([0-9.enaif+-]+)' if P.rows else ''), R.out, re.M)]
    if verb < 3 and (len(table) != len(rows) or any(len(a) == len(b) and a != b for a, b in zip(table, rows))):
        r.bad('the history file and the printed table differ', fp='histtable', table=table, rows=rows, **d)
    r.count['table rows compared'] += len(table) if verb < 3 else 0
    last = (0, 0)
    for k, row in enumerate(rows):
        if len(row) != width:
            r.bad('history row with %d columns instead of %d' % (len(row), width), fp='histwidth', row=row, **d)
            return
        if not any(abs(row[2] - t) <= 2e-8 * abs(t) + 1e-300 for t in vals[:int(row[1])]):
            r.bad('history row reports an objective value that was not measured by then', fp='histf', row=row, **d)
        if (row[0], row[1]) < last or row[1] > len(R.fx) or row[0] < last[0] or row[1] < last[1]:
            r.bad('history counters run backwards or ahead', fp='histcount', row=row, previous=last, **d)
        last = (row[0], row[1])
        if not P.rows and abs(row[3] - row[2]) > 2e-8 * abs(row[2]) + 1e-9:
            r.count['merit!=f'] += 1
    if R.flag in (0, 5, 6, 15) and ok:
        if not rows:
            r.bad('a finished run left an empty history', fp='histempty', **d)
        else:
            fin = rows[-1]
            if int(fin[0]) != int(R.info.niter) or int(fin[1]) != len(R.fx):
                r.bad('the last history row is not the final state', fp='histlast', row=fin,
                      actual=[int(R.info.niter), len(R.fx), float(R.info.f)], **d)
            elif R.flag == 0 and abs(fin[4] - float(R.info.glagn)) > 1e-3 * abs(float(R.info.glagn)) + 1e-300:
                r.bad('the last history row has another gradient norm', fp='histgrad', row=fin, glagn=float(R.info.glagn), **d)
            elif R.flag == 0 and P.rows and abs(fin[5] - float(R.info.feasn)) > 1e-3 * abs(float(R.info.feasn)) + 1e-300:
                r.bad('the last history row has another infeasibility', fp='histfeas', row=fin, feasn=float(R.info.feasn), **d)
            elif R.flag == 0 and abs(fin[2] - float(R.info.f)) > 2e-8 * abs(float(R.info.f)) + 1e-300:
                r.bad('the last history row has another objective value', fp='histfinal', row=fin, f=float(R.info.f), **d)


def text(r, R, P, verb, d, ok):
    if verb == 0 or not ok:
        return
    m = re.search(r'Exit code\s+(-?\d+):\s*(.*)', R.out)
    if not m or int(m.group(1)) != R.flag:
        r.bad('printed exit code differs from the returned status %d' % R.flag, fp='exitcode',
              printed=m.group(0) if m else None, **d)
        return
    m2 = re.search(r'Final function value\s+([-+0-9.enaif]+)', R.out)
    if not m2 or abs(float(m2.group(1)) - float(R.info.f)) > 1e-5 * abs(float(R.info.f)) + 1e-300:
        r.bad('printed final value differs from the returned one', fp='finalf', printed=m2 and m2.group(1), f=float(R.info.f), **d)
    m3 = re.search(r'nbr of function evaluations\s+(\d+)', R.out)
    if not m3 or int(m3.group(1)) != len(R.fx):
        r.bad('printed number of evaluations is wrong', fp='printcount', printed=m3 and m3.group(1), actual=len(R.fx), **d)

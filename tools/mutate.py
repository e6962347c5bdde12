"""Development tool (used by no check): deterministic list of small mutants of the library, screened by the stable
tests, then run against the mapped checks.   mutate.py gen N OUT | mutate.py run LIST LOG [CHECKDIR]"""
import ast
import hashlib
import json
import os
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

SRC = '/repo/sqpdfo'
SKIP = {'__init__.py', 'version.py', 'helper.py', 'minq.py', 'minq_util.py', 'runtime.py', 'sqpdfo_init_prob.py', 'sqpdfo_values.py'}
MAP = {
    'bcdfo_augment_Y.py': 'C20', 'bcdfo_replace_in_Y.py': 'C20', 'bcdfo_include_in_Y.py': 'C20', 'sqpdfo_swap_in_Y.py': 'C20 C29',
    'bcdfo_build_QR_of_Y.py': 'C21 C20', 'bcdfo_computeLj.py': 'C21', 'bcdfo_computeP.py': 'C21', 'bcdfo_evalL.py': 'C21 C20',
    'bcdfo_evalP.py': 'C21', 'bcdfo_evalZ.py': 'C21', 'bcdfo_gradP.py': 'C21', 'bcdfo_hessP.py': 'C21', 'bcdfo_find_new_yj.py': 'C22 C23',
    'bcdfo_poisedness_Y.py': 'C22', 'bcdfo_repair_Y.py': 'C23', 'bcdfo_projgrad.py': 'C26', 'bcdfo_solve_TR_MS.py': 'C24',
    'bcdfo_solve_TR_MS_bc.py': 'C24 C28', 'blls.py': 'C26', 'sqpdfo_augmX_evalf.py': 'C30 C05', 'sqpdfo_bfgs_update.py': 'C27',
    'sqpdfo_check_cond.py': 'C27', 'sqpdfo_check_convex.py': 'C27', 'sqpdfo_computeHessian.py': 'C27 C13', 'sqpdfo_compute_multiplier.py': 'C26 C01',
    'sqpdfo_evalfgh.py': 'C30 C05', 'sqpdfo_find_smallf.py': 'C29 C14 C13', 'sqpdfo_finish.py': 'C09', 'sqpdfo_func.py': 'C30 C05 C08',
    'sqpdfo_global_variables.py': 'C06', 'sqpdfo_iter_printout.py': 'C09', 'sqpdfo_optimality.py': 'C26 C01', 'sqpdfo_options.py': 'C07 C08',
    'sqpdfo_solve_TR_bc.py': 'C28 C02 C13 C14', 'sqpdfo_truncated_cg.py': 'C25',
    'sqpdfo.py': 'C07 C08 C33 C09 C03 C02 C10 C01', 'sqpdfo_prelim.py': 'C07 C33 C03 C02 C10 C04 C05 C01 C09 C11', 'sqpdfo_main.py': 'C14 C13 C03 C02 C04 C10 C05 C09 C01 C11'}


class V(ast.NodeVisitor):
    def __init__(self, src):
        self.src, self.out = src, []
        self.lines = src.split('\n')

    def seg(self, n):
        return ast.get_source_segment(self.src, n)

    def add(self, n, new):
        a = self.pos(n.lineno, n.col_offset)
        b = self.pos(n.end_lineno, n.end_col_offset)
        self.out.append((n.lineno, a, b, new))

    def pos(self, l, c):
        return sum(len(x.encode()) + 1 for x in self.lines[:l - 1]) + c

    def visit_Compare(self, n):
        if len(n.ops) == 1:
            L, R = self.seg(n.left), self.seg(n.comparators[0])
            t = {ast.Lt: ['<=', '>'], ast.LtE: ['<'], ast.Gt: ['>=', '<'], ast.GtE: ['>'], ast.Eq: ['!='], ast.NotEq: ['==']}.get(type(n.ops[0]), [])
            for o in t:
                self.add(n, '%s %s %s' % (L, o, R))
        self.generic_visit(n)

    def visit_BinOp(self, n):
        if isinstance(n.left, ast.Constant) and isinstance(n.left.value, str):
            return
        t = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*'}.get(type(n.op))
        if t:
            self.add(n, '%s %s %s' % (self.seg(n.left), t, self.seg(n.right)))
        self.generic_visit(n)

    def visit_UnaryOp(self, n):
        if isinstance(n.op, (ast.USub, ast.Not)):
            self.add(n, '(%s)' % self.seg(n.operand))
        self.generic_visit(n)

    def visit_Constant(self, n):
        v = n.value
        if isinstance(v, bool):
            self.add(n, str(not v))
        elif isinstance(v, int):
            self.add(n, str(v + 1))
            if v > 0:
                self.add(n, str(v - 1))
        elif isinstance(v, float):
            self.add(n, repr(v * 2))
            self.add(n, repr(v / 10))

    def visit_BoolOp(self, n):
        o = ' or ' if isinstance(n.op, ast.And) else ' and '
        self.add(n, '(' + o.join('(%s)' % self.seg(v) for v in n.values) + ')')
        self.generic_visit(n)

    def visit_Call(self, n):
        if isinstance(n.func, ast.Name):
            s = {'max_': 'min_', 'min_': 'max_', 'logical_or_': 'logical_and_', 'logical_and_': 'logical_or_', 'copy': ''}.get(n.func.id)
            if n.func.id in ('fprintf_', 'print', 'disp_'):
                return
            if s:
                self.add(n.func, s)
        self.generic_visit(n)

    def visit_Assign(self, n):
        self.add(n, 'pass')
        self.generic_visit(n)

    def visit_AugAssign(self, n):
        self.add(n, 'pass')
        self.generic_visit(n)

    def visit_If(self, n):
        c = self.seg(n.test)
        if 'verb' in c:
            return
        self.add(n.test, '(not (%s))' % c)
        self.generic_visit(n)

    def visit_Name(self, n):
        if isinstance(n.ctx, ast.Load):
            s = {'xl': 'xu', 'xu': 'xl', 'lb': 'ub', 'ub': 'lb', 'i': 'j', 'j': 'i', 'me': 'mi', 'mi': 'me', 'x': 'x0', 'fxplus': 'fx'}.get(n.id)
            if s:
                self.add(n, s)


def gen(N, out):
    """N mutants per 100 lines (at least 3 per file), chosen by hash order"""
    res = []
    for f in sorted(os.listdir(SRC)):
        if not f.endswith('.py') or f in SKIP:
            continue
        s = open(os.path.join(SRC, f)).read()
        v = V(s)
        v.visit(ast.parse(s))
        ms = sorted(set(v.out), key=lambda m: hashlib.md5((os.environ.get('SALT', '') + repr((f,) + m)).encode()).hexdigest())
        code = len([1 for l in s.split('\n') if l.strip() and not l.strip().startswith('#')])
        k = max(3, int(N * code / 100))
        for m in ms[:k]:
            res.append(dict(file=f, line=m[0], a=m[1], b=m[2], new=m[3]))
    json.dump(res, open(out, 'w'))
    print(len(res))


def apply(m, dst):
    p = os.path.join(dst, 'sqpdfo', m['file'])
    b = open(p, 'rb').read()
    old = b[m['a']:m['b']]
    nb = b[:m['a']] + m['new'].encode() + b[m['b']:]
    try:
        compile(nb, p, 'exec')
    except SyntaxError:
        return None
    open(p, 'wb').write(nb)
    return old.decode()


ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', PYTHONPATH='/opt/vp/plugins', OPENBLAS_NUM_THREADS='1', OPENBLAS_CORETYPE='Nehalem')


def tests(dst):
    try:
        p = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', '-p', 'vp_seed', '-W', 'ignore', '--tb=no',
                            '--timeout=60', '--ignore=tests/test_sqpdfo_all.py', 'tests'], cwd=dst, env=ENV, capture_output=True, timeout=120)
        return p.returncode == 0
    except subprocess.TimeoutExpired:
        return False


def screen(lst, out):
    ms = json.load(open(lst))

    def one(km):
        k, m = km
        dst = '/tmp/mut/w%d' % k
        shutil.rmtree(dst, ignore_errors=True)
        shutil.copytree(os.environ.get('BASE', '/repo'), dst, ignore=shutil.ignore_patterns('.git', 'docs'))
        try:
            old = apply(m, dst)
            if old is None:
                return None
            m['old'] = old
            return m if tests(dst) else None
        finally:
            shutil.rmtree(dst, ignore_errors=True)
    with ThreadPoolExecutor(8) as ex:
        res = [m for m in ex.map(one, enumerate(ms)) if m]
    json.dump(res, open(out, 'w'), indent=0)
    print(len(ms), 'mutants', len(res), 'pass the tests')


def run(lst, log, vdir):
    ms = json.load(open(lst))
    done = {}
    if os.path.exists(log):
        for l in open(log):
            d = json.loads(l)
            done[d['key']] = 1
    for m in ms:
        key = '%s:%d:%d:%s' % (m['file'], m['line'], m['a'], m['new'])
        if key in done:
            continue
        dst = os.environ.get('DST', '/tmp/mut/run')
        shutil.rmtree(dst, ignore_errors=True)
        shutil.copytree(os.environ.get('BASE', '/repo'), dst, ignore=shutil.ignore_patterns('.git', 'docs'))
        if apply(m, dst) is None:
            continue
        killed = None
        for c in MAP[m['file']].split():
            try:
                p = subprocess.run([vdir + '/check', c], env=dict(os.environ, SQPDFO_REPO=dst), capture_output=True, text=True, timeout=600)
                rc = p.returncode
            except subprocess.TimeoutExpired:
                rc = 'timeout'
            if rc == 1 and 'VIOLATION' in p.stdout:
                killed = c
                break
            if rc not in (0, 1):
                killed = '%s?%s' % (c, rc)
                break
        with open(log, 'a') as f:
            f.write(json.dumps(dict(key=key, file=m['file'], line=m['line'], old=m['old'], new=m['new'], killed=killed)) + '\n')
    shutil.rmtree('/tmp/mut/run', ignore_errors=True)


if __name__ == '__main__':
    if sys.argv[1] == 'gen':
        gen(float(sys.argv[2]), sys.argv[3])
    elif sys.argv[1] == 'screen':
        screen(sys.argv[2], sys.argv[3])
    else:
        run(sys.argv[2], sys.argv[3], sys.argv[4])

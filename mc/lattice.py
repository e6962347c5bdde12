"""The finite problem alphabets used by the end-to-end checks."""
INF = 1e20
H2 = {'id': [[2, 0], [0, 2]], 'cross': [[2, 1], [1, 2]], 'skew': [[4, 1], [1, 1]], 'ill': [[1, 0], [0, 10]],
      'neg': [[2, -1], [-1, 3]]}
H2x = {'zero': [[0, 0], [0, 0]], 'indef': [[-1, 0], [0, 1]], 'semi': [[1, 0], [0, 0]], 'conc': [[-1, 0], [0, -2]]}
H3 = {'id': [[2, 0, 0], [0, 2, 0], [0, 0, 2]], 'tri': [[2, -1, 0], [-1, 2, -1], [0, -1, 2]],
      'mix': [[4, 1, 0], [1, 1, 0], [0, 0, 3]]}
G2 = [[0, 0], [1, 0], [-2, 1], [3, -4]]
G3 = [[1, -1, 2], [0, 3, -2]]
B2 = {'none': None, 'unit': [[-1, -1], [1, 1]], 'pos': [[0, 0], [5, 5]], 'half': [[-INF, .5], [.25, INF]],
      'tiny': [[-.3, -.4], [.2, .1]], 'lo': [[-.5, -INF], [INF, INF]]}
B3 = {'none': None, 'unit': [[-1, -1, -1], [1, 1, 1]], 'mixed': [[0, -INF, -.25], [INF, .5, 2]]}
X2 = [[0, 0], [1, 2], [-3, .5]]
X3 = [[0, 0, 0], [1, 2, -1]]
C2 = {
    'none': (0, 0, []),
    'line': (1, 0, [['lin', [1, 1], 1]]),
    'circ': (1, 0, [['circ', 1]]),
    'two': (2, 0, [['lin', [1, 0], .25], ['lin', [1, 2], 1]]),
    'half': (0, 1, [['lin', [1, 1], 1]]),
    'disc': (0, 1, [['disc', 1]]),
    'quad': (0, 2, [['lin', [1, 0], 0], ['lin', [0, 1], 0]]),
    'wedge': (0, 2, [['lin', [1, -1], -.5], ['lin', [-1, 0], -1]]),
    'eqin': (1, 1, [['lin', [1, -1], 0], ['lin', [-1, 0], -1]]),
}
C3 = {'none': (0, 0, []), 'plane': (1, 0, [['lin', [1, 1, 1], 1]]),
      'two': (2, 0, [['lin', [1, 1, 0], .5], ['lin', [0, 1, -1], 0]]),
      'half': (0, 1, [['lin', [1, 1, 1], 1]]), 'eqin': (1, 1, [['lin', [1, 0, -1], .25], ['lin', [0, 1, 1], 0]])}


def spec(n, H=None, g=None, nl=None, b=None, c=(0, 0, [])):
    s = dict(n=n, me=c[0], mi=c[1], c=c[2])
    if nl:
        s['nl'] = nl
    else:
        s['H'], s['g'] = H, g
    if b:
        s['lb'], s['ub'] = b
    return s


def large(n, big=False):
    """(label, spec, start) for more variables: coupled Hessians, all kinds of bounds, 0..2 linear constraints"""
    I = range(n)
    tri = [[2.0 if i == j else -1.0 if abs(i - j) == 1 else 0.0 for j in I] for i in I]
    far = [[3.0 if i == j else 1.0 if abs(i - j) == n - 1 else -1.0 if abs(i - j) == 2 else 0.0 for j in I] for i in I]
    diag = [[float(1 + i) if i == j else 0.0 for j in I] for i in I]
    gs = [[float((3 * k) % 5 - 2) for k in I], [float(-1 if k else 3) for k in I]]
    bs = {'none': None, 'unit': [[-1] * n, [1] * n],
          'mixed': [[(0, -INF, -.25)[k % 3] for k in I], [(INF, .5, 2)[k % 3] for k in I]],
          'last': [[-INF] * (n - 1) + [.25], [INF] * n]}
    cs = {'none': (0, 0, []), 'plane': (1, 0, [['lin', [1] * n, 1]]),
          'two': (2, 0, [['lin', [1] + [0] * (n - 2) + [1], .5], ['lin', [0, 1] + [-1] * (n - 2), 0]]),
          'half': (0, 1, [['lin', [1] * n, 1]])}
    xs = [[0] * n, [(1, 2, -1)[k % 3] for k in I]]
    out = []
    for hi, (hk, H) in enumerate({'tri': tri, 'far': far, 'diag': diag}.items()):
        for gi, g in enumerate(gs):
            for bi, (bk, b) in enumerate(bs.items()):
                for ci, (ck, c) in enumerate(cs.items()):
                    for xi, x in enumerate(xs):
                        if big or (hi + gi + bi + ci + xi) % 2 == 0:
                            out.append(['%d%s/%d/%s/%s/%d' % (n, hk, gi, bk, ck, xi), spec(n, H, g, b=b, c=c), x])
    return out

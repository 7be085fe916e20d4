"""C04: forward transform = quadrature sum against the orthonormal basis."""
import numpy as np
from common import *
NATIVE = ['hermite::transform / _transform', 'hermite_eval', 'fourier_eval', 'index-set iterators', 'integrate']
def configs(tier):
    T = tier == 'thorough'
    out = []
    def add(**k): out.append(k)
    for s in SETS:
        for four in ([0], [1]):
            for deg in ((1, 2, 4, 7, 12) if not four[0] else (2, 4, 8)) + ((20, 30) if T and not four[0] else ()):
                add(s=s, four=four, deg=deg, n=[3])
        for four in ([0, 0], [0, 1], [1, 0], [1, 1]):
            for deg in ((2, 4) if any(four) else (1, 2, 3, 5)) + ((8,) if T else ()):
                add(s=s, four=four, deg=deg, n=[2, 3])
        for four in ([0, 0, 0], [0, 0, 1], [0, 1, 0], [1, 0, 0], [1, 1, 0], [1, 1, 1]):
            add(s=s, four=four, deg=2, n=[2, 1, 3])
            if not any(four): add(s=s, four=four, deg=3, n=[1, 3, 2])
            if T: add(s=s, four=four, deg=4, n=[2, 3, 2])
        for four in ([0, 0, 0, 0], [0, 1, 0, 1]):
            add(s=s, four=four, deg=2, n=[2, 1, 2, 1])
    return out
def cases(tier):
    out = []
    for c in configs(tier):
        # values and weights symbolic, nodes concrete
        out.append(dict(c, sym='fw'))
        if sum(c['n']) <= 3 and c['deg'] <= 5 or (len(c['n']) == 2 and c['deg'] <= 2):
            out.append(dict(c, sym='x'))
    if tier == 'quick':
        pass
    return out
BOUNDS = {'dimension': '1..4', 'degree': 'Hermite <= 12 (thorough 30), Fourier <= 8', 'grid': 'up to 3 points per direction, unequal',
          'values, weights': 'all of [-1,1], symbolic', 'nodes': 'fixed generic values with values/weights symbolic; all of [-1,1] symbolic for small degree'}
def nodes_of(ctx, case):
    n = case['n']
    if case['sym'] == 'x':
        return [ctx.array('x%d' % d, n[d]) for d in range(len(n))]
    return [np.array([(-1) ** i * (0.37 + 0.41 * i + 0.13 * d) for i in range(n[d])]) for d in range(len(n))]
def run(ctx, case):
    import hermipy.core as core
    dim, n, deg, four, s = len(case['n']), case['n'], case['deg'], case['four'], case['s']
    x = nodes_of(ctx, case)
    w = [ctx.array('w%d' % d, n[d]) for d in range(dim)]
    N = int(np.prod(n))
    f = ctx.array('f', N)
    c = core.transform(deg, f, x, w, True, do_fourier=four, index_set=s)
    L = listing(core, s, dim, deg)
    ctx.eq(c, sp_forward(L, f, x, w, four, deg), 'coefficients')

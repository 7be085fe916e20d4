"""C06: integration is the weighted sum over the tensor grid."""
import itertools
import numpy as np
from common import *
NATIVE = ['integrate', 'transform (degree 0)']
BOUNDS = {'dimension': '1..5', 'grid': 'up to 5 points per direction, unequal', 'values, weights, nodes': 'all of [-1,1] (weights, values) and [-10,10] (nodes), symbolic'}
def cases(tier):
    out = []
    shapes = [[1], [2], [5], [1, 1], [2, 3], [3, 2], [1, 4], [2, 2, 3], [3, 1, 2], [2, 1, 2, 3]]
    if tier == 'thorough': shapes += [[9], [5, 4], [4, 3, 5], [2, 2, 2, 2, 2]]
    for n in shapes:
        for four in itertools.product((0, 1), repeat=len(n)):
            out.append({'n': n, 'four': list(four)})
        out.append({'n': n, 'four': None})
    return out
def run(ctx, case):
    import hermipy.core as core
    n = case['n']; dim = len(n)
    x = [ctx.array('x%d' % d, n[d], -10, 10) for d in range(dim)]
    w = [ctx.array('w%d' % d, n[d]) for d in range(dim)]
    f = ctx.array('f', int(np.prod(n)))
    r = core.integrate(f, x, w, do_fourier=case['four'])
    ref = np.float64(0.0)
    for i, p in enumerate(grid(n)):
        t = f[i]
        for d in range(dim): t = t * w[d][p[d]]
        ref = ref + t
    ctx.eq(r, ref, 'integral')

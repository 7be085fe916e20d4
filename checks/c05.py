"""C05: backward transform evaluates the series at the nodes, independently of the weights."""
import numpy as np
from common import *
import c04
NATIVE = ['transform (backward)', 'hermite_eval', 'fourier_eval', 'index-set iterators']
BOUNDS = c04.BOUNDS
def cases(tier):
    out = []
    for c in c04.configs(tier):
        out.append(dict(c, sym='cw'))
        if sum(c['n']) <= 3 and c['deg'] <= 5 or (len(c['n']) == 2 and c['deg'] <= 2): out.append(dict(c, sym='x'))
    return out
def run(ctx, case):
    import hermipy.core as core
    dim, n, deg, four, s = len(case['n']), case['n'], case['deg'], case['four'], case['s']
    x = c04.nodes_of(ctx, case)
    w = [ctx.array('w%d' % d, n[d]) for d in range(dim)]
    L = listing(core, s, dim, deg)
    c = ctx.array('c', len(L))
    v = core.transform(deg, c, x, w, False, do_fourier=four, index_set=s)
    ctx.eq(v, sp_backward(L, c, x, four, deg), 'values')

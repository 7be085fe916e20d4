"""C07: discretisation samples the function at translation + dilation * node."""
import itertools
import numpy as np
from common import *
NATIVE = ['discretize', 'map_point', 'intern_function', 'discretize_from_string', 'Grid_iterator']
BOUNDS = {'dimension': '1..4', 'grid': 'up to 4 points per direction, unequal', 'nodes, translation, dilation': 'symbolic in [-1,1]',
          'function': 'an arbitrary function of one coordinate (uninterpreted), products and polynomial couplings of them; expressions of up to 2500 characters that differ only at the end, the beginning or the middle'}
EXPR = {1: ['v[0]', 'erf(v[0])', 'erf(v[0])*v[0] + 2', 'atan(v[0])'],
        2: ['v[0]', 'v[1]', 'v[0]*v[0]*v[1] - 3*v[1]', 'v[0] + 10*v[1]'],
        3: ['v[0] + 10*v[1] + 100*v[2]', 'v[0]*v[1] - v[2]'],
        4: ['v[0] + 10*v[1] + 100*v[2] + 1000*v[3]']}
def long(k):
    # pairs of long expressions: a common beginning, or a common end
    body = ' + '.join('%d.5*v[0]' % (i + 1) for i in range(90))
    return [body + ' + erf(v[0])', body + ' + atan(v[0])', 'erf(v[0]) + ' + body, 'atan(v[0]) + ' + body, body + ' + erf(v[0]) + ' + body, body + ' + atan(v[0]) + ' + body][k]
def cases(tier):
    out = []
    shapes = [[1], [4], [1, 1], [2, 3], [3, 2], [1, 4], [2, 2, 3], [3, 1, 2], [2, 1, 2, 3]]
    if tier == 'thorough': shapes += [[7], [4, 5], [3, 3, 4], [2, 3, 2, 2]]
    for n in shapes:
        for e in range(len(EXPR[len(n)])):
            out.append({'n': n, 'e': [e]})
        k = len(EXPR[len(n)])
        if k > 1: out.append({'n': n, 'e': list(range(k)) + [0]})
    for e in ([0, 1], [2, 3], [1, 0, 1], [4, 5], [5, 3, 1]): out.append({'n': [2], 'e': e, 'long': 1})
    for i in range(4): out.append({'n': [2], 'bad': i, 'e': []}); out.append({'n': [1, 2], 'bad': i, 'e': []})
    return out
BAD = ['q0 + v[0]', 'v[0] +', 'nosuchfunction(v[0])', 'v[0])']
def fun(e, v):
    from scipy.special import erf
    return eval(e, {'v': v, 'erf': UF('erf'), 'atan': UF('atan')})
class UF:
    def __init__(self, n): self.n = n
    def __call__(self, x):
        import ctxs
        return ctxs.uf(self.n, x)
def run(ctx, case):
    import hermipy.core as core
    n = case['n']; dim = len(n)
    x = [ctx.array('x%d' % d, n[d]) for d in range(dim)]
    t = ctx.array('t', dim)
    D = ctx.array('D', (dim, dim))
    if 'bad' in case:
        # an expression that does not compile raises, and a good one still works afterwards
        b = BAD[case['bad']]
        ctx.raises(lambda: core.discretize(b, x, t, D), 'discretising ' + b)
        case = dict(case, e=[0])
    for e in case['e']:
        ex = EXPR[dim][e] if 'long' not in case else long(e)
        r = core.discretize(ex, x, t, D)
        ref = []
        for p in grid(n):
            v = [ssum([t[i]] + [D[i, j] * x[j][p[j]] for j in range(dim)]) for i in range(dim)]
            ref.append(fun(ex, v))
        ctx.eq(r, np.array(ref), 'values of ' + ex)

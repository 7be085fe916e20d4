"""C12: variational matrix = basis moments of the function."""
import itertools
import numpy as np
from common import *
NATIVE = ['varf<boost_mat>', 'varf<spmat>', '_transform', 'triple_products_1d', 'triple_products_fourier', '_tensorize_mats_axes', 'to_numpy', 'row_col_val']
BOUNDS = {'dimension': '1..3', 'degree': '1..6', 'grid': 'up to 3 points per direction', 'grid values': 'symbolic in [-1,1]', 'paths': 'coefficients crossing the dropping threshold explored by branch flipping'}
OPT = {'paths': 8, 'qtime': 3, 'timeout': 40}
def cases(tier):
    T = tier == 'thorough'
    out = []
    for s in SETS:
        for four, degs, n in (([0], (1, 2, 3, 6) + ((12, 20) if T else ()), [3]), ([1], (2, 4) + ((8, 12) if T else ()), [3]),
                              ([0, 0], (1, 2, 3), [2, 2]), ([0, 1], (2,), [2, 2]), ([1, 0], (2,), [1, 3]), ([1, 1], (2,) + ((4,) if T else ()), [2, 2]),
                              ([0, 0, 0], (1,) + ((2,) if T else ()), [2, 1, 2]), ([1, 0, 0], (2,) if T else (), [1, 2, 2]), ([0, 1, 0], (2,) if s in ('triangle', 'cross', 'rectangle') else (), [1, 2, 2])):
            for deg in degs:
                for sparse in (False, True):
                    out.append({'s': s, 'four': four, 'deg': deg, 'n': n, 'sparse': sparse, 'one': False})
                if s in ('triangle', 'cube'): out.append({'s': s, 'four': four, 'deg': deg, 'n': n, 'sparse': deg % 2 == 0, 'one': True, 'paths': 6})
    # large values: the threshold is relative to the norm
    for s, four, n in (('triangle', [0], [3]), ('cube', [1], [3]), ('triangle', [0, 0], [2, 2]), ('cross', [0, 1], [2, 2])):
        for sparse in (False, True): out.append({'s': s, 'four': four, 'deg': 2, 'n': n, 'sparse': sparse, 'one': False, 'big': 1e11})
    return out
def run(ctx, case):
    import hermipy.core as core
    import scipy.sparse as ss
    s, four, deg, n = case['s'], case['four'], case['deg'], case['n']
    dim = len(n)
    x = [np.array([(-1) ** i * (0.37 + 0.41 * i + 0.13 * d) for i in range(n[d])]) for d in range(dim)]
    w = [np.array([0.9 - 0.17 * i + 0.05 * d for i in range(n[d])]) for d in range(dim)]
    N = int(np.prod(n))
    f = ctx.array('f', N) if not case['one'] else np.array([ctx.var('f_0')] + [0.3 * (-1) ** i for i in range(1, N)])
    f = f * case.get('big', 1.0)
    A = core.varf(deg, f, x, w, sparse=case['sparse'], do_fourier=four, index_set=s)
    ctx.true(ss.issparse(A) == case['sparse'], 'storage kind')
    L, K = listing(core, s, dim, deg), listing(core, s, dim, 2 * deg)
    c = sp_forward(K, f, x, w, four, 2 * deg)
    ref = np.zeros((len(L), len(L)))
    for i, m in enumerate(L):
        for j, l in enumerate(L):
            r = np.float64(0.0)
            for q, k in enumerate(K):
                t = 1.0
                for d in range(dim):
                    t *= triple(four[d], k[d], m[d], l[d])
                    if not t: break
                if t: r = r + c[q] * t
            ref[i, j] = r
    ctx.eq(A, ref, 'matrix')

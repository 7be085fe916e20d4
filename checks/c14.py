"""C14: triple products are the exact integrals."""
import numpy as np
from common import *
NATIVE = ['triple_products_1d', 'triple_products_fourier']
BOUNDS = {'degree': 'Hermite 0..20 (thorough 40), Fourier 0..16 (thorough 30)', 'entries': 'all'}
def cases(tier):
    T = tier == 'thorough'
    return [{'four': 0, 'deg': d} for d in range(0, 41 if T else 21)] + [{'four': 1, 'deg': d} for d in range(0, 31 if T else 17, 2)]
def run(ctx, case):
    import hermipy.core as core
    deg, four = case['deg'], case['four']
    T = (core.triple_products_fourier if four else core.triple_products)(deg)
    ctx.true(T.shape == (2 * deg + 1, deg + 1, deg + 1), 'shape of the triple products')
    # the entries are the coefficients of a trilinear form in symbolic vectors
    k = ctx.array('p', 2 * deg + 1)
    E = np.array([[[triple(four, c, i, j) for j in range(deg + 1)] for i in range(deg + 1)] for c in range(2 * deg + 1)])
    A = (T * k[:, None, None]).sum(axis=0); B = (E * k[:, None, None]).sum(axis=0)
    ctx.eq(A, B, 'contraction with an arbitrary vector', tol=1e-9)

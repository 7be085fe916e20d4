"""C13: differentiated variational matrix."""
import itertools
import numpy as np
from common import *
NATIVE = ['varfd<boost_mat>', 'varfd<spmat>', 'to_boost_mat', 'to_spmat', 'index-set iterators (has, index)']
BOUNDS = {'dimension': '1..4', 'degree': '1..8', 'direction': 'every direction', 'matrix entries': 'symbolic in [-1,1], full, triangular and banded patterns'}
OPT = {'paths': 2}
def cases(tier):
    T = tier == 'thorough'
    out = []
    for s in SETS:
        for dim in (1, 2, 3, 4):
            for deg in {1: (1, 2, 4, 8), 2: (1, 2, 3, 4), 3: (1, 2), 4: (1,)}[dim] + ((6,) if T and dim < 3 else ()):
                for d in range(dim):
                    for four in (0, 1):
                        if four and deg % 2: continue
                        for kind in ('dense', 'sparse', 'band'):
                            if dim > 2 and kind == 'dense' and deg > 1 and s == 'cube' and not T: continue
                            out.append({'s': s, 'dim': dim, 'deg': deg, 'd': d, 'four': four, 'kind': kind})
    return out
def run(ctx, case):
    import hermipy.core as core
    s, dim, deg, d, four, kind = (case[k] for k in ('s', 'dim', 'deg', 'd', 'four', 'kind'))
    L = listing(core, s, dim, deg); P = pos(L); n = len(L)
    A = pattern(ctx, 'a', n, keep={'dense': lambda i, j: True, 'sparse': lambda i, j: (2 * i + j) % 3 != 0, 'band': lambda i, j: j - i in (0, 1, -2)}[kind])
    R = core.varfd(dim, deg, d, csr(A) if kind == 'sparse' else A, do_fourier=four, index_set=s)
    ref = np.zeros((n, n))
    for j, m in enumerate(L):
        q = list(m); k = m[d]
        if four:
            if k == 0: continue
            q[d] = k + 1 if k % 2 else k - 1
            c = (k + 1) // 2 * (1 if k % 2 else -1)
        else:
            if k == 0: continue
            q[d] = k - 1; c = math.sqrt(k)
        src = P.get(tuple(q))
        if src is None: continue
        for i in range(n): ref[i, j] = c * A[i, src]
    ctx.eq(R, ref, 'matrix')

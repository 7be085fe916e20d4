"""C10: projection keeps exactly the entries of the kept directions."""
import itertools
import numpy as np
from common import *
NATIVE = ['project (vectors, dense and sparse matrices)', 'isAligned', 'extract', 'index-set iterators']
BOUNDS = {'dimension': '1..5 (cross_nc: 1..4)', 'degree': '1..5', 'directions': 'every increasing list of kept directions', 'entries': 'symbolic in [-1,1]'}
OPT = {'paths': 3}
def cases(tier):
    T = tier == 'thorough'
    out = []
    for s in SETS:
        for dim in (1, 2, 3, 4, 5):
            if dim == 5 and (s == 'cross_nc' or s == 'cube' and not T): continue
            for r in range(1, dim + 1):
                for d in itertools.combinations(range(dim), r):
                    for deg in {1: (1, 4), 2: (1, 2, 3, 5), 3: (1, 2, 3), 4: (2, 3), 5: (2,)}[dim]:
                        out.append({'kind': 'vec', 's': s, 'dim': dim, 'deg': deg, 'd': list(d)})
                    for deg in {1: (2,), 2: (1, 2, 3), 3: (1, 2), 4: (1,), 5: (1,)}[dim]:
                        for k in ('dense', 'sparse'): out.append({'kind': k, 's': s, 'dim': dim, 'deg': deg, 'd': list(d)})
    return out
def run(ctx, case):
    import hermipy.core as core
    s, dim, deg, d = case['s'], case['dim'], case['deg'], case['d']
    L, P, M = listing(core, s, dim, deg), pos(listing(core, s, dim, deg)), listing(core, s, len(d), deg)
    def up(m):
        u = [0] * dim
        for k, x in zip(d, m): u[k] = x
        return tuple(u)
    arg = d if len(d) > 1 else (d[0] if dim % 2 else d)
    if case['kind'] == 'vec':
        v = ctx.array('a', len(L))
        ctx.eq(core.project(v, dim, arg, index_set=s), np.array([at(v, P, up(m)) for m in M]), 'vector')
    else:
        keep = (lambda i, j: True) if case['kind'] == 'dense' else (lambda i, j: (3 * i + j) % 4 != 1)
        A = pattern(ctx, 'a', len(L), keep=keep)
        ref = np.zeros((len(M), len(M)))
        for i, m in enumerate(M):
            for j, n in enumerate(M):
                a, b = P.get(up(m)), P.get(up(n))
                if a is not None and b is not None: ref[i, j] = A[a, b]
        r = core.project(A if case['kind'] == 'dense' else csr(A), dim, arg, index_set=s)
        ctx.eq(r, ref, 'matrix')

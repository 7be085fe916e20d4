"""C09: tensorised matrices, dense or sparse alike."""
import itertools
import numpy as np
from common import *
NATIVE = ['tensorize (matrices)', '_tensorize_mats_dirs', '_tensorize_mats_axes', 'tensorize_mat_id', 'tensorize_dirs', 'to_spmat', 'full', 'row_col_val', 'matrix::convert']
BOUNDS = {'dimension': '1..3, and 4, 5 at degree 1 (2)', 'degree': '1..3', 'groups': 'every partition, several orders', 'entries': 'symbolic in [-1,1], full and zero-patterned', 'paths': 'entries equal to zero explored by branch flipping'}
OPT = {'paths': 12}
def cases(tier):
    T = tier == 'thorough'
    out = [{'form': 'scalar', 'k': k, 's': 'triangle', 'sparse': False, 'pat': 'full', 'spin': 0} for k in (2,)]
    def add(**k):
        for sparse in (False, True): out.append(dict(k, sparse=sparse))
    for s in SETS:
        for dim in (1, 2, 3) + ((4,) if T else ()):
            degs = {1: (1, 2, 4), 2: (1, 2, 3), 3: (1, 2), 4: (1,)}[dim]
            for deg in degs:
                add(form='axes', s=s, dim=dim, deg=deg, pat='full' if dim < 3 else 'tri', spin=0)
                add(form='axes', s=s, dim=dim, deg=deg, pat='band', spin=1)
                for d in range(dim): add(form='id', s=s, dim=dim, deg=deg, dir=d, pat='full', spin=d % 2)
                if dim > 1:
                    for g in partitions(range(dim)):
                        for k in range(min(len(g), 3)):
                            add(form='dirs', s=s, dim=dim, deg=deg, g=rot(g, k), pat='full' if dim == 2 else 'band', spin=k % 2)
                        if len(g) == 2: add(form='dirs', s=s, dim=dim, deg=deg, g=g[::-1], pat='tri', spin=0)
    for dim in (4, 5):
        for s in (SETS if T else ('triangle', 'cross', 'rectangle')):
            for g in partitions(range(dim)):
                if len(g) > 3 or len(g) == 1: continue
                for k, h in enumerate((g, g[::-1])):
                    add(form='dirs', s=s, dim=dim, deg=1 if dim == 5 or s != 'triangle' else 2, g=h, pat='band' if k else 'tri', spin=k)
            add(form='axes', s=s, dim=dim, deg=1, pat='full', spin=0)
            for d in range(dim): add(form='id', s=s, dim=dim, deg=1, dir=d, pat='full', spin=d % 2)
    return out
PAT = {'full': lambda i, j: True, 'tri': lambda i, j: j <= i, 'band': lambda i, j: (j - i) in (-1, 2) or (i == j and i != 1)}
def run(ctx, case):
    import hermipy.core as core
    s, f = case['s'], case['form']
    if f == 'scalar':
        v = [ctx.var('a%d' % i) for i in range(case['k'])]
        ctx.eq(core.tensorize(list(v)), v[0] * v[1], 'list of scalars')
        return
    dim, deg, sparse = case['dim'], case['deg'], case['sparse']
    wrap = csr if case['spin'] else (lambda A: A)
    k = PAT[case['pat']]
    n1 = len(listing(core, s, 1, deg))
    if f == 'axes':
        v = [pattern(ctx, 'a%d' % d, n1, keep=k) for d in range(dim)]
        r = core.tensorize([wrap(A) for A in v], sparse=sparse, index_set=s)
        g = [[d] for d in range(dim)]
    elif f == 'id':
        A = pattern(ctx, 'a', n1, keep=k)
        r = core.tensorize(wrap(A), dim, case['dir'], sparse=sparse, index_set=s)
        g = [[d] for d in range(dim)]
        v = [A if d == case['dir'] else np.eye(n1) for d in range(dim)]
    else:
        g = case['g']
        v = [pattern(ctx, 'a%d' % i, len(listing(core, s, len(x), deg)), keep=k) for i, x in enumerate(g)]
        r = core.tensorize({tuple(x): wrap(A) for x, A in zip(g, v)}, sparse=sparse, index_set=s)
    import scipy.sparse as ss
    ctx.true(ss.issparse(r) == sparse, 'storage kind of the result')
    ctx.eq(r, sp_tensor_mat(core, g, v, s, dim, deg), 'matrix')

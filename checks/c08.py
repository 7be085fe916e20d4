"""C08: tensorised vectors are products of the factors' entries."""
import itertools
import numpy as np
from common import *
NATIVE = ['tensorize_vecs_dirs', 'tensorize_vecs_axes', 'tensorize_vec_id', 'extract', 'index-set iterators']
BOUNDS = {'dimension': '1..4, 5 at degree 2', 'degree': '1..6', 'groups': 'every partition of the directions, groups in several orders', 'entries': 'symbolic in [-1,1]'}
def cases(tier):
    T = tier == 'thorough'
    out = [{'form': 'scalar', 'k': k, 's': 'triangle'} for k in (1, 3)]
    for s in SETS:
        for dim in (1, 2, 3, 4, 5):
            if dim == 5 and s not in ('triangle', 'cross') and not T: continue
            degs = {1: (1, 2, 5, 9), 2: (1, 2, 3, 4, 6), 3: (1, 2, 3, 4), 4: (1, 2), 5: (2,)}[dim]
            if s == 'cross_nc': degs = tuple(d for d in degs)
            for deg in degs:
                out.append({'form': 'axes', 's': s, 'dim': dim, 'deg': deg})
                for d in range(dim): out.append({'form': 'id', 's': s, 'dim': dim, 'deg': deg, 'dir': d})
                if dim > 1 and (dim < 4 or deg == 2):
                    for g in partitions(range(dim)):
                        for k in range(min(len(g), 3)):
                            out.append({'form': 'dirs', 's': s, 'dim': dim, 'deg': deg, 'g': rot(g, k)})
                        if len(g) > 1: out.append({'form': 'dirs', 's': s, 'dim': dim, 'deg': deg, 'g': g[::-1]})
    return out
def run(ctx, case):
    import hermipy.core as core
    s, f = case['s'], case['form']
    if f == 'scalar':
        v = [ctx.var('a%d' % i) for i in range(case['k'])]
        r = np.float64(1.0)
        for x in v: r = r * x
        ctx.eq(core.tensorize(list(v)), r, 'list of scalars')
        ctx.eq(core.tensorize({frozenset([i]): x for i, x in enumerate(v)}), r, 'dict of scalars')
        return
    dim, deg = case['dim'], case['deg']
    n1 = len(listing(core, s, 1, deg))
    if f == 'axes':
        v = [ctx.array('a%d' % d, n1) for d in range(dim)]
        ctx.eq(core.tensorize(list(v), index_set=s), sp_tensor_vec(core, [[d] for d in range(dim)], v, s, dim, deg), 'axes')
    elif f == 'id':
        v = ctx.array('a', n1)
        one = np.zeros(n1); one[0] = 1
        ctx.eq(core.tensorize(v, dim, case['dir'], index_set=s),
               sp_tensor_vec(core, [[d] for d in range(dim)], [v if d == case['dir'] else one for d in range(dim)], s, dim, deg), 'embedding')
    else:
        g = case['g']
        v = [ctx.array('a%d' % i, len(listing(core, s, len(x), deg))) for i, x in enumerate(g)]
        ctx.eq(core.tensorize({tuple(x): a for x, a in zip(g, v)}, index_set=s), sp_tensor_vec(core, g, v, s, dim, deg), 'groups')

"""C19: projecting a separable function keeps its factors; coupled ones are refused."""
import itertools
import numpy as np
from common import *
from c18 import couplings, product, X, un, sy, cst
NATIVE = []
OPT = {'paths': 3, 'timeout': 60}
BOUNDS = {'directions': 'up to 4 of 5', 'factors': 'every choice of up to 2 coupled direction sets (3 in three directions) plus one factor per direction', 'subsets': 'every subset of the directions', 'values': 'constant and coordinates symbolic'}
def cases(tier):
    out = []
    for dim in (1, 2, 3, 4):
        for c in couplings(dim, 3 if dim < 4 else 2 if tier == 'quick' else 3):
            for off in (0, 5 - dim) if dim < 4 or tier != 'quick' else (len(c) % 2,):
                for p in list(itertools.permutations(range(len(c))))[:None if dim < 4 else 2]:
                    out.append({'kind': 'project', 'dim': dim, 'coup': [c[i] for i in p], 'off': off, 'sing': (len(c) + off) % 3})
    for dim in (2, 3, 4): out.append({'kind': 'sum', 'dim': dim})
    for dirs in ([0, 1], [1, 3], [0, 2, 3]): out.append({'kind': 'quad', 'dirs': dirs})
    return out
def run(ctx, case):
    import sympy, hermipy as hm
    env = {d: ctx.var('at%d' % d, -1.2, 1.2) for d in range(5)}
    def val(e): return evalf(e, env)
    k = case['kind']
    if k == 'project':
        dim = case['dim']; dirs = list(range(case['off'], case['off'] + dim))
        fs = product(dirs, case['coup'], 0, case['sing'])
        c = ctx.var('c', .3, 2.)
        C = cst(len(case['coup']) + case['off'] + 1)
        e = sy(c) * C; c = c * float(C)
        for _, g in fs: e = e * g
        f = hm.Function(e, dirs=dirs)
        for r in range(1, dim + 1):
            for keep in itertools.combinations(dirs, r):
                bad = any(s & set(keep) and not s <= set(keep) for s, _ in fs)
                try:
                    h = f.project(list(keep) if r > 1 or dim % 2 else keep[0])
                except Exception:
                    if not bad: return ctx.fail('projection on %s refused although no factor couples it to the rest' % (keep,))
                    continue
                if bad: return ctx.fail('projection on %s dropped a coupled factor: %s' % (keep, h))
                ctx.n_true += 1
                ref = c if dirs[0] in keep else np.float64(1.0)
                for s, g in fs:
                    if s <= set(keep): ref = ref * val(g)
                ctx.true(list(h.dirs) == list(keep), 'directions of the projection')
                try: v = val(h)
                except KeyError: return ctx.fail('projection on %s has another variable: %s' % (keep, h))
                ctx.eq(v, ref, 'projection on %s' % (keep,))
    elif k == 'sum':
        dirs = list(range(case['dim']))
        f = hm.Function(sum((un(d, X(d)) * sy(ctx.var('c%d' % d, .3, 1.)) for d in dirs), sympy.Integer(0)), dirs=dirs)
        for r in range(1, len(dirs) + 1):
            for keep in itertools.combinations(dirs, r): ctx.raises(lambda: f.project(list(keep)), 'projection of a sum')
    elif k == 'quad':
        dirs = case['dirs']
        # a quadrature with a separable factor projects onto quadratures whose factors multiply back
        c = ctx.var('c', .3, 2.)
        e = sy(c) * cst(1); c = c * float(cst(1))
        for i, d in enumerate(dirs): e = e * un(i, X(d))
        q, x, w, m, s = quad(ctx, 'q', dirs, 2, factor=hm.Function(e, dirs=dirs))
        p = np.float64(1.0)
        for i, d in enumerate(dirs):
            r = q.project(d); p = p * val(r.factor)
            ctx.eq(val(r.factor), val(un(i, X(d))) * (c if i == 0 else 1.0), 'factor of the projection')
        ctx.eq(p, val(e), 'product of the projected factors')
        g = hm.Function(sympy.cos(X(dirs[0]) * X(dirs[1])) * e, dirs=dirs)
        q, x, w, m, s = quad(ctx, 'r', dirs, 2, factor=g)
        ctx.raises(lambda: q.project(dirs[0]), 'quadrature with a coupled factor')

"""C37: a composite quadrature is the weighted sum of its parts."""
import itertools, math
import numpy as np
from common import *
from c22 import H, F, fac
NATIVE = ['discretize', 'integrate', 'transform', 'varf', 'varfd', 'tensorize']
OPT = {'paths': 1, 'timeout': 90, 'qtime': 10}
OPT_THOROUGH = {'paths': 3}
BOUNDS = {'dimension': '1..3', 'parts': '1..3 with different numbers of points (1..3)', 'degree': '1..3', 'nodes, weights of the parts and of the combination, means, standard deviations, grid values': 'symbolic', 'index sets': 'all (matrices: triangle, cube, rectangle)',
          'functions': 'expressions with arbitrary functions', 'factor': 'one and products', 'operators': 'of order up to two', 'mismatch': 'symbolic difference of one mean or variance; other kinds enumerated',
          'parts themselves': 'a part is evaluated by the library on its own (C04, C06, C12, C13, C21, C24 decide what it returns)'}
CF = [([0], [H]), ([1], [F]), ([0, 1], [H, H]), ([0, 2], [H, F]), ([0, 1, 2], [H, H, H])]
def cases(tier):
    T = tier != 'quick'
    out = []; n = 0
    for dirs, types in CF:
        for k in (1, 2, 3):
            for fc in (0, 1):
                b = {'dirs': dirs, 'types': types, 'k': k, 'fc': fc}
                for e in range(3): out.append(dict(b, op='integrate', e=e))
                out.append(dict(b, op='project'))
                for s in SETS if len(dirs) > 1 else SETS[:1]:
                    n += 1
                    deg = 2 if F in types else (3 if len(dirs) == 1 else 1)
                    out.append(dict(b, op='transform', e=n % 3, s=s, deg=deg))
                    if s.startswith('cross') or (k == 3 and not T): continue
                    if len(dirs) > 1 and F in types: s = 'cube'
                    for sp in (False, True):
                        out.append(dict(b, op='varf', e=n % 3, s=s, deg=deg, sparse=sp))
                        for d in dirs: out.append(dict(b, op='varfd', e=n % 3, s=s, deg=deg, sparse=sp, ds=[d]))
                        if not fc or dirs == [0]: out.append(dict(b, op='op', e=n % 3, s=s, deg=deg, sparse=sp))
    for what in ('mean', 'var', 'dirs', 'types', 'same', 'dim', 'empty', 'lengths'):
        for i in ((0, 1) if what in ('mean', 'var') else (0,)): out.append({'op': 'mismatch', 'what': what, 'i': i})
    for what in ('same', 'weight', 'node', 'qweight', 'points', 'parts', 'factor', 'plain', 'plain2'): out.append({'op': 'eq', 'what': what})
    return out
EX = ['atan(%(a)s)*erf(%(b)s)', 'tanh(%(a)s*%(b)s) - %(a)s', '2']
def run(ctx, case):
    import hermipy as hm, hermipy.core as core, sympy
    from hermipy.compquad import CompQuad
    from hermipy.operator import Operator
    op = case['op']
    if op == 'mismatch':
        w, i = case['what'], case['i']
        q, x, ww, m, s = quad(ctx, 'q', [0, 1], 2)
        if w == 'empty': return ctx.raises(lambda: CompQuad([], []), 'no part', ValueError)
        if w == 'lengths': ctx.raises(lambda: CompQuad([q], [1, 2]), 'numbers of parts and weights differ', ValueError); return ctx.raises(lambda: CompQuad([q, q], [1]), 'numbers of parts and weights differ', ValueError)
        y = ctx.array('y', (2, 3)); v = ctx.array('v', (2, 3), .1, 1.)
        m2, s2 = m.copy(), s.copy()
        dirs2, types2 = [0, 1], [H, H]
        if w == 'mean': m2[i] = m2[i] + ctx.var('delta', .01, 1.)
        if w == 'var': s2[i] = s2[i] + ctx.var('delta', .01, 1.)
        if w == 'dirs': dirs2 = [0, 2]
        if w == 'types': types2 = [H, F]
        c = np.zeros((2, 2)); c[0, 0] = s2[0] * s2[0]; c[1, 1] = s2[1] * s2[1]
        if w == 'dim': q2 = hm.Quad(y[:1], v[:1], position=hm.Position(dirs=[0], mean=m2[:1], cov=c[:1, :1]))
        else: q2 = hm.Quad(y, v, position=hm.Position(dirs=dirs2, mean=m2, cov=c, types=types2))
        if w == 'same': ctx.true(CompQuad([q, q2], [1, 2]).position == q.position, 'position')
        else:
            ctx.raises(lambda: CompQuad([q, q2], [1, 2]), 'parts with different positions', ValueError)
            ctx.raises(lambda: CompQuad([q, q, q2], [1, 2, 3]), 'parts with different positions', ValueError)
        return
    if op == 'eq':
        w = case['what']
        p, m, s = position(ctx, 'p', [0, 1])
        xs = [ctx.array('x%d' % k, (2, k + 1)) for k in range(2)]; ws = [ctx.array('w%d' % k, (2, k + 1), .1, 1.) for k in range(2)]
        al = [ctx.var('al%d' % k, .1, 1.) for k in range(2)]
        mk = lambda xs, ws, f='1': [hm.Quad(x.copy(), v.copy(), position=p, factor=f) for x, v in zip(xs, ws)]
        A = CompQuad(mk(xs, ws), list(al))
        xs2, ws2, al2, f = [x.copy() for x in xs], [x.copy() for x in ws], list(al), '1'
        d = ctx.var('delta', .01, 1.)
        if w == 'node': xs2[1][0, 1] = xs2[1][0, 1] + d
        if w == 'weight': ws2[1][1, 0] = ws2[1][1, 0] + d
        if w == 'qweight': al2[1] = al2[1] + d
        if w == 'factor': f = 'exp(-x)'
        if w == 'points': xs2[1], ws2[1] = ctx.array('y', (2, 3)), ctx.array('v', (2, 3), .1, 1.)
        if w == 'parts': xs2, ws2, al2 = xs2[:1], ws2[:1], al2[:1]
        if w == 'plain': ctx.true(CompQuad(mk(xs, ws)[:1], [1]) == mk(xs, ws)[0], 'one part of weight one equals the part'); return
        if w == 'plain2': ctx.true(not (A == mk(xs, ws)[0]), 'two parts differ from one'); ctx.raises(lambda: A == 3, 'comparison with a number', ValueError); return
        B = CompQuad(mk(xs2, ws2, f), al2)
        ctx.true(bool(A == B) == (w == 'same'), 'equality when %s' % w); ctx.true(bool(B == A) == (w == 'same'), 'equality when %s' % w)
        return
    dirs, types, k = case['dirs'], case['types'], case['k']
    n = len(dirs); f = fac(dirs) if case['fc'] else '1'
    p, m, s = position(ctx, 'p', dirs, types)
    npts = [(2, 1, 3), (3, 2, 1)][n > 1][:k] if n < 3 else (2, 1, 1)[:k]
    qs = [hm.Quad(ctx.array('x%d' % i, (n, c)), ctx.array('w%d' % i, (n, c), .1, 1.), position=p, factor=f) for i, c in enumerate(npts)]
    al = [ctx.var('al%d' % i, -2., 2.) for i in range(k)]
    C = CompQuad(qs, al)
    check_position(ctx, C.position, dirs, m, s, types, 'composite quadrature')
    if op == 'project':
        for r in range(1, n + 1):
            for keep in itertools.combinations(range(n), r):
                R = C.project([dirs[i] for i in keep])
                ctx.true(len(R.quads) == k and len(R.qweights) == k, 'number of parts')
                check_position(ctx, R.position, [dirs[i] for i in keep], m[list(keep)], s[list(keep)], [types[i] for i in keep], 'projection')
                for i in range(k):
                    ctx.eq(R.qweights[i], al[i], 'weight of the part')
                    ctx.eq(R.quads[i].nodes, qs[i].nodes[list(keep)], 'nodes of the part'); ctx.eq(R.quads[i].weights, qs[i].weights[list(keep)], 'weights of the part')
        return
    e = EX[case['e']] % {'a': XS[dirs[0]], 'b': XS[dirs[-1]]}
    tot = lambda parts: ssum([p * a for p, a in zip(parts, al)])
    if op == 'integrate':
        r = C.integrate(e)
        return ctx.eq(r, tot([q.integrate(e) for q in qs]), 'integral')
    kw = {'index_set': case['s']}
    if 'sparse' in case: kw['sparse'] = case['sparse']
    if op == 'op':
        u = sympy.Function('u')(*[hm.Function.xyz[d] for d in dirs])
        v = hm.Function.xyz[dirs[-1]]
        o = Operator(u.diff(v) * sympy.atan(v) + 2 * u + (u.diff(v, v) if n < 2 else 0), dirs=dirs)
        fn = lambda q: q.discretize_op(o, case['deg'], **kw)
    elif op == 'varfd': fn = lambda q: q.varfd(e, case['deg'], case['ds'], **kw)
    else: fn = lambda q: getattr(q, op)(e, case['deg'], **kw)
    r = fn(C); parts = [fn(q) for q in qs]
    get = (lambda o: o.coeffs) if op == 'transform' else (lambda o: o.matrix.toarray() if o.is_sparse else o.matrix)
    if op != 'transform': ctx.true(bool(r.is_sparse) == case['sparse'], op + ': storage')
    R, ps = get(r), [get(o) for o in parts]
    ctx.true(np.shape(R) == np.shape(ps[0]), op + ': shape')
    ctx.eq(R, tot(ps), op)
    ctx.true(r.degree == case['deg'], op + ': degree')
    check_position(ctx, r.position, dirs, m, s, types, op)
    check_factor(ctx, r.factor, hm.Function(f, dirs=dirs).sym, dirs, op)
    ctx.true(r.index_set == case['s'], op + ': index set')

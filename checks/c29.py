"""C29: quadrature constructors place the stated nodes and weights."""
import itertools, math
import numpy as np
from common import *
from c22 import fac, H, F
NATIVE = ['discretize', 'transform (integrate)']
OPT = {'paths': 6, 'timeout': 60}
BOUNDS = {'points per direction': '1..7 (Gauss-Hermite 1..8)', 'dimension': '1..3', 'bounds, extrema, means, standard deviations, nodes, weights, polynomial coefficients': 'symbolic', 'directions': 'subsets of 4'}
def cases(tier):
    out = []
    for n in (1, 2, 3, 4, 7):
        for how in ('plain', 'bounds', 'dirs', 'list', 'position', 'boundsdirs', 'mixed'):
            for dim in (1, 2, 3):
                if how == 'plain' and dim > 1: continue
                if dim == 3 and n > 3 and tier == 'quick': continue
                out.append({'kind': 'fourier', 'n': n, 'how': how, 'dim': dim})
    for n in (2, 3, 4, 7):
        for dim in (1, 2, 3):
            for kw in ('', 'dirs', 'all'): out.append({'kind': 'nc', 'n': n, 'dim': dim, 'kw': kw})
    for n in range(1, 9):
        for dim in (1, 2, 3):
            for kw in ('dim', 'dirs', 'all', 'list'):
                if dim * n > 12 or kw == 'list' and dim > 1 and n > 3: continue
                out.append({'kind': 'gh', 'n': n, 'dim': dim, 'kw': kw})
    subs = [list(c) for r in (1, 2, 3) for c in itertools.combinations(range(4), r)]
    for a in subs:
        for b in subs:
            if not set(a) & set(b): out.append({'kind': 'tensor', 'g': [a, b]})
    for g in ([[0], [1], [2]], [[2], [0], [1]], [[3], [0, 2], [1]]): out.append({'kind': 'tensor', 'g': g})
    for dirs in ([0, 1], [1, 3], [0, 1, 2], [0, 2, 3]):
        for r in range(1, len(dirs) + 1):
            for k in itertools.combinations(dirs, r): out.append({'kind': 'project', 'dirs': dirs, 'keep': list(k)})
    for dirs in ([0], [2], [0, 1], [1, 3], [0, 2, 3]): out.append({'kind': 'mapped', 'dirs': dirs})
    for w in ('same', 'nodes', 'weights', 'mean'): out.append({'kind': 'eq', 'what': w})
    out.append({'kind': 'bad'})
    return out
def trapz(e, n):
    x = [-e + (2 * e) * k / (n - 1) for k in range(n)]
    h = 2 * e / (n - 1)
    return x, [(h / 2 if k in (0, n - 1) else h) * np.exp(-x[k] * x[k] / 2) / math.sqrt(2 * math.pi) for k in range(n)]
def moment(k): return 0.0 if k % 2 else math.prod(range(k - 1, 0, -2)) * 1.0
def run(ctx, case):
    import hermipy as hm, hermipy.core as core
    k = case['kind']
    if k == 'fourier':
        n, dim, how = case['n'], case['dim'], case['how']
        dirs = [1, 2, 4][:dim] if how in ('dirs', 'boundsdirs', 'position', 'mixed') else list(range(dim))
        lo, wd = ctx.array('l', dim), ctx.array('w', dim, .5, 4.)
        B = [(lo[i], lo[i] + wd[i]) for i in range(dim)]
        npt = [n] * dim
        if how == 'plain': q = hm.Quad.fourier(n); B = [(-math.pi, math.pi)]
        elif how == 'bounds': q = hm.Quad.fourier(n, bounds=B, factor=fac(dirs))
        elif how == 'dirs': q = hm.Quad.fourier(n, dirs=dirs); B = [(-math.pi, math.pi)] * dim
        elif how == 'list': q = hm.Quad.fourier(npt); B = [(-math.pi, math.pi)] * dim
        elif how == 'boundsdirs': q = hm.Quad.fourier(npt, bounds=B, dirs=dirs)
        else:
            p, m, s = position(ctx, 'p', dirs, [F] * dim)
            q = hm.Quad.fourier(n if how == 'position' else npt, position=p, factor=fac(dirs))
            B = [(m[i] - math.pi * s[i], m[i] + math.pi * s[i]) for i in range(dim)]
        ctx.true(q.position.dim == dim and list(q.position.dirs) == dirs and list(q.position.types) == [F] * dim, 'dimension, directions and types')
        ctx.true(len(q.nodes) == dim and len(q.weights) == dim and list(q.do_fourier) == [1] * dim, 'one set of nodes per direction')
        for i in range(dim):
            ctx.eq(q.nodes[i], np.array([-math.pi + 2 * math.pi * j / n for j in range(n)]), 'nodes')
            ctx.eq(q.weights[i], np.full(n, 2 * math.pi / n), 'weights')
            ctx.eq(q.project(dirs[i]).discretize('x%d' % dirs[i]), np.array([B[i][0] + (B[i][1] - B[i][0]) * j / n for j in range(n)]), 'mapped nodes')
        if how in ('bounds', 'position', 'mixed'): check_factor(ctx, q.factor, fac(dirs), dirs, 'Fourier')
    elif k == 'nc':
        n, dim = case['n'], case['dim']
        e = ctx.array('e', dim, .5, 4.)
        dirs = [0, 2, 3][:dim] if case['kw'] else list(range(dim))
        kw = {'': {}, 'dirs': {'dirs': dirs}}.get(case['kw'])
        if kw is None:
            p, m, s = position(ctx, 'p', dirs)
            kw = {'position': p, 'factor': fac(dirs)}
        q = hm.Quad.newton_cotes([n] * dim, list(e), **kw)
        ctx.true(list(q.position.dirs) == dirs and len(q.nodes) == dim, 'directions')
        for i in range(dim):
            x, w = trapz(e[i], n)
            ctx.eq(q.nodes[i], np.array(x), 'nodes'); ctx.eq(q.weights[i], np.array(w), 'weights')
        if case['kw'] == 'all':
            check_position(ctx, q.position, dirs, m, s, None, 'Newton-Cotes'); check_factor(ctx, q.factor, fac(dirs), dirs, 'Newton-Cotes')
    elif k == 'gh':
        n, dim = case['n'], case['dim']
        dirs = [0, 2, 3][:dim] if case['kw'] in ('dirs', 'all') else list(range(dim))
        m, s = np.zeros(dim), np.ones(dim)
        if case['kw'] == 'dim': q = hm.Quad.gauss_hermite(n, dim=dim)
        elif case['kw'] == 'list': q = hm.Quad.gauss_hermite([n] * dim if dim > 1 else n)
        elif case['kw'] == 'dirs': q = hm.Quad.gauss_hermite(n, dirs=dirs)
        else:
            p, m, s = position(ctx, 'p', dirs)
            q = hm.Quad.gauss_hermite(n, dirs=dirs, mean=p.mean, cov=p.cov)
        ctx.true(len(q.nodes) == dim and q.nodes.shape == (dim, n) == q.weights.shape, 'one set of nodes per direction')
        check_position(ctx, q.position, dirs, m, s, None, 'Gauss-Hermite')
        for i in range(dim):
            c = ctx.array('c%d' % i, 2 * n, -1., 1.)
            sc = [1.0 / max(1.0, moment(2 * ((j + 1) // 2))) for j in range(2 * n)]
            got = ssum(q.weights[i][a] * ssum(c[j] * (float(q.nodes[i][a]) ** j * sc[j]) for j in range(2 * n)) for a in range(n))
            ctx.eq(got, ssum(c[j] * (moment(j) * sc[j]) for j in range(2 * n)), 'integral of a polynomial')
    elif k == 'tensor':
        g = case['g']; al = sorted(d for x in g for d in x); T = {d: (F if d == 1 else H) for d in al}
        n = 2
        Q, X, W, M, S = [], {}, {}, {}, {}
        for i, x in enumerate(g):
            q, xx, w, m, s = quad(ctx, 'q%d' % i, x, n, [T[d] for d in x], factor=fac(x))
            Q.append(q)
            for j, d in enumerate(x): X[d], W[d], M[d], S[d] = xx[j], w[j], m[j], s[j]
        for w, r in (('tensorize', lambda: hm.Quad.tensorize(Q)), ('product', lambda: Q[0] * Q[1])):
            if w == 'product' and len(g) > 2: continue
            r = r()
            check_position(ctx, r.position, al, [M[d] for d in al], [S[d] for d in al], [T[d] for d in al], w)
            ctx.eq(r.nodes, np.array([X[d] for d in al]), w + ': nodes'); ctx.eq(r.weights, np.array([W[d] for d in al]), w + ': weights')
            check_factor(ctx, r.factor, fac(al), al, w)
            ctx.true(list(r.do_fourier) == [int(T[d] == F) for d in al], w + ': types used by the transforms')
    elif k == 'project':
        dirs, keep = case['dirs'], case['keep']
        types = [F if d == 1 else H for d in dirs]
        q, x, w, m, s = quad(ctx, 'q', dirs, 2, types, factor=fac(dirs))
        ix = [dirs.index(d) for d in keep]
        r = q.project(keep if len(keep) > 1 or len(dirs) == 3 else keep[0])
        check_position(ctx, r.position, keep, [m[i] for i in ix], [s[i] for i in ix], [types[i] for i in ix], 'projection')
        ctx.eq(r.nodes, np.array([x[i] for i in ix]), 'projection: nodes'); ctx.eq(r.weights, np.array([w[i] for i in ix]), 'projection: weights')
        check_factor(ctx, r.factor, fac(keep), keep, 'projection')
    elif k == 'mapped':
        dirs = case['dirs']
        q, x, w, m, s = quad(ctx, 'q', dirs, 2, factor=fac(dirs))
        ctx.eq(q.mapped_nodes(), np.array([[p[d] for d in dirs] for _, p in points(dirs, x, m, s, 2)]), 'mapped nodes')
        c = ctx.array('c', len(listing(core, 'triangle', len(dirs), 1)))
        r = q.series(c)
        ctx.eq(r.coeffs, c, 'series of the quadrature'); meta(ctx, r, dirs, m, s, None, fac(dirs), 'triangle', 'series of the quadrature')
    elif k == 'eq':
        w = case['what']
        q, x, wt, m, s = quad(ctx, 'q', [0, 1], 2)
        x2, w2, m2 = x.copy(), wt.copy(), m.copy()
        if w == 'nodes': x2[1, 0] = ctx.var('other')
        if w == 'weights': w2[0, 1] = ctx.var('other', .1, 1.)
        if w == 'mean': m2[1] = ctx.var('other')
        c = np.zeros((2, 2))
        for i in range(2): c[i, i] = s[i] * s[i]
        r = bool(q == hm.Quad(x2, w2, position=hm.Position(dirs=[0, 1], mean=m2, cov=c)))
        if w == 'same': ctx.true(r, 'equal quadratures taken for different')
        elif r: ctx.eq([x2[1, 0], w2[0, 1], m2[1]], [x[1, 0], wt[0, 1], m[1]], 'quadratures taken for equal', tol=1e-4)
    elif k == 'bad':
        ctx.raises(lambda: hm.Quad.fourier(3, bounds=[(0., 1.)], dirs=[0, 1]), 'bounds and directions of different lengths')
        ctx.raises(lambda: hm.Quad.fourier([3, 3, 3], dirs=[0, 1]), 'points and directions of different lengths')
        ctx.raises(lambda: hm.Quad.tensorize([]), 'nothing to tensorise')
        ctx.raises(lambda: hm.Quad.tensorize([hm.Quad.fourier(2), 3]), 'tensorising a number')

"""C25: transform divides by the factor, evaluation multiplies by it, in the series' own coordinates."""
import numpy as np
from common import *
NATIVE = ['transform', '_transform', 'discretize', 'hermite_eval']
OPT = {'paths': 4, 'timeout': 90, 'qtime': 20}
BOUNDS = {'dimension': '1..3', 'degree': '0..3 (Fourier 0,2)', 'points per direction': '1..3 (Gauss-Hermite round trip: 2..5)', 'nodes, means': 'symbolic in [-1,1]', 'standard deviations': 'symbolic in [1/2,2]',
          'weights': 'symbolic in [1/10,1]', 'coefficients': 'symbolic in [-1,1]', 'function': 'grid values symbolic, or expressions with an arbitrary function', 'factors': '1, Gaussian, arbitrary positive, coupled'}
FAC = ['1', 'exp(-x*x/4)', 'exp(-erf(x))', 'exp(-x*y/3)', 'exp(-x*x/4)*exp(-erf(y))', '2*exp(-y)']
def nvar(e): return max([XS.index(v) for v in 'xyz' if __import__('re').search(r'\b%s\b' % v, e)] + [-1]) + 1
def cases(tier):
    out = []
    H, F = 'hermite', 'fourier'
    cfg = [([0], [H]), ([0], [F]), ([0, 1], [H, H]), ([0, 1], [H, F]), ([0, 1], [F, H]), ([0, 1, 2], [H, H, H]), ([0, 1, 2], [F, H, F]), ([1], [H]), ([1, 2], [H, H]), ([0, 2], [F, H])]
    for dirs, types in cfg:
        n = len(dirs)
        for s in (SETS if n > 1 else SETS[:1]):
            if n == 3 and s not in ('triangle', 'cube') and tier == 'quick': continue
            for f in FAC:
                v = {XS.index(c) for c in 'xyz' if __import__('re').search(r'\b%s\b' % c, f)}
                if not v <= set(dirs): continue
                if s != 'triangle' and f not in ('1', 'exp(-x*x/4)*exp(-erf(y))'): continue
                deg = 2 if F in types else (3 if n < 3 else 2)
                if s == 'triangle' or f != '1':
                    for qf in ('1', 'exp(-%s)' % XS[dirs[0]]):
                        if qf != f: out.append({'dirs': dirs, 'types': types, 'set': s, 'factor': f, 'qfactor': qf, 'degree': deg, 'npts': 3 if n == 1 else 2, 'kind': 'eval'})
                for kind in ('transform', 'eval'):
                    out.append({'dirs': dirs, 'types': types, 'set': s, 'factor': f, 'degree': deg, 'npts': 3 if n == 1 else 2, 'kind': kind})
    for dirs in ([0], [0, 1], [1, 2]):
        for s in (SETS if len(dirs) > 1 else SETS[:1]):
            for d in (1, 2, 3) if len(dirs) == 1 or tier == 'thorough' else (1, 2):
                out.append({'dirs': dirs, 'set': s, 'degree': d, 'kind': 'round', 'factor': '1', 'npts': d + 1})
                if dirs[0] == 0: out.append({'dirs': dirs, 'set': s, 'degree': d, 'kind': 'round', 'factor': 'exp(-erf(x))', 'npts': d + 1})
    for c in ([[1.0, 0.4], [0.4, 2.0]], [[2.0, -0.3], [-0.3, 1.0]]): out.append({'kind': 'full', 'cov': c, 'degree': 2})
    return out
def series_at(L, c, types, degree, y):
    B = [basis(t == 'fourier', degree, v) for t, v in zip(types, y)]
    r = np.float64(0.0)
    for m, k in zip(L, c):
        t = k
        for i, e in enumerate(m): t = t * B[i][e]
        r = r + t
    return r
def run(ctx, case):
    import hermipy as hm, hermipy.core as core
    deg = case['degree']
    if case['kind'] == 'full':
        # full covariance: evaluation on the quadrature of the series itself
        n = 2
        x = ctx.array('x', (2, 2)); w = ctx.array('w', (2, 2), .1, 1.)
        q = hm.Quad(x, w, position=hm.Position(dirs=[0, 1], mean=ctx.array('mu', 2), cov=np.array(case['cov'])))
        L = listing(core, 'triangle', 2, deg)
        c = ctx.array('c', len(L))
        r = q.eval(q.series(c))
        ctx.eq(r, np.array([series_at(L, c, ['hermite'] * 2, deg, [x[0, g[0]], x[1, g[1]]]) for g in grid([2, 2])]), 'evaluation with full covariance')
        return
    dirs, s = case['dirs'], case['set']
    n = len(dirs); types = case.get('types', ['hermite'] * n)
    L = listing(core, s, n, deg)
    if case['kind'] == 'round':
        nodes, weights = [], []
        x1, w1 = np.polynomial.hermite_e.hermegauss(case['npts']); w1 = w1 / np.sqrt(2 * np.pi)
        q, x, w, m, sg = quad(ctx, 'q', dirs, case['npts'], factor=case['factor'], nodes=[x1] * n, weights=[w1] * n)
        c = ctx.array('c', len(L))
        if s == 'cross_nc' and len({len(listing(core, s, n, k)) for k in (deg - 1, deg, deg + 1)}) < 3: return
        v = q.eval(q.series(c, index_set=s))
        t = q.transform(v, deg, index_set=s)
        ctx.eq(t.coeffs, c, 'coefficients after evaluation and transform')
        return
    q, x, w, m, sg = quad(ctx, 'q', dirs, case['npts'], types, factor=case.get('qfactor', case['factor']))
    pts = list(points(dirs, x, m, sg, case['npts']))
    if case['kind'] == 'transform':
        f = ctx.array('f', len(pts))
        t = q.transform(f, deg, index_set=s)
        F = [evalf(case['factor'], p) for _, p in pts]
        B = [[basis(types[i] == 'fourier', deg, x[i, k]) for k in range(case['npts'])] for i in range(n)]
        ref = []
        for mi in L:
            r = np.float64(0.0)
            for k, (g, p) in enumerate(pts):
                v = f[k] / F[k]
                for i in range(n): v = v * w[i, g[i]] * B[i][g[i]][mi[i]]
                r = r + v
            ref.append(r)
        ctx.eq(t.coeffs, np.array(ref), 'transform')
        ctx.true(t.index_set == s and t.position == q.position, 'index set and position of the transform')
        p0 = pts[0][1]
        ctx.eq(evalf(t.factor, p0), evalf(case['factor'], p0), 'factor of the transform')
        # an expression is sampled at the mapped points
        if n == 1 or s == 'triangle':
            ex = ' + '.join(['erf(%s)' % XS[dirs[0]]] + [XS[d] for d in dirs[1:]])
            t2 = q.transform(ex, deg, index_set=s, tensorize=False)
            f2 = np.array([evalf(ex, p) for _, p in pts])
            t3 = q.transform(f2, deg, index_set=s)
            ctx.eq(t2.coeffs, t3.coeffs, 'transform of an expression')
        return
    # evaluation of a series with its own position on another quadrature
    sp, sm, ss_ = position(ctx, 's', dirs, types)
    c = ctx.array('c', len(L))
    ser = hm.Series(c, sp, factor=case['factor'], index_set=s)
    r = q.eval(ser)
    ref = []
    for g, p in pts:
        y = [(p[d] - sm[i]) / ss_[i] for i, d in enumerate(dirs)]
        ref.append(evalf(case['factor'], p) * series_at(L, c, types, deg, y))
    ctx.eq(r, np.array(ref), 'evaluation on another quadrature')

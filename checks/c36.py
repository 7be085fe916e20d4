"""C36: norms and flat integrals are the stated weighted sums."""
import itertools, math
import numpy as np
from common import *
from c22 import H, F, fac
from c25 import series_at
NATIVE = ['discretize', 'integrate', 'transform (backward)', 'tensorize']
OPT = {'abs': True, 'paths': 2, 'timeout': 90, 'qtime': 20}
BOUNDS = {'dimension': '1..3', 'points per direction': '1..4', 'degree': '0..3', 'nodes, weights, grid values, coefficients': 'symbolic', 'means, covariance': 'diagonal (symbolic; constants for flat integrals and for series with another covariance) and full (two constants)',
          'functions': 'grid values, series (also with another mean and variance than the quadrature), expressions with arbitrary functions of one and of coupled variables', 'norms': '1 and 2, weighted and flat', 'factor': 'one and products'}
CF = [([0], [H]), ([2], [F]), ([0, 1], [H, H]), ([0, 1], [H, F]), ([1, 3], [F, H]), ([0, 2], [F, F]), ([0, 1, 2], [H, H, H]), ([1, 2, 4], [H, F, H])]
EX = ['atan(%(a)s)', 'atan(%(a)s)*erf(%(b)s)', 'tanh(%(a)s*%(b)s - 1/3)', 'atan(%(a)s) - %(b)s/2', '-7/3', '%(a)s*tanh(%(b)s)']
def cases(tier):
    T = tier != 'quick'
    out = []; n = 0
    for dirs, types in CF:
        for npts in ((1, 2, 3) if len(dirs) == 1 else ((1, 2, 3) if T else (1, 2)) if len(dirs) < 3 else (1, 2)):
            for flat in (0, 1):
                for fc in (0, 1):
                    b = {'dirs': dirs, 'types': types, 'npts': npts, 'flat': flat, 'fc': fc}
                    for norm in (0, 1, 2):
                        out.append(dict(b, what='grid', norm=norm))
                        for s in SETS if len(dirs) > 1 else SETS[:1]:
                            n += 1
                            if n % 3 and not T or npts * len(dirs) > 4 and not T: continue
                            deg = 2 if F in types else (3 if len(dirs) == 1 else 1)
                            out.append(dict(b, what='series', norm=norm, s=s, deg=deg, other=n // 3 % 2))
                        for e in range(len(EX)):
                            n += 1
                            if n % 4 and not T and len(dirs) > 1: continue
                            for tz in ((None,) if norm else (None, False)): out.append(dict(b, what='expr', norm=norm, e=e, tz=tz))
    for c in ([[1.0, 0.5], [0.5, 1.25]], [[1.0, -0.5], [-0.5, 1.25]]):
        for norm in (0, 1, 2):
            for flat in (0, 1): out.append({'dirs': [0, 1], 'types': [H, H], 'npts': 2, 'flat': flat, 'fc': 0, 'what': 'grid', 'norm': norm, 'cov': c})
    return out
def place(ctx, name, dirs, types, symbolic, sg=(.5, 1., 2.)):
    import hermipy as hm
    if symbolic: return position(ctx, name, dirs, types)
    n = len(dirs); m = ctx.array(name + 'mu', n) if n < 2 or name == 'o' else np.array([.25, -.5, 1.][:n]); sg = np.array(sg[:n])
    return hm.Position(dirs=list(dirs), mean=m, cov=np.diag(sg * sg), types=types), m, sg
def run(ctx, case):
    import hermipy as hm, hermipy.core as core, sympy
    dirs, types, npts, flat, what, norm = (case[k] for k in ('dirs', 'types', 'npts', 'flat', 'what', 'norm'))
    n = len(dirs)
    f = fac(dirs) if case['fc'] else '1'
    if 'cov' in case:
        x = ctx.array('x', (n, npts)); w = ctx.array('w', (n, npts), .1, 1.); m = np.array([.25, -.5])
        q = hm.Quad(x, w, position=hm.Position(dirs=dirs, mean=m, cov=np.array(case['cov'])), factor=f)
        det = float(np.linalg.det(np.array(case['cov']))); sg = None
    else:
        x = ctx.array('x', (n, npts)); w = ctx.array('w', (n, npts), .1, 1.)
        q_p, m, sg = place(ctx, 'q', dirs, types, not flat and not case.get('other'))
        q = hm.Quad(x, w, position=q_p, factor=f)
        det = None
    G = list(grid([npts] * n))
    pt = (lambda g: {d: m[i] + sg[i] * x[i, g[i]] for i, d in enumerate(dirs)}) if sg is not None else None
    if what == 'grid':
        v = arg = ctx.array('v', len(G))
    elif what == 'series':
        L = listing(core, case['s'], n, case['deg'])
        c = ctx.array('c', len(L))
        if case['other']: p, m2, s2 = place(ctx, 'o', dirs, types, False, (2., .5, 1.))
        else: p, m2, s2 = q.position, m, sg
        sf = fac(dirs, 1) if case['fc'] else '1'
        arg = hm.Series(c.copy(), p, factor=sf, index_set=case['s'])
        v = np.array([evalf(hm.Function(sf, dirs=dirs), pt(g)) * series_at(L, c, types, case['deg'], [(pt(g)[d] - m2[i]) / s2[i] for i, d in enumerate(dirs)]) for g in G])
    else:
        e = EX[case['e']] % {'a': XS[dirs[0]], 'b': XS[dirs[-1]]}
        ex = hm.Function(e, dirs=dirs)
        v = np.array([evalf(ex, pt(g)) for g in G])
        # norms take grid values, series or sympy expressions
        arg = ex.sym if norm else ex
    kw = {} if case.get('tz') is None else {'tensorize': case['tz']}
    r = q.integrate(arg, flat=bool(flat), **kw) if norm == 0 else q.norm(arg, n=norm, flat=bool(flat))
    ref = np.float64(0.0)
    for g, t in zip(G, v):
        if norm == 1: t = abs(t)
        if norm == 2: t = t * t
        for i in range(n):
            t = t * w[i, g[i]]
            if flat and types[i] == H:
                t = t / (np.exp(-x[i, g[i]] * x[i, g[i]] / 2) / math.sqrt(2 * math.pi))
                if sg is not None: t = t * sg[i]
        if flat and det is not None: t = t * math.sqrt(det)
        ref = ref + t
    if norm == 2:
        # the flat integral itself is decided by the cases without norm
        if flat: ref = q.integrate(v * v, flat=True)
        ctx.eq(r, np.sqrt(ref), 'norm')
    else: ctx.eq(r, ref, 'norm' if norm else 'integral')

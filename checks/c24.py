"""C24: direction-by-direction evaluation gives the same result as the full grid."""
import itertools
import numpy as np
from common import *
from c22 import H, F
from c18 import couplings, product, X, cst
NATIVE = ['discretize', 'transform', 'integrate', 'varf', 'varfd', 'tensorize (vectors, dense and sparse matrices)']
OPT = {'paths': 1, 'timeout': 90, 'qtime': 10}
OPT_THOROUGH = {'paths': 3}
BOUNDS = {'dimension': '1..4', 'degree': '0..4', 'points per direction': '1..3', 'weights, means, standard deviations': 'symbolic (nodes too in the one- and two-dimensional transforms)',
          'functions': 'every choice of up to 2 coupled direction sets in 2 and 3 directions, sums of up to 3 products; atan, tanh, erf, asinh stand for arbitrary functions', 'factor': 'one, products and coupled products', 'threshold': 'coefficients that varf drops (below 1e-12 of the norm) count as equal'}
MSETS = ('triangle', 'cube', 'rectangle')
def cases(tier):
    out = []
    T = tier != 'quick'
    def fn(dim, coup, sh=0, sing=0): return [[coup, sh, sing]]
    # integrate and transform
    n = 0
    for dim, dirss in ((1, ([0], [3])), (2, ([0, 1], [1, 4])), (3, ([0, 1, 2], [0, 2, 3])), (4, ([0, 1, 2, 3],))):
        cs = list(couplings(dim, 2 if dim < 4 else 1))
        for c in cs:
            for dirs in dirss:
                for fc in range(3):
                    n += 1
                    if dim >= 3 and not T and n % 3: continue
                    out.append({'op': 'integrate', 'dirs': dirs, 'f': fn(dim, c, n % 4, n % 3), 'fc': fc, 'types': n % 3, 'flat': 0})
                    for s in SETS if dim < 3 or T else (SETS[n % 5], SETS[(n + 2) % 5]):
                        types = 0 if n % 2 or dim == 4 else 1
                        deg = {1: 4, 2: 3, 3: 2, 4: 1}[dim] - (n % 2 if dim < 4 else 0)
                        out.append({'op': 'transform', 'dirs': dirs, 'f': fn(dim, c, n % 4, n % 3), 'fc': fc, 's': s, 'deg': deg + deg % 2 if types else deg, 'types': types})
    # sums
    import random
    r = random.Random(11)
    for dim in (2, 3):
        al = list(couplings(dim, 2))
        for i in range(12 if not T else 60):
            f = [[r.choice(al), (0, 2, 1)[j], r.randrange(3)] for j in range(r.choice((2, 3)))]
            s = SETS[i % 5]
            out.append({'op': 'integrate', 'dirs': list(range(dim)), 'f': f, 'fc': i % 3, 'types': i % 3, 'flat': 0})
            out.append({'op': 'transform', 'dirs': list(range(dim)), 'f': f, 'fc': i % 3, 's': s, 'deg': 2, 'types': i % 2})
            for sp in (False, True): out.append({'op': 'varf', 'dirs': list(range(dim)), 'f': f, 'fc': i % 3, 's': MSETS[i % 3], 'deg': 1 if dim == 3 else 2, 'types': i % 2 if dim == 2 else 0, 'sparse': sp})
    for dirs in ([0], [0, 1], [1, 2]):
        for fc in (0, 1): out.append({'op': 'integrate', 'dirs': dirs, 'f': fn(len(dirs), [], 0, 1), 'fc': fc, 'types': 0, 'flat': 1})
    # matrices
    for dim, dirss, degs in ((1, ([0], [2]), (1, 2, 3)), (2, ([0, 1], [1, 3]), (1, 2)), (3, ([0, 1, 2],), (1,))):
        for c in couplings(dim, 2 if dim < 3 else 1):
            for dirs in dirss:
                for s in MSETS:
                    for deg in degs:
                        n += 1
                        t = n % 3 if deg % 2 == 0 else 0
                        out.append({'op': 'varf', 'dirs': dirs, 'f': fn(dim, c, n % 4, n % 3), 'fc': n % 3, 's': s, 'deg': deg, 'types': t, 'sparse': bool(n % 2)})
                        for ds in [[d] for d in dirs] + ([[dirs[0], dirs[-1]], [dirs[-1], dirs[-1]]] if deg > 1 or dim == 3 else []):
                            n += 1
                            out.append({'op': 'varfd', 'dirs': dirs, 'f': fn(dim, c, n % 4, n % 3), 'fc': n % 3, 's': s, 'deg': deg, 'types': t, 'sparse': bool(n % 2), 'ds': ds})
    # constants and zero
    for op in ('integrate', 'transform', 'varf', 'varfd'):
        for e in ('0', '1', '7/3'):
            for dirs in ([0], [0, 2]): out.append({'op': op, 'dirs': dirs, 'const': e, 'fc': 1, 's': 'triangle', 'deg': 2, 'types': 0, 'sparse': False, 'ds': dirs[:1], 'flat': 0})
    out.append({'op': 'other'})
    # with a Fourier direction among several, triangle and rectangle at twice the degree do not contain every product of two basis functions: see the finding below
    for c in out:
        if c['op'].startswith('varf') and c['types'] and len(c['dirs']) > 1: c['s'] = 'cube'
    for s in ('triangle', 'rectangle'): out.append({'op': 'varf', 'finding': 1, 'dirs': [0, 1], 'f': [[[], 0, 1]], 'fc': 0, 's': s, 'deg': 2, 'types': 1 if s == 'triangle' else 2, 'sparse': False})
    return out
UN = ['atan', 'tanh', 'erf', 'asinh']
def un(i, a):
    import sympy
    return getattr(sympy, UN[i % len(UN)])(a / 4)
def factor(dirs, fc):
    import sympy
    if fc == 0: return sympy.Integer(1)
    e = sympy.prod([sympy.exp(-sympy.Rational(1, i + 3) * X(d) ** 2) * (2 if i == 0 else 1) for i, d in enumerate(dirs)])
    if fc == 2 and len(dirs) > 1: e = e * sympy.exp(-X(dirs[0]) * X(dirs[-1]) / 5)
    return e
def run(ctx, case):
    import sympy, hermipy as hm, hermipy.core as core
    if case['op'] == 'other': return other(ctx)
    dirs = case['dirs']; dim = len(dirs)
    types = [F if (case['types'] == 2 or case['types'] == 1 and i % 2 == 0) else H for i in range(dim)]
    if 'const' in case: e = sympy.sympify(case['const'])
    else:
        e = sympy.Integer(0)
        for j, (c, sh, sing) in enumerate(case['f']):
            t = sympy.Rational(3 + 2 * j, 2) * cst(j + len(c))
            for _, g in product(dirs, c, sh, sing, un): t = t * g
            e = e + t
    npts = 3 if dim == 1 else 2 if dim < 4 else 1
    nodes = None if dim <= 2 and case['op'] == 'integrate' or dim == 1 and case['op'] == 'transform' and case['types'] == case['fc'] == 0 else [[(-1) ** i * (0.37 + 0.41 * i + 0.13 * d) for i in range(npts)] for d in range(dim)]
    if case['op'].startswith('varf'): weights = [[0.9 - 0.17 * i + 0.05 * d for i in range(npts)] for d in range(dim)]
    else: weights = None
    flat = case.get('flat')
    if flat: nodes = [[(-1) ** i * (0.37 + 0.41 * i + 0.13 * d) for i in range(npts)] for d in range(dim)]
    fx = factor(dirs, case['fc'])
    q, x, w, m, s = quad(ctx, 'q', dirs, npts, types, factor=fx, nodes=nodes, weights=weights, mean=not flat, sig=not flat)
    def call(t):
        if case['op'] == 'integrate': return q.integrate(e, flat=True, tensorize=t) if flat else q.integrate(e, tensorize=t)
        if case['op'] == 'transform': return q.transform(e, case['deg'], index_set=case['s'], tensorize=t)
        if case['op'] == 'varf': return q.varf(e, case['deg'], sparse=case['sparse'], index_set=case['s'], tensorize=t)
        return q.varfd(e, case['deg'], case['ds'], sparse=case['sparse'], index_set=case['s'], tensorize=t)
    a, b = call(True), call(False)
    old = hm.settings['tensorize']
    if case['op'] == 'integrate':
        ctx.eq(a, b, 'integral')
        # and the full grid is the weighted sum
        if not flat:
            tot = np.float64(0.0)
            for g, p in points(dirs, x, m, s, npts):
                t = evalf(e, p)
                for i in range(dim): t = t * w[i, g[i]]
                tot = tot + t
            ctx.eq(b, tot, 'integral on the full grid')
        return
    if case['op'] == 'transform': ctx.eq(a.coeffs, b.coeffs, 'coefficients')
    else:
        import scipy.sparse as ss
        ctx.true(ss.issparse(a.matrix) == ss.issparse(b.matrix) == case['sparse'] == a.is_sparse == b.is_sparse, 'storage')
        ctx.eq(a.matrix, b.matrix, 'matrix')
    for r, nm in ((a, 'direction by direction'), (b, 'full grid')):
        meta(ctx, r, dirs, m, s, types, fx, case['s'], nm)
def other(ctx):
    import sympy, hermipy as hm
    # the setting decides when the argument is absent
    q, x, w, m, s = quad(ctx, 'q', [0, 1], 2)
    e = un(0, X(0)) * un(1, X(1)) + un(2, X(0) + X(1))
    try:
        hm.settings['tensorize'] = True
        a, c = q.integrate(e), q.transform(e, 1).coeffs
        hm.settings['tensorize'] = False
        b, d = q.integrate(e), q.transform(e, 1).coeffs
    finally: hm.settings['tensorize'] = True
    ctx.eq(a, b, 'integral by the setting'); ctx.eq(c, d, 'transform by the setting')
    # a factor that is a sum is refused, or gives the same result
    q, x, w, m, s = quad(ctx, 'r', [0, 1], 2, factor=un(0, X(0)) + 3 + un(1, X(1)))
    v = ctx.array('v', 4)
    ctx.eq(q.integrate(v), ssum(v[2 * i + j] * w[0, i] * w[1, j] for i in (0, 1) for j in (0, 1)), 'integral of values')

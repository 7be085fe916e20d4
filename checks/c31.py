"""C31: converting a series to a function gives the function it represents."""
import itertools
import numpy as np
from common import *
from c22 import fac
NATIVE = ['transform (backward)', 'discretize', 'list of every index set']
OPT = {'paths': 4, 'timeout': 90}
BOUNDS = {'dimension': '1..4', 'degree': '0..8 in one dimension, 0..4 in two, 0..3 in three, 0..1 in four', 'coefficients, means, standard deviations, point': 'symbolic', 'index sets': 'all', 'directions': 'subsets of the five'}
def cases(tier):
    out = []
    mx = {1: 8, 2: 4, 3: 3, 4: 1} if tier == 'quick' else {1: 12, 2: 6, 3: 4, 4: 2}
    DR = {1: ([0], [3], [4]), 2: ([0, 1], [1, 4], [2, 3]), 3: ([0, 1, 2], [0, 2, 4]), 4: ([0, 1, 2, 3], [1, 2, 3, 4])}
    for dim in (1, 2, 3, 4):
        for s in SETS:
            for d in range(0 if 'cross' not in s else 1, mx[dim] + 1):
                if s == 'cube' and dim > 2 and d > 2: continue
                for dirs in DR[dim]:
                    if d == mx[dim] and dirs != DR[dim][0]: continue
                    for f in ('one', 'gauss', 'coupled') if d <= 3 and dirs == DR[dim][0] else ('gauss',):
                        out.append({'s': s, 'dirs': dirs, 'deg': d, 'f': f})
    for s in SETS:
        for dirs in ([0], [1, 3], [0, 1, 2]): out.append({'s': s, 'dirs': dirs, 'deg': 2, 'f': 'gauss', 'agree': 1})
    out.append({'bad': 1})
    return out
def factor(f, dirs):
    import sympy
    if f == 'one': return 1
    e = sympy.exp(-sum(sympy.Rational(i + 1, 4) * sympy.Symbol('x%d' % d, real=True) ** 2 for i, d in enumerate(dirs)))
    if f == 'coupled' and len(dirs) > 1: e = e * sympy.cos(sympy.Symbol('x%d' % dirs[0], real=True) * sympy.Symbol('x%d' % dirs[-1], real=True))
    return e
def run(ctx, case):
    import hermipy as hm, hermipy.core as core
    if 'bad' in case:
        c = np.array([[1.0, .3], [.3, 1.0]])
        ctx.raises(lambda: hm.Series(np.zeros(3), hm.Position(dirs=[0, 1], mean=[0., 0.], cov=c)).to_function(), 'full covariance')
        return
    s, dirs, deg = case['s'], case['dirs'], case['deg']
    L = listing(core, s, len(dirs), deg)
    a = ctx.array('a', len(L)); p, m, sg = position(ctx, 'p', dirs)
    f = factor(case['f'], dirs)
    S = hm.Series(a, p, factor=f, index_set=s)
    g = S.to_function()
    ctx.true(list(g.dirs) == list(dirs), 'directions of the function')
    if case.get('agree'):
        q, x, w, m2, s2 = quad(ctx, 'q', dirs, 2)
        pts = [e for _, e in points(dirs, x, m2, s2, 2)]
        ctx.eq(q.eval(S), np.array([evalf(g, e) for e in pts]), 'evaluation of the series and of the function')
        return
    env = {d: ctx.var('at%d' % d, -1.5, 1.5) for d in dirs}
    B = [basis(False, deg, (env[d] - m[i]) / sg[i]) for i, d in enumerate(dirs)]
    r = ssum(a[i] * prod_(B, q) for i, q in enumerate(L))
    try: v = evalf(g, env)
    except KeyError as e: return ctx.fail('the function has another variable: %s' % e)
    ctx.eq(v, r * evalf(f, env), 'function of the series', tol=1e-7)
def prod_(B, q):
    r = np.float64(1.0)
    for b, k in zip(B, q): r = r * b[k]
    return r

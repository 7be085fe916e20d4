"""C38: objects compare equal exactly when they represent the same thing."""
import itertools, math
import numpy as np
from common import *
from c22 import H, F, fac
NATIVE = []
OPT = {'paths': 12, 'timeout': 60, 'qtime': 20}
BOUNDS = {'dimension': '1..3', 'degree, points': '0..4', 'coefficients, entries, nodes, weights, means, variances': 'symbolic', 'difference': 'one component of symbolic position by a symbolic amount in [1/100,1], or a structural difference (directions, types, index set, factor, degree, number of points, class)',
          'covariances that are not diagonal': 'fixed numbers', 'tolerance': 'differences between 1e-10 and 1/100 are outside the statement'}
CF = [([0], [H]), ([2], [F]), ([0, 1], [H, F]), ([0, 2], [H, H]), ([1, 2, 3], [H, F, H])]
def cases(tier):
    out = []
    for dirs, types in CF:
        b = {'dirs': dirs, 'types': types}
        n = len(dirs)
        for what in ['same', 'type', 'dirs', 'dim'] + ['mean%d' % i for i in range(n)] + ['var%d' % i for i in range(n)]:
            for cl in ('position', 'series', 'varf', 'varfs', 'quad'): out.append(dict(b, cl=cl, what=what, s='triangle', deg=1))
        for s in SETS if n > 1 else SETS[:1]:
            for deg in (1, 2) if n < 3 else (1,):
                for what in ('same', 'near', 'entry', 'degree', 'set', 'factor'):
                    for cl in ('series', 'varf', 'varfs', 'varfm'):
                        if n == 3 and what in ('near', 'entry') and s == 'cube' and cl != 'series': continue
                        out.append(dict(b, cl=cl, what=what, s=s, deg=deg))
        for np_ in (1, 3):
            for what in ('same', 'near', 'node', 'weight', 'points', 'factor'): out.append(dict(b, cl='quad', what=what, s='triangle', deg=np_))
    for n in (1, 2, 3):
        for i in range(n):
            for j in range(i, n):
                for base in ('diagonal', 'full'):
                    for d in (.01, .05, -.07): out.append({'cl': 'cov', 'n': n, 'i': i, 'j': j, 'base': base, 'd': d})
    for cl in ('sizes', 'classes'): out.append({'cl': cl})
    return out
def run(ctx, case):
    import hermipy as hm, hermipy.core as core
    cl = case['cl']
    def eq(A, B, want, what):
        r = A == B
        ctx.true(bool(r) == want, '%s: equal is %s' % (what, r))
        r = B == A
        ctx.true(bool(r) == want, '%s: equal is %s (other order)' % (what, r))
    if cl == 'cov':
        # covariances that are not diagonal, different in an entry off the diagonal or on it
        n, i, j = case['n'], case['i'], case['j']
        c = np.array([[1.0, 0.4, 0.1], [0.4, 2.0, 0.3], [0.1, 0.3, 1.5]])[:n, :n]; d = ctx.var('d', .01, .09) if case['base'] == 'diagonal' and i == j else np.float64(case['d']); m = ctx.array('m', n)
        if case['base'] == 'diagonal': c = np.diag(np.diag(c))
        e = c.copy(); e[i, j] = e[i, j] + d
        if i != j: e[j, i] = e[j, i] + d
        ds = list(range(n))
        P, P1, P2 = (hm.Position(dirs=ds, mean=m.copy(), cov=x.copy()) for x in (c, c, e))
        eq(P, P1, True, 'same covariance'); eq(P, P2, False, 'covariances different in [%d,%d]' % (i, j))
        N = len(listing(core, 'triangle', n, 1)); a = ctx.array('a', N); A = pattern(ctx, 'A', N); x = ctx.array('x', (n, 1))
        for what, f in (('series', lambda p: hm.Series(a.copy(), p)), ('varf', lambda p: hm.Varf(A.copy(), p)), ('quad', lambda p: hm.Quad(x, x, position=p))):
            eq(f(P), f(P1), True, what + ', same covariance'); eq(f(P), f(P2), False, what + ', covariances different in [%d,%d]' % (i, j))
        return
    if cl == 'sizes':
        # index sets of different kind with as many multi-indices: other functions
        by = {}
        for s in SETS:
            for d in range(1, 7): by.setdefault(len(listing(core, s, 2, d)), []).append((s, d))
        for N, l in by.items():
            if N > 30: continue
            for (s, d), (t, e) in itertools.combinations(l, 2):
                if s == t: continue
                c = ctx.array('c%d' % N, N)
                eq(hm.Series(c.copy(), hm.Position(dim=2), index_set=s), hm.Series(c.copy(), hm.Position(dim=2), index_set=t), False, '%s of degree %d and %s of degree %d' % (s, d, t, e))
        return
    if cl == 'classes':
        p, _, _ = position(ctx, 'p', [0]); c = ctx.array('c', 2)
        A = hm.Series(c, p); B = hm.Varf(np.array([[c[0], c[1]], [c[1], c[0]]]), p); Q = hm.Quad([c], [c], position=p)
        for a in (A, B, Q):
            for b in (A, B, Q, 3, 'x'):
                if a is not b: ctx.raises(lambda: a == b, 'comparison of %s and %s' % (type(a).__name__, type(b).__name__), ValueError)
        return
    dirs, types, what, s, deg = (case[k] for k in ('dirs', 'types', 'what', 's', 'deg'))
    n = len(dirs)
    P, m, sg = position(ctx, 'p', dirs, types)
    m2, s2, dirs2, types2 = m.copy(), sg.copy(), list(dirs), list(types)
    d = ctx.var('delta', .01, 1.)
    if what[:3] == 'mea': m2[int(what[4:])] = m2[int(what[4:])] + d
    if what[:3] == 'var': s2[int(what[3:])] = s2[int(what[3:])] + d
    if what == 'type': types2[-1] = F if types[-1] == H else H
    if what == 'dirs': dirs2[-1] = 4
    if what == 'dim': dirs2, types2, m2, s2 = dirs2 + [4], types2 + [H], np.append(m2, ctx.var('mx')), np.append(s2, 1.0)
    c2 = np.zeros((len(dirs2),) * 2)
    for i in range(len(dirs2)): c2[i, i] = s2[i] * s2[i]
    P2 = hm.Position(dirs=dirs2, mean=m2, cov=c2, types=types2)
    want = what in ('same', 'near')
    if cl == 'position': return eq(P, P2, want, what)
    f, g = fac(dirs), fac(dirs2)
    if what == 'factor': g = fac(dirs2, 1)
    near = ctx.var('near', -1e-12, 1e-12)
    if cl == 'quad':
        x, w = ctx.array('x', (n, deg)), ctx.array('w', (n, deg), .1, 1.)
        x2, w2 = x.copy(), w.copy()
        if what == 'near': x2[-1, -1] = x2[-1, -1] + near; w2[0, 0] = w2[0, 0] - near
        if what == 'node': x2[-1, 0] = x2[-1, 0] - d
        if what == 'weight': w2[0, -1] = w2[0, -1] + d
        if what == 'points': x2, w2 = ctx.array('y', (n, deg + 1)), ctx.array('v', (n, deg + 1), .1, 1.)
        if what == 'dim': x2, w2 = np.vstack([x2, x2[:1]]), np.vstack([w2, w2[:1]])
        return eq(hm.Quad(x, w, position=P, factor=f), hm.Quad(x2, w2, position=P2, factor=g), want, what)
    t, e = s, deg
    if what == 'degree': e = deg + 1
    if what == 'set':
        if n == 1: return
        t = SETS[(SETS.index(s) + 1) % len(SETS)]
    N, N2 = len(listing(core, s, n, deg)), len(listing(core, t, len(dirs2), e))
    j = {'entry': N // 2}.get(what)
    if cl == 'series':
        a = ctx.array('a', N)
        b = a.copy() if N2 == N else np.append(a, ctx.array('b', N2 - N)) if N2 > N else a[:N2].copy()
        if what == 'entry': b[j] = b[j] - d
        if what == 'near': b[-1] = b[-1] + near
        return eq(hm.Series(a, P, factor=f, index_set=s), hm.Series(b, P2, factor=g, index_set=t), want, what)
    A = pattern(ctx, 'a', N, keep=lambda i, j: cl == 'varf' or (i + 2 * j) % 3 == 0)
    B = np.zeros((N2, N2)); k = min(N, N2); B[:k, :k] = A[:k, :k]
    if what == 'entry': B[0, j] = B[0, j] + d
    if what == 'near': B[-1, 0] = B[-1, 0] + near
    mk = {'varf': (np.array, np.array), 'varfs': (csr, csr), 'varfm': (csr, np.array)}[cl]
    eq(hm.Varf(mk[0](A), P, factor=f, index_set=s), hm.Varf(mk[1](B), P2, factor=g, index_set=t), want, what)

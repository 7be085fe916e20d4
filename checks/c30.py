"""C30: solving with a matrix operator satisfies the equations it states."""
import itertools
import numpy as np
from common import *
from c22 import fac, H, F
NATIVE = ["none (NumPy and SciPy loops)"]
OPT = {'paths': 2, 'timeout': 60, 'qtime': 20}
BOUNDS = {'dimension': '1..3', 'unknowns': '1..8 (with a vector to remove: 1..6, and any vector up to 3)', 'matrix entries, right-hand side, vector, means, standard deviations': 'symbolic, diagonally dominant matrices',
          'solvers': 'numpy.linalg.solve, scipy spsolve, gmres and spilu are contract stubs: they return some vector satisfying the equations they are given', 'smallest eigenvalue (remove0)': 'symbolic in [-1/200, 1/200], 3..6 unknowns, eigenvector symbolic up to 4; ARPACK is a contract stub', 'outside': 'other singular systems, convergence of gmres and ARPACK'}
def cases(tier):
    T = tier != 'quick'
    out = []; n = 0
    def add(dirs, s, deg, **k):
        nonlocal n
        n += 1
        out.append(dict({'dirs': dirs, 's': s, 'deg': deg, 'types': 0, 'st': ('dense', 'sparse')[n % 2], 'pat': n % 3, 'gmres': 0}, **k))
    for s in SETS:
        for dirs, degs in (([0], (1, 2, 4, 7)), ([3], (1, 3)), ([0, 1], (1, 2)), ([1, 4], (1, 2)), ([0, 1, 2], (1,)), ([0, 2, 4], (1,))):
            for deg in degs:
                if s in ('cube', 'rectangle') and len(dirs) * deg > 3 and len(dirs) > 1: continue
                for st in ('dense', 'sparse'):
                    add(dirs, s, deg, st=st); add(dirs, s, deg, st=st)
                    if s == 'triangle': add(dirs, s, deg + deg % 2, st=st, types=1)
                    if deg * len(dirs) <= 3 or len(dirs) == 1 and deg == 4: add(dirs, s, deg, st=st, rem='fixed'); add(dirs, s, deg, st=st, rem='fixed')
    for dirs, degs in (([0], (0, 1, 2)), ([0, 1], (1,)), ([2], (1, 2))):
        for deg in degs:
            for st in ('dense', 'sparse'):
                for p in (0, 1): add(dirs, 'triangle', deg, st=st, rem='any', pat=p)
    for st in ('dense', 'sparse'):
        for g in (1, 2):
            if st == 'dense' and g == 2: continue
            add([0], 'triangle', 3, st=st, gmres=g); add([0, 1], 'cross', 2, st=st, gmres=g); add([0, 1], 'cube', 1, st=st, gmres=g, rem='fixed')
        for dirs, s, deg in (([0], 'triangle', 2), ([2], 'cube', 3), ([0], 'cross', 5), ([0, 1], 'triangle', 1), ([1, 4], 'cube', 1), ([0, 1], 'triangle', 2), ([0, 1, 2], 'cross_nc', 1), ([0, 2], 'rectangle', 2)):
            for lam in (0, 1): add(dirs, s, deg, st=st, rem='zero', lam=lam); add(dirs, s, deg, st=st, rem='zero', lam=lam, gmres=1)
        for what in ('mean', 'var', 'set', 'set2', 'dirs', 'types', 'dim'): out.append({'kind': 'bad', 'what': what, 'st': st})
    return out
def run(ctx, case):
    import hermipy as hm, hermipy.core as core, scipy.sparse as ss, sys
    X = sys.modules.get('symx')
    if X is not None: X.SOLVE_BOUND = 8.0
    if case.get('kind') == 'bad': return bad(ctx, case)
    dirs, s, deg = case['dirs'], case['s'], case['deg']; dim = len(dirs)
    types = [F if case['types'] and i % 2 == 0 else H for i in range(dim)]
    N = len(listing(core, s, dim, deg))
    p, m, sg = position(ctx, 'p', dirs, types)
    f = fac(dirs)
    A = np.zeros((N, N))
    keep = [lambda i, j: True, lambda i, j: (2 * i + j) % 3 != 0, lambda i, j: j - i in (1, -2)][case['pat']]
    for i in range(N):
        for j in range(N):
            if i == j: A[i, j] = ctx.var('a_%d_%d' % (i, j), 1.5, 2.5)
            elif keep(i, j): A[i, j] = ctx.var('a_%d_%d' % (i, j), -1. / N, 1. / N)
    rem = case.get('rem')
    pb = None
    if rem == 'zero':
        import c34
        K = c34.Known(ctx, N, 'k', 0, lam0=np.float64(0.0) if not case['lam'] else ctx.var('lam', -.005, .005), sym=N <= 4); K.centres(ctx); A = K.A
        pb = sys.modules.get('pybridge') if ctx.symbolic else None
        if pb: pb.EIGS[0] = c34.stub(ctx, [K])
    b = ctx.array('b', N)
    V = hm.Varf(csr(A) if case['st'] == 'sparse' else A, p, factor=f, index_set=s)
    B = hm.Series(b, p, factor=f, index_set=s)
    kw = {}
    if case['gmres']:
        kw['use_gmres'] = True
        if not ctx.symbolic: kw['tol'] = 1e-12
        if case['gmres'] == 2: kw['preconditioner'] = 'ilu'
    if rem == 'zero':
        try: x = V.solve(B, remove0=True, quiet=True, **kw)
        finally:
            if pb: pb.EIGS[0] = None
        v = K.vector(0)[0]; R = None
    elif rem:
        v = np.array([1.0 - 0.45 * i + 0.1 * i * i for i in range(N)]) if rem == 'fixed' else np.array([ctx.var('v_%d' % i, 0.5, 1.0) for i in range(N)])
        R = hm.Series(v.copy(), p, factor=f, index_set=s)
        x = V.solve(B, remove_vec=R, quiet=True, **kw)
    else: x = V.solve(B, **kw)
    meta(ctx, x, dirs, m, sg, types, f, s, 'solution')
    c = np.asarray(x.coeffs)
    if c.shape != (N,): return ctx.fail('the solution has shape %s' % (c.shape,))
    r = [ssum(A[i, j] * c[j] for j in range(N)) - b[i] for i in range(N)]
    tol = 1e-8 if not case['gmres'] else 1e-6
    if not rem: ctx.eq(np.array(r), np.zeros(N), 'operator applied to the solution', tol=tol)
    else:
        ctx.eq(ssum(v[i] * c[i] for i in range(N)), 0.0, 'orthogonality to the removed vector', tol=tol)
        for i in range(N):
            for j in range(i): ctx.eq(r[i] * v[j], r[j] * v[i], 'the defect is a multiple of the removed vector', tol=tol)
    # the operands are left alone
    ctx.eq(np.asarray(B.coeffs), b, 'right-hand side afterwards'); ctx.eq(V.matrix, A, 'matrix afterwards')
    if rem and R is not None: ctx.eq(np.asarray(R.coeffs), v, 'vector afterwards')
def bad(ctx, case):
    import hermipy as hm, hermipy.core as core
    dirs = [0, 1]
    p, m, sg = position(ctx, 'p', dirs)
    w = case['what']; q, s, t = p, 'triangle', [H, H]
    if w == 'set2': s = 'cube'                   # as many indices as the cross of degree one
    N = 4 if w == 'set2' else 3
    A = np.eye(N) * 2.0; b = ctx.array('b', N)
    V = hm.Varf(csr(A) if case['st'] == 'sparse' else A, p, index_set=s)
    own = s
    if w == 'set2': s = 'cross'
    c = np.zeros((2, 2)); c[0, 0], c[1, 1] = sg[0] * sg[0], sg[1] * sg[1]
    mm = m.copy()
    if w == 'mean': mm[1] = mm[1] + ctx.var('e', 0.1, 1.)
    if w == 'var': c[0, 0] = c[0, 0] + ctx.var('e', 0.1, 1.)
    if w == 'set': s = 'cross'; b = ctx.array('b', len(listing(core, 'cross', 2, 2)))
    if w == 'types': t = [F, H]
    if w == 'dim': q = hm.Position(dirs=[0], mean=mm[:1], cov=c[:1, :1])
    else: q = hm.Position(dirs=[0, 2] if w == 'dirs' else dirs, mean=mm, cov=c, types=t)
    B = hm.Series(b, q, index_set=s)
    ctx.raises(lambda: V.solve(B), 'right-hand side with another ' + w)
    ctx.true(V.solve(hm.Series(ctx.array('b', N), p, index_set=own)).position == p, 'position')

"""C34: computed eigenpairs satisfy the eigenvalue equation.

The operators are built as P D P^-1 with symbolic blocks in D and symbolic P = I + L, so that their
eigenpairs are known polynomials of the inputs.  ARPACK is a contract stub: given such a matrix it
returns the k pairs its arguments ask for, each eigenvector times an arbitrary symbolic factor.
The replay uses ARPACK itself."""
import numpy as np
from common import *
from c22 import fac, H, F
NATIVE = ['none (NumPy and SciPy loops)']
OPT = {'paths': 4, 'timeout': 60, 'qtime': 20}
BOUNDS = {'unknowns': '4..10', 'dimension': '1..3', 'eigenvalues': 'real and complex pairs; symbolic in disjoint boxes in two configurations out of three, fixed numbers in the third (where code that sorts or filters complex eigenvalues runs on them)', 'eigenvectors': 'symbolic', 'number and selection': 'k = 1..3, largest/smallest modulus or real part, nearest to a shift, default',
          'operators per session': '1..3, also with the cache on', 'ARPACK': 'contract stub: it returns eigenpairs of the matrix it is given, scaled arbitrarily', 'outside': 'convergence and accuracy of ARPACK, defective matrices'}
ASSUMPTIONS = ['scipy.sparse.linalg.eigs returns eigenpairs of the matrix it is given, selected by k, which and sigma']
WH = (None, 'LM', 'SM', 'LR', 'SR', 'sigma')
def cases(tier):
    T = tier != 'quick'
    out = []; n = 0
    for s in SETS:
        for dirs, deg in (([0], 4), ([2], 3), ([0], 7), ([0, 1], 2), ([1, 3], 3 if s in ('triangle', 'cross') else 2), ([0, 1, 2], 1), ([0, 2, 4], 1)):
            if s in ('cube', 'rectangle') and len(dirs) == 2 and deg > 2: continue
            for st in ('dense', 'sparse'):
                for cplx in (0, 1, 2):
                    for w in WH if T else [WH[n % 6], WH[(n + 2) % 6]]:
                        n += 1
                        out.append({'dirs': dirs, 's': s, 'deg': deg, 'st': st, 'cplx': cplx, 'which': w, 'k': 1 + n % 3, 'ops': 1 + (n % 7 == 0) + (n % 14 == 0), 'cache': n % 4 == 0, 'num': n // 3 % 3 == 1, 'types': n % 5 == 0})
    return out
class Known:
    """an operator with known eigenpairs"""
    def __init__(self, ctx, N, tag, cplx, num=False, lam0=None, sym=True):
        spread = .2
        self.N = N
        self.re, self.im = [None] * N, [np.float64(0.0)] * N
        D = np.zeros((N, N)); self.pair = {}
        sg = [1, -1, 1, 1, -1]
        i = 0
        while i < N:
            c = sg[i % 5] * (i + 1.0)
            x = np.float64(c + .1) if num else ctx.var('%sl%d' % (tag, i), c - spread, c + spread)
            if i == 0 and lam0 is not None: x = lam0
            self.re[i] = x; D[i, i] = x
            if cplx and i % 3 == (1 if cplx == 1 else 0) and i + 1 < N:
                y = np.float64(.4) if num else ctx.var('%sw%d' % (tag, i), .3, .5)
                D[i + 1, i + 1] = x; D[i, i + 1] = -y; D[i + 1, i] = y
                self.re[i + 1] = x; self.im[i] = y; self.im[i + 1] = -y
                self.pair[i] = (i, i + 1, -1.0); self.pair[i + 1] = (i, i + 1, 1.0); i += 1
            i += 1
        L = np.zeros((N, N))
        h = (N + 1) // 2
        for a in range(h, N):
            for b in range(h):
                if sym and (a + 2 * b) % 3 == 0: L[a, b] = ctx.var('%sp%d_%d' % (tag, a, b), -.4, .4)
                elif (a + b) % 3: L[a, b] = .25
        # P = I + L, P^-1 = I - L; the rows and columns are renumbered
        q = [(3 * j + 1) % N if N % 3 else (N - 1 - j) for j in range(N)]
        Z = np.zeros((N, N))
        B = np.zeros((N, N)); A = np.zeros((N, N))
        for a in range(N):
            for b in range(N): B[a, b] = D[a, b] + ssum(L[a, j] * D[j, b] for j in range(h)) - ssum((D[a, j] + ssum(L[a, l] * D[l, j] for l in range(h))) * L[j, b] for j in range(h, N))
        for a in range(N):
            for b in range(N): A[q[a], q[b]] = B[a, b]
        self.A = A
        self.P = Z.copy()
        for a in range(N):
            for b in range(N): self.P[q[a], b] = L[a, b] + (1.0 if a == b else 0.0)
    def select(self, k, which, sigma):
        """indices of the k eigenvalues asked for (by the centres of their boxes), ties are conjugates"""
        c = [complex(self.c[i][0], self.c[i][1]) for i in range(self.N)]
        if sigma is not None: key = lambda i: abs(c[i] - sigma)
        else: key = {'LM': lambda i: -abs(c[i]), 'SM': lambda i: abs(c[i]), 'LR': lambda i: -c[i].real, 'SR': lambda i: c[i].real}[which]
        return sorted(range(self.N), key=key)[:k]
    def centres(self, ctx):
        self.c = [(float(ctx.value(self.re[i])), float(ctx.value(self.im[i]))) for i in range(self.N)]
    def vector(self, i):
        if i not in self.pair: return self.P[:, i].copy(), np.zeros(self.N)
        a, b, s = self.pair[i]
        return self.P[:, a].copy(), self.P[:, b] * s
def stub(ctx, ops):
    """contract of scipy.sparse.linalg.eigs on the operators of this session"""
    cnt = [0]
    def eigs(M, k, M_=None, sigma=None, which='LM', v0=None, ncv=None, maxiter=None, tol=0, return_eigenvectors=True, **kw):
        import pybridge
        X = pybridge.X
        for o in ops:
            if o.A.shape == M.shape and all(X.tobits(float(x)) == X.tobits(float(y)) for x, y in zip(M.ravel(), o.A.ravel())): break
        else:
            o = min((o for o in ops if o.A.shape == M.shape), key=lambda o: sum(X.tobits(float(x)) != X.tobits(float(y)) for x, y in zip(M.ravel(), o.A.ravel())), default=None)
            if o is None: raise ValueError('no such operator')
            ctx.eq(M, o.A, 'matrix handed to the eigen-solver')
        ix = o.select(k, which, sigma)
        vals, vecs = np.zeros(k, dtype=complex), np.zeros((o.N, k), dtype=complex)
        order = (ix, ix[::-1], ix[1:] + ix[:1])[(o.N + k + len(which) + (sigma is None)) % 3]
        for j, i in enumerate(order):
            cnt[0] += 1
            x, y = o.vector(i)
            c = ctx.var('scale%d' % cnt[0], -1.0, -.5)
            if i in o.pair:
                d = ctx.var('phase%d' % cnt[0], .3, .6)
                x, y = x * c - y * d, x * d + y * c
            else: x = x * c
            vals.real[j] = o.re[i]; vals.imag[j] = o.im[i]
            vecs.real[:, j] = x; vecs.imag[:, j] = y
        return (vals, vecs) if return_eigenvectors else vals
    return eigs
def run(ctx, case):
    import hermipy as hm, hermipy.core as core, sys
    from hermipy.settings import settings
    dirs, s, deg, k = case['dirs'], case['s'], case['deg'], case['k']
    types = [F if case['types'] and deg % 2 == 0 and i == 0 and s == 'triangle' else H for i in range(len(dirs))]
    N = len(listing(core, s, len(dirs), deg))
    ctx.assume(k < N - 1)
    if case['cplx'] and k < 2: k = 2 if N > 3 else 1
    p, m, sg = position(ctx, 'p', dirs, types)
    f = fac(dirs)
    ops = []
    for t in range(case['ops']):
        o = Known(ctx, N, 'abc'[t], case['cplx'], case['num']); o.centres(ctx)
        o.V = hm.Varf(csr(o.A) if case['st'] == 'sparse' else o.A.copy(), p, factor=f, index_set=s)
        ops.append(o)
    pb = sys.modules.get('pybridge') if ctx.symbolic else None
    if pb: pb.EIGS[0] = stub(ctx, ops)
    old = dict(settings)
    try:
        if case['cache']: settings['cache'] = True
        calls = [(o, k) for o in ops]
        if case['cache']: calls += [(ops[0], k + 1 if k + 1 < N - 1 else k), (ops[0], k)]
        for o, kk in calls:
            kw = {'k': kk}
            if case['which'] == 'sigma': kw['sigma'] = 1.6
            elif case['which']: kw['which'] = case['which']
            vals, ss = o.V.eigs(**kw)
            ctx.true(len(vals) == kk and len(ss) == kk, 'number of eigenpairs: %d, %d instead of %d' % (len(vals), len(ss), kk))
            exp = o.select(kk, kw.get('which', 'LM'), kw.get('sigma'))
            got = []
            for e, v in zip(vals, ss):
                meta(ctx, v, dirs, m, sg, types, f, s, 'eigenvector')
                x, y = np.real(v.coeffs), np.imag(v.coeffs)
                a, b = np.real(e), np.imag(e)
                if np.shape(v.coeffs) != (N,): return ctx.fail('the eigenvector has shape %s' % (np.shape(v.coeffs),))
                Ax = np.array([ssum(o.A[i, j] * x[j] for j in range(N)) for i in range(N)])
                Ay = np.array([ssum(o.A[i, j] * y[j] for j in range(N)) for i in range(N)])
                ctx.eq(Ax, x * a - y * b, 'eigenvalue equation, real part'); ctx.eq(Ay, x * b + y * a, 'eigenvalue equation, imaginary part')
                ctx.true(max(abs(float(ctx.value(z))) for z in list(x) + list(y)) > 1e-3, 'the eigenvector is zero')
                z = complex(float(ctx.value(a)), float(ctx.value(b)))
                i = min((i for i in range(N) if i not in got), key=lambda i: abs(z - complex(*o.c[i])))
                got.append(i)
                ctx.eq(a, o.re[i], 'eigenvalue, real part'); ctx.eq(b, o.im[i], 'eigenvalue, imaginary part')
            key = lambda i: o.pair[i][0] if i in o.pair else i
            ctx.true(sorted(map(key, got)) == sorted(map(key, exp)) , 'the eigenvalues are not the ones asked for: %s instead of %s' % (got, exp))
            ctx.eq(o.V.matrix, o.A, 'matrix afterwards')
    finally:
        settings.clear(); settings.update(old)
        if pb: pb.EIGS[0] = None

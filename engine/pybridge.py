"""Keeps symbolic reals intact where they pass through Python code outside
NumPy's float64 loops: exact Python floats, the math module, numpy.linalg
routines written in C, SciPy's sparse kernels and sympy."""
import math, sys
import numpy as np
import symx as X

def is_sym(x): return isinstance(x, float) and X.is_sym_bits(X.tobits(x))
def any_sym(a):
    a = np.asarray(a)
    return a.dtype == np.float64 and a.size and bool(((np.ascontiguousarray(a).view('u8') >> np.uint64(48)) == X.TAG).any())

# ------------------------------------------------------------ exact floats
_float = float
class _M(type):
    def __instancecheck__(cls, x): return isinstance(x, _float)
    def __subclasscheck__(cls, t): return issubclass(t, _float)
    def __eq__(cls, o): return o is cls or o is _float
    def __hash__(cls): return hash(_float)
class symfloat(metaclass=_M):
    dtype = np.dtype(_float)
    fromhex, hex = _float.fromhex, _float.hex
    def __new__(cls, x=0.0):
        if isinstance(x, np.floating) and is_sym(x): return x
        if isinstance(x, np.ndarray) and x.size == 1 and x.dtype == np.float64 and any_sym(x): return np.float64(x.ravel()[0])
        s = sys.modules.get('sympy')
        if s is not None and isinstance(x, s.Expr) and x.free_symbols and all(str(v) in NODES for v in x.free_symbols): return seval(x, {})
        f = getattr(type(x), '__float__', None)
        if f is not None and type(x).__module__.startswith('hermipy'):
            r = f(x)
            return np.float64(r) if is_sym(r) else r
        return _float(x)

def boxed(f):
    def g(*a, **k):
        r = f(*a, **k)
        return np.float64(r) if type(r) is _float and is_sym(r) else r
    g.__name__ = getattr(f, '__name__', 'g')
    return g

# ------------------------------------------------------------ sympy
NODES = {}
def to_sympy(x):
    import sympy
    x = np.float64(x)
    if not is_sym(x): return sympy.Float(_float(x))
    nm = 'vfnode%dq' % (X.tobits(x) & 0xFFFFFFFFFFFF)
    NODES[nm] = x
    return sympy.Symbol(nm, real=True)

UFS = {'erf': 'erf', 'gamma': 'tgamma', 'atan': 'atan', 'asinh': 'asinh', 'loggamma': 'lgamma', 'tanh': 'tanh'}
def seval(e, env):
    """value of a sympy expression; env: symbol name -> number"""
    import sympy, ctxs
    if isinstance(e, (int, float)): return np.float64(e)
    if e.is_Symbol:
        n = str(e)
        if n in env: return np.float64(env[n])
        if n in NODES: return NODES[n]
        raise KeyError('free symbol ' + n)
    if e.is_Number or e.is_NumberSymbol: return np.float64(_float(e))
    a = [seval(x, env) for x in e.args]
    if e.is_Add:
        r = a[0]
        for x in a[1:]: r = r + x
        return r
    if e.is_Mul:
        r = a[0]
        for x in a[1:]: r = r * x
        return r
    if e.is_Pow:
        b, p = e.args
        if p.is_Integer:
            r = np.float64(1.0)
            for _ in range(abs(int(p))): r = r * a[0]
            return r if p >= 0 else np.float64(1.0) / r
        if p == sympy.Rational(1, 2): return np.sqrt(a[0])
        if p == sympy.Rational(-1, 2): return np.float64(1.0) / np.sqrt(a[0])
        if b == sympy.E: return np.exp(a[1])
        return a[0] ** a[1]
    n = e.func.__name__
    if n == 'exp': return np.exp(a[0])
    if n == 'sin': return np.sin(a[0])
    if n == 'cos': return np.cos(a[0])
    if n == 'log': return np.log(a[0])
    if n in ('sinh', 'cosh'): u = np.exp(a[0]); w = np.float64(1.0) / u; return (u + w if n == 'cosh' else u - w) * 0.5
    if n in ('tan', 'sec'): return (np.sin(a[0]) if n == 'tan' else np.float64(1.0)) / np.cos(a[0])
    if n == 'Abs': return np.abs(a[0])
    if n in UFS: return ctxs.uf(UFS[n], a[0])
    raise NotImplementedError(n)

# ------------------------------------------------------------ everything else
def install():
    import numpy.linalg as la
    import ctypes
    def mwrap(name, arity):
        real = getattr(math, name)
        f = getattr(X.rt, 'symfp_' + name, None)
        if f is None: return
        f.restype = ctypes.c_double; f.argtypes = [ctypes.c_double] * arity
        def g(*a):
            if any(is_sym(x) for x in a): return np.float64(f(*[_float(x) for x in a]))
            return real(*a)
        setattr(math, name, g)
    for n in ('sqrt', 'exp', 'log', 'sin', 'cos', 'fabs', 'erf', 'atan', 'asinh', 'lgamma', 'tanh'): mwrap(n, 1)
    mwrap('pow', 2); mwrap('hypot', 2)
    real_fsum, real_prod = math.fsum, math.prod
    def fsum(it):
        it = list(it)
        if not any(is_sym(x) for x in it): return real_fsum(it)
        r = np.float64(0.0)
        for x in it: r = r + x
        return r
    math.fsum = fsum
    # numpy.linalg
    real_det, real_slogdet, real_pow = la.det, la.slogdet, la.matrix_power
    def det(a):
        a = np.asarray(a)
        if not any_sym(a): return real_det(a)
        n = a.shape[-1]
        import itertools
        r = np.float64(0.0)
        for p in itertools.permutations(range(n)):
            s = (-1.0) ** sum(p[i] > p[j] for i in range(n) for j in range(i + 1, n))
            t = np.float64(s)
            for i in range(n): t = t * a[i, p[i]]
            r = r + t
        return r
    la.det = det
    np.linalg.det = det
    for n in ('eigh', 'eigvals', 'eigvalsh', 'cholesky', 'svd', 'slogdet', 'lstsq', 'qr', 'pinv'):
        def mk(n, real):
            def g(a, *r, **k):
                if any_sym(a):
                    A = np.asarray(a)
                    d = all(not any_sym(A[i, j]) and A[i, j] == 0 for i in range(len(A)) for j in range(len(A)) if i != j)
                    if d and n == 'cholesky': return np.diag(np.sqrt(np.diag(A)))
                    if d and n == 'eigvals': return np.diag(A).copy()
                    if d and n in ('eigh', 'eigvalsh'):
                        # ascending eigenvalues, as LAPACK orders them
                        w = list(range(len(A)))
                        for i in range(len(w)):
                            for j in range(i + 1, len(w)):
                                if A[w[j], w[j]] < A[w[i], w[i]]: w[i], w[j] = w[j], w[i]
                        v = np.zeros(A.shape)
                        for c, i in enumerate(w): v[i, c] = 1.0
                        e = np.array([A[i, i] for i in w])
                        return e if n == 'eigvalsh' else (e, v)
                    X.rt.symrt_note_unsupported(('numpy.linalg.' + n).encode())
                return real(a, *r, **k)
            return g
        setattr(la, n, mk(n, getattr(la, n)))
    # the product of single elements is computed natively inside dot
    import _npsym
    real_dot = np.ndarray.dot
    def dot(self, b, out=None):
        B = np.asarray(b)
        if out is None and self.dtype == B.dtype == np.float64 and (any_sym(self) or any_sym(B)):
            return self * B if self.ndim == 0 or B.ndim == 0 else np.matmul(self, B)
        return real_dot(self, b) if out is None else real_dot(self, b, out)
    _npsym.setmethod('dot', dot)
    real_npdot = np.dot
    def npdot(a, b, out=None):
        A, B = np.asarray(a), np.asarray(b)
        if A.dtype == B.dtype == np.float64 and out is None and (any_sym(A) or any_sym(B)): return dot(A, B)
        return real_npdot(a, b) if out is None else real_npdot(a, b, out)
    np.dot = npdot
    import numpy.linalg.linalg as ll
    for nm in ('dot', 'vdot'):
        if hasattr(ll, nm): setattr(ll, nm, npdot)
    np.inner = lambda a, b, f=np.inner: npdot(a, np.asarray(b).T) if np.asarray(a).ndim <= 1 or np.asarray(b).ndim <= 2 else f(a, b)
    np.vdot = lambda a, b: npdot(np.ravel(a), np.ravel(b)) if not (np.iscomplexobj(a) or np.iscomplexobj(b)) else (np.conj(np.ravel(a)) * np.ravel(b)).sum()
    real_einsum = np.einsum
    def einsum(*a, **k):
        if any(any_sym(x) for x in a if isinstance(x, np.ndarray)): X.rt.symrt_note_unsupported(b'numpy.einsum')
        return real_einsum(*a, **k)
    np.einsum = einsum
    install_sparse()
    install_sympy()

def install_sympy():
    import sympy
    from sympy.core.sympify import converter
    def conv(x): return to_sympy(x) if is_sym(x) else sympy.Float(_float(x))
    converter[np.float64] = conv
    converter[float] = conv
    real_new = sympy.Float.__new__
    def new(cls, num, *a, **k):
        if isinstance(num, float) and is_sym(num): return to_sympy(num)
        return real_new(cls, num, *a, **k)
    sympy.Float.__new__ = staticmethod(new)

EIGS = [None]
def install_sparse():
    import scipy.sparse as ss
    import scipy.sparse.linalg as spla
    # contract stubs: a solver returns some vector that satisfies the equations
    def dense(m): return m.toarray() if ss.issparse(m) else np.asarray(m)
    real_spsolve, real_gmres, real_spilu = spla.spsolve, spla.gmres, spla.spilu
    def spsolve(A, b, *a, **k):
        b = dense(b)
        if any_sym(dense(A)) or any_sym(b): return np.linalg.solve(dense(A), b)
        return real_spsolve(A, b, *a, **k)
    def gmres(A, b, *a, **k):
        if any_sym(dense(A)) or any_sym(np.asarray(b)): return np.linalg.solve(dense(A), np.asarray(b)), 0
        return real_gmres(A, b, *a, **k)
    def spilu(A, *a, **k):
        if any_sym(dense(A)):
            class Ilu: solve = staticmethod(lambda v: v)
            return Ilu()
        return real_spilu(A, *a, **k)
    spla.spsolve, spla.gmres, spla.spilu = spsolve, gmres, spilu
    # the eigen-solver returns eigenpairs of the matrix it is given; a check that uses it states which (EIGS)
    real_eigs = spla.eigs
    def eigs(A, k=6, *a, **kw):
        D = A.matmat(np.eye(A.shape[0])) if isinstance(A, spla.LinearOperator) else dense(A)
        if np.iscomplexobj(D) and any_sym(np.real(D)): D = np.real(D).copy()
        if not any_sym(D): return real_eigs(A, k, *a, **kw)
        if EIGS[0] is None: X.rt.symrt_note_unsupported(b'scipy eigs'); return real_eigs(A, k, *a, **kw)
        return EIGS[0](D, k, **kw)
    spla.eigs = eigs
    from scipy.sparse import _sparsetools as st, _compressed, _coo, _csr
    def wrap(name, pyimpl, pos):
        real = getattr(st, name, None)
        if real is None: return
        def g(*a):
            if any(any_sym(a[i]) for i in pos): return pyimpl(*a)
            return real(*a)
        setattr(st, name, g)
        for m in (_compressed, _coo, _csr):
            if getattr(m, name, None) is real: setattr(m, name, g)
    def binop(f):
        def impl(nr, nc, Ap, Aj, Ax, Bp, Bj, Bx, Cp, Cj, Cx):
            k = 0; Cp[0] = 0
            for i in range(nr):
                row = {}
                for p in range(Ap[i], Ap[i + 1]):
                    j = int(Aj[p]); r = row.setdefault(j, [np.float64(0.0), np.float64(0.0)]); r[0] = r[0] + Ax[p]
                for p in range(Bp[i], Bp[i + 1]):
                    j = int(Bj[p]); r = row.setdefault(j, [np.float64(0.0), np.float64(0.0)]); r[1] = r[1] + Bx[p]
                for j in sorted(row):
                    v = f(*row[j])
                    if is_sym(v) or v != 0: Cj[k] = j; Cx[k] = v; k += 1
                Cp[i + 1] = k
        return impl
    wrap('csr_plus_csr', binop(lambda a, b: a + b), (4, 7)); wrap('csr_minus_csr', binop(lambda a, b: a - b), (4, 7))
    wrap('csr_elmul_csr', binop(lambda a, b: a * b), (4, 7)); wrap('csr_eldiv_csr', binop(lambda a, b: a / b), (4, 7))
    def matvec(nr, nc, Ap, Aj, Ax, x, y):
        for i in range(nr):
            s = y[i]
            for p in range(Ap[i], Ap[i + 1]): s = s + Ax[p] * x[Aj[p]]
            y[i] = s
    wrap('csr_matvec', matvec, (4, 5))
    def cscmatvec(nr, nc, Ap, Ai, Ax, x, y):
        for j in range(nc):
            for p in range(Ap[j], Ap[j + 1]): y[Ai[p]] = y[Ai[p]] + Ax[p] * x[j]
    wrap('csc_matvec', cscmatvec, (4, 5))
    def matvecs(nr, nc, nv, Ap, Aj, Ax, x, y):
        for i in range(nr):
            for p in range(Ap[i], Ap[i + 1]):
                for v in range(nv): y[i * nv + v] = y[i * nv + v] + Ax[p] * x[Aj[p] * nv + v]
    wrap('csr_matvecs', matvecs, (5, 6))
    def matmat(nr, nc, Ap, Aj, Ax, Bp, Bj, Bx, Cp, Cj, Cx):
        k = 0; Cp[0] = 0
        for i in range(nr):
            row = {}
            for p in range(Ap[i], Ap[i + 1]):
                for q in range(Bp[Aj[p]], Bp[Aj[p] + 1]):
                    j = int(Bj[q]); row[j] = row.get(j, np.float64(0.0)) + Ax[p] * Bx[q]
            for j in row: Cj[k] = j; Cx[k] = row[j]; k += 1
            Cp[i + 1] = k
    wrap('csr_matmat', matmat, (4, 7))
    def todense(nr, nc, Ap, Aj, Ax, B):
        for i in range(nr):
            for p in range(Ap[i], Ap[i + 1]): B[i, Aj[p]] = B[i, Aj[p]] + Ax[p]
    wrap('csr_todense', todense, (4,))
    def cootodense(M, N, nnz, row, col, data, B, fortran):
        R = B.reshape((M, N), order='F' if fortran else 'C')
        for i, j, v in zip(row, col, data): R[i, j] = R[i, j] + v
    wrap('coo_todense', cootodense, (5,))
    def cootocsr(nr, nc, nnz, Ai, Aj, Ax, Bp, Bj, Bx):
        n = len(Ai); cnt = [0] * nr
        for i in Ai: cnt[i] += 1
        pos = [0] * (nr + 1)
        for i in range(nr): pos[i + 1] = pos[i] + cnt[i]
        Bp[:] = pos; nx = pos[:]
        for i, j, v in zip(Ai, Aj, Ax):
            Bj[nx[i]] = j; Bx[nx[i]] = v; nx[i] += 1
    wrap('coo_tocsr', cootocsr, (5,))
    def sumdup(nr, nc, Ap, Aj, Ax):
        k = 0; end = int(Ap[0])
        for i in range(nr):
            p = end; end = int(Ap[i + 1])
            while p < end:
                j, v = Aj[p], Ax[p]; p += 1
                while p < end and Aj[p] == j: v = v + Ax[p]; p += 1
                Aj[k] = j; Ax[k] = v; k += 1
            Ap[i + 1] = k
    wrap('csr_sum_duplicates', sumdup, (4,))
    def colidx2(col_order, col_offsets, n, Aj, Ax, Bj, Bx):
        k = 0
        for p in range(n):
            j = int(Aj[p])
            off = int(col_offsets[j]); prev = 0 if j == 0 else int(col_offsets[j - 1])
            for q in range(prev, off): Bj[k] = col_order[q]; Bx[k] = Ax[p]; k += 1
    wrap('csr_column_index2', colidx2, (4,))
    def samplevals(nr, nc, Ap, Aj, Ax, ns, Bi, Bj, Bx):
        for n in range(ns):
            i, j = int(Bi[n]), int(Bj[n])
            if i < 0: i += nr
            if j < 0: j += nc
            s = np.float64(0.0)
            for p in range(Ap[i], Ap[i + 1]):
                if Aj[p] == j: s = s + Ax[p]
            Bx[n] = s
    wrap('csr_sample_values', samplevals, (4,))

def inject():
    """after hermipy is imported"""
    import builtins
    for n, m in list(sys.modules.items()):
        if n == 'hermipy' or n.startswith('hermipy.'):
            if m is not None and hasattr(m, '__dict__'): m.__dict__['float'] = symfloat
    hc = sys.modules.get('hermite_cpp')
    if hc is not None and not getattr(hc, '_vf', None):
        hc._vf = True
        for n in dir(hc):
            f = getattr(hc, n)
            if type(f).__name__ == 'function': setattr(hc, n, boxed(f))

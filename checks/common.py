"""Specifications shared by the checks, written independently of the code."""
import math, itertools
import numpy as np

SETS = ('triangle', 'cube', 'cross', 'cross_nc', 'rectangle')

def member(s, m, d):
    if s == 'triangle': return sum(m) <= d
    if s == 'cube': return all(k <= d for k in m)
    if s in ('cross', 'cross_nc'):
        p = 1
        for k in m: p *= max(k, 1)
        return p <= max(d, 1)
    if s == 'rectangle': return m[0] <= d and all(k <= d // 2 for k in m[1:])
    raise ValueError(s)

def spec_set(s, dim, d):
    """the set of multi-indices (unordered)"""
    out = set()
    def rec(pre):
        if len(pre) == dim:
            if member(s, pre, d): out.add(tuple(pre))
            return
        for k in range(max(d, 1) + 1):
            q = pre + [k]
            if not member(s, q + [0] * (dim - len(q)), d): break
            rec(q)
    rec([])
    return out

_cache = {}
def listing(core, s, dim, d):
    """the order of the coefficients, as the library itself publishes it"""
    k = (s, dim, d)
    if k not in _cache:
        _cache[k] = [tuple(int(v) for v in r) for r in np.asarray(core.iterator_list_indices(dim, d, index_set=s)).reshape(-1, dim)]
    return _cache[k]

def basis(fourier, degree, x):
    """list of the basis functions 0..degree at x (scalar, possibly symbolic)"""
    x = np.float64(x)
    one = np.float64(1.0)
    if not fourier:
        h = [one, x]
        for n in range(1, degree): h.append((x * h[n] - math.sqrt(n) * h[n - 1]) / math.sqrt(n + 1))
        return h[:degree + 1]
    out = [one / math.sqrt(2 * math.pi)]
    for n in range(1, degree + 1):
        k = (n + 1) // 2
        out.append((np.sin(k * x) if n % 2 else np.cos(k * x)) / math.sqrt(math.pi))
    return out

def ssum(terms):
    r = np.float64(0.0)
    for t in terms: r = r + t
    return r

def grid(ns): return itertools.product(*[range(n) for n in ns])

def sp_forward(L, f, nodes, weights, four, degree):
    dim = len(nodes)
    B = [[basis(four[d], degree, x) for x in nodes[d]] for d in range(dim)]
    pts = list(grid([len(n) for n in nodes]))
    W = []
    for i, p in enumerate(pts):
        w = f[i]
        for d in range(dim): w = w * weights[d][p[d]]
        W.append(w)
    out = []
    for m in L:
        r = np.float64(0.0)
        for i, p in enumerate(pts):
            t = W[i]
            for d in range(dim): t = t * B[d][p[d]][m[d]]
            r = r + t
        out.append(r)
    return np.array(out)

def sp_backward(L, c, nodes, four, degree):
    dim = len(nodes)
    B = [[basis(four[d], degree, x) for x in nodes[d]] for d in range(dim)]
    out = []
    for p in grid([len(n) for n in nodes]):
        r = np.float64(0.0)
        for i, m in enumerate(L):
            t = c[i]
            for d in range(dim): t = t * B[d][p[d]][m[d]]
            r = r + t
        out.append(r)
    return np.array(out)

def partitions(xs):
    xs = list(xs)
    if not xs: yield []; return
    h, t = xs[0], xs[1:]
    for p in partitions(t):
        yield [[h]] + p
        for i in range(len(p)): yield p[:i] + [[h] + p[i]] + p[i + 1:]

def rot(l, k): return l[k:] + l[:k]

def sub(m, dirs): return tuple(m[d] for d in dirs)

def pos(L): return {m: i for i, m in enumerate(L)}

def at(v, P, m):
    """coefficient at multi-index m, zero outside the set"""
    i = P.get(tuple(m))
    return np.float64(0.0) if i is None else v[i]

def sp_tensor_vec(core, groups, vecs, s, dim, deg):
    P = [pos(listing(core, s, len(g), deg)) for g in groups]
    out = []
    for m in listing(core, s, dim, deg):
        r = np.float64(1.0)
        for g, v, p in zip(groups, vecs, P): r = r * at(v, p, sub(m, g))
        out.append(r)
    return np.array(out)

def sp_tensor_mat(core, groups, mats, s, dim, deg):
    P = [pos(listing(core, s, len(g), deg)) for g in groups]
    L = listing(core, s, dim, deg)
    ids = [[p.get(sub(m, g)) for m in L] for g, p in zip(groups, P)]
    out = np.zeros((len(L), len(L)))
    for i in range(len(L)):
        for j in range(len(L)):
            r = np.float64(1.0)
            for A, ix in zip(mats, ids): r = r * (A[ix[i], ix[j]] if ix[i] is not None and ix[j] is not None else 0.0)
            out[i, j] = r
    return out

def csr(A):
    """CSR of a dense array, without testing entries (symbolic ones included); exact zeros stay explicit only when symbolic"""
    import scipy.sparse as ss
    n, m = A.shape
    data, ind, ptr = [], [], [0]
    for i in range(n):
        for j in range(m):
            x = A[i, j]
            if not (isinstance(x, float) and np.float64(x).tobytes() == np.float64(0.0).tobytes()):
                data.append(x); ind.append(j)
        ptr.append(len(ind))
    d = np.empty(len(data))
    for k, x in enumerate(data): d[k] = x
    return ss.csr_matrix((d, np.array(ind, dtype=np.int32), np.array(ptr, dtype=np.int32)), shape=(n, m))

def pattern(ctx, name, n, m=None, keep=lambda i, j: True):
    """matrix with symbolic entries where keep(i,j), exact zero elsewhere"""
    m = n if m is None else m
    A = np.zeros((n, m))
    for i in range(n):
        for j in range(m):
            if keep(i, j): A[i, j] = ctx.var('%s_%d_%d' % (name, i, j))
    return A

_tp = {}
def triple(fourier, k, i, j):
    """exact integral of three basis functions"""
    key = (fourier, k, i, j)
    if key in _tp: return _tp[key]
    if not fourier:
        t = i + j + k
        if t % 2: r = 0.0
        else:
            s = t // 2
            r = 0.0 if max(i, j, k) > s else math.exp(0.5 * (math.lgamma(i + 1) + math.lgamma(j + 1) + math.lgamma(k + 1))
                                                      - math.lgamma(s - i + 1) - math.lgamma(s - j + 1) - math.lgamma(s - k + 1))
            if r:
                from fractions import Fraction
                f = math.factorial
                q = Fraction(f(i) * f(j) * f(k), (f(s - i) * f(s - j) * f(s - k)) ** 2)
                r = math.sqrt(q)
    else:
        # trapezoidal rule is exact for trigonometric polynomials
        N = 2 * (i + j + k) + 8
        r = 0.0
        tot = []
        for p in range(N):
            x = 2 * math.pi * p / N
            v = 2 * math.pi / N
            for n in (i, j, k):
                w = (n + 1) // 2
                v *= 1 / math.sqrt(2 * math.pi) if n == 0 else (math.sin(w * x) if n % 2 else math.cos(w * x)) / math.sqrt(math.pi)
            tot.append(v)
        r = math.fsum(tot)
        if abs(r) < 1e-14: r = 0.0
    _tp[key] = r
    return r

# ------------------------------------------------------------------ hermipy objects
XS = ['x', 'y', 'z', 'w', 'v']
def evalf(e, env):
    """value of a sympy expression / hermipy Function at env {direction: coordinate}"""
    import sympy
    e = getattr(e, 'sym', e)
    n = {}
    for d, v in env.items(): n['x%d' % d] = v; n[XS[d]] = v
    import sys
    X = sys.modules.get('symx')
    if X is not None and X.rt is not None:
        import pybridge; return pybridge.seval(sympy.sympify(e), n)
    return seval_concrete(sympy.sympify(e), n)
def seval_concrete(e, n):
    import sympy, math
    f = {s: sympy.Float(float(n[str(s)]), 30) for s in e.free_symbols}
    return np.float64(complex(e.subs(f).evalf(20)).real)

def position(ctx, name, dirs, types=None, mean=True, sig=True):
    """position with symbolic mean and standard deviations; returns (position, means, sigmas)"""
    import hermipy as hm
    n = len(dirs)
    m = ctx.array(name + 'mu', n) if mean else np.zeros(n)
    s = ctx.array(name + 'sg', n, 0.5, 2.0) if sig else np.ones(n)
    c = np.zeros((n, n))
    for i in range(n): c[i, i] = s[i] * s[i]
    return hm.Position(dirs=list(dirs), mean=m, cov=c, types=types), m, s

def quad(ctx, name, dirs, npts, types=None, factor=1, mean=True, sig=True, nodes=None, weights=None):
    """quadrature with symbolic nodes, weights, mean and standard deviations"""
    import hermipy as hm
    n = len(dirs)
    x = ctx.array(name + 'x', (n, npts)) if nodes is None else np.asarray(nodes, float)
    w = ctx.array(name + 'w', (n, npts), 0.1, 1.0) if weights is None else np.asarray(weights, float)
    p, m, s = position(ctx, name, dirs, types, mean, sig)
    q = hm.Quad(x, w, position=p, factor=factor)
    return q, x, w, m, s

def points(dirs, x, m, s, npts):
    """(grid index, {direction: coordinate}) in row-major order"""
    for g in grid([npts] * len(dirs)):
        yield g, {d: m[i] + s[i] * x[i, g[i]] for i, d in enumerate(dirs)}

def check_position(ctx, p, dirs, m, s, types=None, what=''):
    """p has exactly these directions, means, variances and types"""
    n = len(dirs)
    if not (list(p.dirs) == list(dirs) and p.dim == n and len(p.mean) == n and tuple(np.shape(p.cov)) == (n, n)):
        return ctx.fail('%s: directions %s instead of %s' % (what, p.dirs, list(dirs)))
    ctx.true(list(p.types) == list(types or ['hermite'] * n), '%s: types' % what)
    if n == 0: return
    c = np.zeros((n, n))
    for i in range(n): c[i, i] = s[i] * s[i]
    ctx.eq(p.mean, np.array([m[i] for i in range(n)]), what + ': mean')
    ctx.eq(p.cov, c, what + ': covariance')

def check_factor(ctx, f, expr, dirs, what='', at=None):
    """the factor is this function: compared at a symbolic point"""
    ctx.true(list(f.dirs) == list(dirs), '%s: directions of the factor' % what)
    env = at or {d: ctx.var('at%d' % d, -1.0, 1.0) for d in range(5)}
    try: v = evalf(f, env)
    except KeyError as e: return ctx.fail('%s: factor %s has another variable' % (what, f))
    ctx.eq(v, evalf(expr, env), what + ': factor')

def meta(ctx, o, dirs, m, s, types, expr, index_set, what):
    check_position(ctx, o.position, dirs, m, s, types, what)
    check_factor(ctx, o.factor, expr, dirs, what)
    ctx.true(o.index_set == index_set, what + ': index set')

def refused(fn, *ok):
    """True if fn raises an ordinary error"""
    try: fn()
    except Exception as e:
        if type(e).__name__ in ('Abort', 'Infeasible', 'CaseTimeout'): raise
        return True
    return False

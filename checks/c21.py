"""C21: discretised operator = sum of its differentiated variational parts."""
import itertools
import numpy as np
from common import *
from c22 import H, F
from c18 import X
from c20 import der, mult
NATIVE = ['discretize', 'varf', 'varfd', 'tensorize (matrices)', 'index-set iterators']
OPT = {'paths': 1, 'timeout': 120, 'qtime': 10}
OPT_THOROUGH = {'paths': 2}
BOUNDS = {'dimension': '1..3', 'order': '0..4 in one direction, 0..3 in two, 0..2 in three', 'degree': '1..5 in one direction, 1..2 in several', 'points per direction': '2..3', 'means, standard deviations, weights': 'symbolic',
          'coefficients': 'polynomials, arbitrary functions (atan, tanh, erf, asinh) of one and of coupled variables', 'factor': 'one, Gaussian products, coupled Gaussian', 'index sets': 'all (several Fourier/Hermite directions mixed: cube; crosses: full-grid evaluation)',
          'threshold': 'coefficients that varf drops (below 1e-12 of the norm) count as equal'}
UN = ['atan', 'tanh', 'erf', 'asinh']
def cases(tier):
    T = tier != 'quick'
    out = []; n = 0
    def add(dirs, ms, deg, s, **k):
        nonlocal n
        n += 1
        types = k.pop('types', 0)
        if types and deg % 2: deg += 1
        if types and len(dirs) > 1: s = 'cube'
        out.append(dict({'dirs': dirs, 'ms': ms, 'deg': deg, 's': s, 'types': types, 'fc': n % 4 % 3, 'sparse': bool(n % 2), 'co': n % 5, 'as': n % 3}, **k))
    for o in range(0, 5):
        for deg in (1, 2, 3, 5):
            for dirs in ([0], [2]):
                for s in SETS:
                    add(dirs, [[o]], deg, s); add(dirs, [[o], [max(0, o - 1)]], deg, s)
                    if s == SETS[n % 5]: add(dirs, [[o], [(o + 1) % 4]], deg, s, types=1)
    m2 = mult(2, 3)
    for i, m in enumerate(m2):
        for dirs in ([0, 1], [1, 3]):
            for s in SETS:
                add(dirs, [list(m)], 2, s); add(dirs, [list(m), list(m2[(i + 3) % len(m2)])], 2, s)
                if s == SETS[i % 5]:
                    for t in (1, 2, 3): add(dirs, [list(m), list(m2[(i + 2) % len(m2)])], 2, s, types=t)
                    add(dirs, [list(m), list(m2[(i + 5) % len(m2)]), list(m2[(i + 1) % len(m2)])], 1, s)
    for i, m in enumerate(mult(3, 2)):
        for s in SETS:
            add([0, 1, 2], [list(m)], 1, s); add([0, 2, 4], [list(m), list(mult(3, 2)[(i + 4) % 10])], 1, s)
    for dirs in ([0], [1], [0, 1], [0, 3, 4]):
        for s in SETS:
            for sp in (False, True): add(dirs, [], 2, s, sparse=sp)
    for dirs in ([0], [0, 1]): add(dirs, [[0] * len(dirs)], 1, 'triangle', kind='bad')
    def cost(c):
        k = sum(math.prod(a + 1 for a in m) for m in c['ms']) if c['fc'] else len(c['ms'])
        return k * {0: 1, 1: 1.5, 2: 3}[c['fc']] * (4 if len(c['dirs']) > 1 else 1) * (1 + sum(sum(m) for m in c['ms']) * bool(c['fc']) / 2)
    if not T:
        out = [c for c in out if cost(c) <= 60]
        one = [c for c in out if len(c['dirs']) == 1]
        out = [c for c in out if len(c['dirs']) > 1] + one[::2] + [c for c in one[1::2] if c['fc'] == 0]
    return out
def coef(dirs, i, t):
    import sympy
    x, y = X(dirs[0]), X(dirs[-1])
    f = lambda k, a: getattr(sympy, UN[k % 4])(a / 3)
    c = [sympy.Integer(2), x ** 2 - y / 2, f(i, x), f(i, x) * f(i + 1, y) * sympy.Rational(3, 2), f(i, x * y) + y * f(i + 2, x)]
    return c[t % 5]
def run(ctx, case):
    import sympy, hermipy as hm, hermipy.core as core, scipy.sparse as ss
    dirs, deg, s = case['dirs'], case['deg'], case['s']; dim = len(dirs)
    types = [F if case['types'] & (1 << i % 2) else H for i in range(dim)]
    npts = 3 if dim == 1 else 2
    nodes = [[(-1) ** i * (0.37 + 0.41 * i + 0.13 * d) for i in range(npts)] for d in range(dim)]
    fx = sympy.Integer(1)
    if case['fc']:
        fx = 2 * sympy.exp(-sum(X(d) ** 2 / (i + 3) for i, d in enumerate(dirs)))
        if case['fc'] == 2: fx = fx * sympy.exp(-X(dirs[0]) * X(dirs[-1]) / 5)
    q, x, w, m, sg = quad(ctx, 'q', dirs, npts, types, factor=fx, nodes=nodes)
    u = sympy.Function('f')(*[X(d) for d in dirs])
    terms = [(tuple(k), coef(dirs, i, case['co'] + i)) for i, k in enumerate(case['ms'])]
    e = sum((c * der(u, dirs, k) for k, c in terms), sympy.Integer(0))
    old = hm.settings['tensorize'], hm.settings['sparse']
    try:
        if 'cross' in s: hm.settings['tensorize'] = False
        if case.get('kind') == 'bad':
            o = sorted(set(dirs) | {4})
            ctx.raises(lambda: q.discretize_op(hm.Operator(sympy.Function('f')(*[X(d) for d in o]) * X(4)), deg), 'operator in other directions')
            return
        op = hm.Operator(e, dirs=dirs) if case['as'] or not terms else e
        if case['as'] == 2:
            hm.settings['sparse'] = case['sparse']
            A = q.discretize_op(op, deg, index_set=s)
        else: A = q.discretize_op(op if terms else (op if case['as'] else 0), deg, sparse=case['sparse'], index_set=s)
    finally: hm.settings['tensorize'], hm.settings['sparse'] = old
    ctx.true(ss.issparse(A.matrix) == case['sparse'] == A.is_sparse, 'storage')
    meta(ctx, A, dirs, m, sg, types, fx, s, 'operator')
    # conjugated coefficients, by the Leibniz rule
    conj = {}
    for k, c in terms:
        for l in itertools.product(*[range(a + 1) for a in k]):
            b = math.prod(math.comb(a, j) for a, j in zip(k, l))
            d = fx
            for a, j, v in zip(k, l, dirs): d = sympy.diff(d, X(v), a - j) if a > j else d
            d = sympy.expand(sympy.simplify(d / fx))
            conj[l] = conj.get(l, 0) + b * c * d
    L = listing(core, s, dim, deg); P = pos(L); N = len(L)
    four = [int(t == F) for t in types]
    pts = list(points(dirs, x, m, sg, npts))
    W = []
    for g, p in pts:
        t = np.float64(1.0)
        for i in range(dim): t = t * w[i, g[i]]
        W.append(t)
    B = [[[float(v) for v in basis(four[d], 2 * deg, x[d, i])] for i in range(npts)] for d in range(dim)]
    def moments(c):
        v = [evalf(c, p) * t for (g, p), t in zip(pts, W)]
        M = np.zeros((N, N))
        if 'cross' in s:
            K = listing(core, s, dim, 2 * deg)
            co = []
            for k in K:
                r = np.float64(0.0)
                for (g, p), a in zip(pts, v): r = r + a * math.prod(B[d][g[d]][k[d]] for d in range(dim))
                co.append(r)
        for i, a in enumerate(L):
            for j, b in enumerate(L):
                r = np.float64(0.0)
                if 'cross' in s:
                    for k, c_ in zip(K, co):
                        t = math.prod(triple(four[d], k[d], a[d], b[d]) for d in range(dim))
                        if t: r = r + c_ * t
                else:
                    for (g, p), z in zip(pts, v):
                        r = r + z * math.prod(B[d][g[d]][a[d]] * B[d][g[d]][b[d]] for d in range(dim))
                M[i, j] = r
        return M
    ref = np.zeros((N, N))
    for k, c in conj.items():
        if c == 0: continue
        M = moments(c)
        for d in range(dim):
            for _ in range(k[d]):
                Q = np.zeros((N, N))
                for j, b in enumerate(L):
                    q_ = list(b); n = b[d]
                    if n == 0: continue
                    if four[d]: q_[d] = n + 1 if n % 2 else n - 1; f = (n + 1) // 2 * (1 if n % 2 else -1)
                    else: q_[d] = n - 1; f = math.sqrt(n)
                    src = P.get(tuple(q_))
                    if src is None: continue
                    for i in range(N): Q[i, j] = M[i, src] * f / sg[d]
                M = Q
        ref = ref + M
    ctx.eq(A.matrix, ref, 'matrix', tol=1e-7)

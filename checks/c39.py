"""C39: operations leave their operands, earlier results and the library's own state alone."""
import itertools, math
import numpy as np
from common import *
from c22 import H, F, fac
NATIVE = ['discretize', 'integrate', 'transform', 'varf', 'varfd', 'tensorize', 'project', 'inner']
OPT = {'paths': 1, 'timeout': 90, 'qtime': 5}
OPT_THOROUGH = {'paths': 3, 'qtime': 15}
BOUNDS = {'dimension': '1..3', 'degree': '1..2', 'points': '2', 'coefficients, entries, nodes, weights, means, standard deviations': 'symbolic', 'operations': 'every arithmetic, projection, quadrature, conversion and evaluation method of the classes, in sessions on shared objects: all operations of a family once, then again in reverse order after the arrays of all results were overwritten by symbolic values',
          'state compared': 'every array, list, dictionary, expression and number reachable from the operands, plus the settings and the tables of symbols', 'outside': 'plots, Series.subdegree to a smaller degree returns a view, constructors that keep the array they are given, positions shared between operands and results'}
CF = [([0], [H]), ([2], [F]), ([0, 1], [H, F]), ([1, 3], [H, H]), ([0, 1, 2], [H, H, H])]
FAM = ('series', 'varf', 'quad', 'quadt', 'comp', 'position', 'function', 'operator', 'core')
def cases(tier):
    out = []; n = 0
    for dirs, types in CF:
        for fam in FAM:
            for s in SETS if fam in ('series', 'varf', 'quad', 'core') and len(dirs) > 1 else SETS[:1]:
                for st in ('dense', 'sparse') if fam in ('varf', 'quad', 'quadt', 'comp') else ('dense',):
                    if st == 'sparse' and s.startswith('cross') and fam != 'varf': continue
                    n += 1
                    out.append({'dirs': dirs, 'types': types, 'fam': fam, 's': s, 'st': st, 'fc': n % 2})
    return out
def kids(o):
    """(name, value) of what an object holds"""
    import sympy, scipy.sparse as ss
    if isinstance(o, (list, tuple)): return [(str(i), x) for i, x in enumerate(o)]
    if isinstance(o, dict): return [(str(k), v) for k, v in sorted(o.items(), key=lambda x: str(x[0]))]
    if ss.issparse(o): return [('data', o.data), ('indices', o.indices), ('indptr', o.indptr)]
    if type(o).__module__.startswith('hermipy') and hasattr(o, '__dict__'): return sorted(o.__dict__.items())
    return None
def snap(o, depth=0):
    import scipy.sparse as ss
    if ss.issparse(o): return ('tree', type(o).__name__, o.shape, [('entries', snap(o.toarray()))])
    k = kids(o)
    if k is not None and hasattr(o, '__dict__'): k = [(n, x) for n, x in k if n[0] != '_']
    if k is not None:
        if depth > 6: return ('deep',)
        return ('tree', type(o).__name__, getattr(o, 'shape', None), [(n, snap(x, depth + 1)) for n, x in k])
    if isinstance(o, np.ndarray): return ('array', o.dtype.kind, o.shape, o.copy())
    return ('leaf', type(o).__name__, o)
def same(ctx, a, b, what):
    if a[0] != b[0] or (a[0] != 'leaf' and a[1:3] != b[1:3]): return ctx.fail('%s: %s is now %s' % (what, str(a[:3])[:80], str(b[:3])[:80]))
    if a[0] == 'tree':
        if a[1] not in ('list', 'tuple', 'dict'): b = b[:3] + ([x for x in b[3] if x[0] in dict(a[3])],)
        if [n for n, _ in a[3]] != [n for n, _ in b[3]]: return ctx.fail('%s: has %s instead of %s' % (what, [n for n, _ in b[3]], [n for n, _ in a[3]]))
        for (n, x), (_, y) in zip(a[3], b[3]): same(ctx, x, y, what + '.' + n)
    elif a[0] == 'array':
        if a[1] == 'f': ctx.eq(b[3], a[3], what)
        elif a[1] == 'c': ctx.eq(np.real(b[3]), np.real(a[3]), what); ctx.eq(np.imag(b[3]), np.imag(a[3]), what)
        else: ctx.true(np.array_equal(a[3], b[3]), what + ' changed')
    elif a[0] == 'leaf':
        if isinstance(a[2], float) and isinstance(b[2], float): ctx.eq(b[2], a[2], what)
        elif not callable(a[2]): ctx.true(a[1] == b[1] and bool(a[2] == b[2]), '%s: %s is now %s' % (what, str(a[2])[:60], str(b[2])[:60]))
def spoil(ctx, o, seen, k, depth=0):
    """overwrite the result's own arrays and lists in place (not its position)"""
    if id(o) in seen or depth > 4 or o is None: return
    seen.add(id(o))
    if isinstance(o, np.ndarray):
        if o.dtype.kind in 'iu' and o.size and o.flags.writeable: o[...] = o + 3
        if o.dtype == np.float64 and o.size and o.flags.writeable: o[...] = k
    elif type(o).__name__ == 'Position': pass
    else:
        for n, x in kids(o) or (): spoil(ctx, x, seen, k, depth + 1)
        if type(o) is list and depth == 0: o.clear()
        if type(o) is dict and depth <= 1: o.clear()
def run(ctx, case):
    import hermipy as hm, hermipy.core as core, hermipy.lib as lib, copy
    from hermipy.settings import settings
    from hermipy.compquad import CompQuad
    from hermipy.operator import Operator
    dirs, types, fam, s, fc = (case[k] for k in ('dirs', 'types', 'fam', 's', 'fc'))
    n = len(dirs); sp = case['st'] == 'sparse'
    deg = 2 if F in types or n == 1 else 1
    P, m, sg = position(ctx, 'p', dirs, types)
    P2, _, _ = position(ctx, 'r', [4], [H])
    f = fac(dirs).replace('atan', 'erf') if fc else '1'
    N = len(listing(core, s, n, deg))
    ds = list(dirs); last = [dirs[-1]]; u = ctx.var('u', .5, 2.)
    XS_ = XS; a_, b_ = XS_[dirs[0]], XS_[dirs[-1]]
    rd = dirs[::-1]  # directions given in another order
    env, ops, look = {'ds': ds, 'last': last, 'rd': rd}, [], []  # look: results that may be views of an operand, not overwritten
    if fam in ('series', 'varf', 'core'):
        A, B = (hm.Series(ctx.array(t, N), P, factor=f, index_set=s) for t in 'ab')
        C = hm.Series(ctx.array('c', len(listing(core, s, 1, deg))), P2, factor=fac([4]), index_set=s)
        env.update(A=A, B=B, C=C)
    if fam == 'series':
        AC, CA = [A, C], [C, A]; env.update(AC=AC, CA=CA)
        ops = [lambda: A + B, lambda: A - B, lambda: -A, lambda: A * u, lambda: u * A, lambda: A / u, lambda: A + 2., lambda: sum([A, B]), lambda: A * C if s not in ('rectangle',) else None, lambda: hm.Series.tensorize(AC) if s not in ('rectangle',) else None, lambda: hm.Series.tensorize(CA) if s not in ('rectangle',) else None, lambda: A[0], lambda: A.project(last), lambda: A.project(ds), lambda: A.project(rd), lambda: A.project(dirs[0]),
               lambda: A.subdegree(deg + 1) if s != 'cross_nc' else None, lambda: A.multi_indices(), lambda: A == B, lambda: repr(A), lambda: A.to_function() if n < 3 else None]
        look = [lambda: A.subdegree(deg - 1 if s in ('triangle', 'cube', 'rectangle') else deg) if s != 'cross_nc' else None]
        ops += [lambda: A.to_cross(1) if s == 'triangle' and n <= deg else None]
    if fam == 'varf':
        keep = lambda i, j: not sp or (i + 2 * j) % 3 == 0 or i == j
        mk = csr if sp else np.array
        V, W = (hm.Varf(mk(pattern(ctx, t, N, keep=keep)), P, factor=f, index_set=s) for t in 'VW')
        N1 = len(listing(core, s, 1, deg))
        Z = hm.Varf(mk(pattern(ctx, 'Z', N1)), P2, factor=fac([4]), index_set=s)
        X_ = hm.Varf((np.array if sp else csr)(pattern(ctx, 'X', N)), P, factor=f, index_set=s)
        VZ = [Z, V]; env.update(V=V, W=W, Z=Z, X=X_, VZ=VZ)
        ops = [lambda: V + W, lambda: V - W, lambda: -V, lambda: V * u, lambda: u * V, lambda: V(A), lambda: V + X_, lambda: X_ + V, lambda: V - X_, lambda: X_(A), lambda: V == X_, lambda: V + 2., lambda: sum([V, W]), lambda: V.project(last), lambda: V.project(ds), lambda: V.project(rd), lambda: V.subdegree(deg) if s != 'cross_nc' else None, lambda: V.multi_indices(), lambda: V == W, lambda: repr(V.position),
               lambda: V * Z if n < 3 and s != 'rectangle' else None, lambda: hm.Varf.tensorize(VZ, sparse=sp) if n < 3 and s != 'rectangle' else None, lambda: V.to_cross(1) if s == 'triangle' and n <= deg else None]
    if fam in ('quad', 'quadt', 'comp'):
        x, w = ctx.array('x', (n, 2)), ctx.array('w', (n, 2), .1, 1.)
        Q = hm.Quad(x, w, position=P, factor=f)
        y, v = ctx.array('y', (n, 3)), ctx.array('v', (n, 3), .1, 1.)
        G = ctx.array('g', (2 ** n,)); env.update(Q=Q, G=G, x=x, w=w)
        g = hm.Function('atan(%s)*erf(%s) + %s' % (a_, b_, a_), dirs=ds)
        h = 'tanh(%s)*%s' % (a_, b_)
        L = Operator('%s*f(%s).diff(%s) + atan(%s)*f(%s)' % (a_, ','.join(XS_[d] for d in dirs), b_, b_, ','.join(XS_[d] for d in dirs)))
        A = hm.Series(ctx.array('a', N), P, factor=f, index_set=s)
        env.update(g=g, h=h, L=L, A=A)
        T = {'tensorize': fam == 'quadt'} if fam != 'comp' else {}
        mats = not s.startswith('cross')
        if fam == 'comp':
            Q2 = hm.Quad(y, v, position=P, factor=f); qs, al = [Q, Q2], [ctx.var('al', .1, 1.), .5]
            env.update(qs=qs, al=al)
            K = CompQuad(qs, al); env['K'] = K
        else: K = Q
        ops = [lambda: K.integrate(g, **T), lambda: K.integrate(h, **T), lambda: K.transform(g, deg, index_set=s, **T), lambda: K.varf(h, deg, sparse=sp, index_set=s, **T) if mats else None, lambda: K.varf(g, deg, sparse=sp, index_set=s, **T) if mats else None, lambda: K.varfd(g, deg, last, sparse=sp, index_set=s, **T) if mats else None,
               lambda: K.varfd(g, deg, ds, sparse=sp, index_set=s, **T) if mats else None, lambda: K.project(last), lambda: K.project(ds), lambda: K.project(rd), lambda: K.varfd(g, deg, rd, sparse=sp, index_set=s, **T) if mats and n == 2 else None, lambda: K.discretize_op(L, deg, sparse=sp, index_set=s) if mats and not (n == 3 and sp) else None]
        if fam != 'comp':
            QZ = hm.Quad(ctx.array('z', (1, 2)), ctx.array('zw', (1, 2), .1, 1.), position=P2, factor=fac([4])); QQ = [QZ, Q]; env.update(QZ=QZ, QQ=QQ)
            P3, _, _ = position(ctx, 't', dirs, types); A3 = hm.Series(ctx.array('e', N), P3, factor=f, index_set=s); env['A3'] = A3
            ops += [lambda: Q.eval(A3), lambda: Q.integrate(A3), lambda: Q.norm(A3), lambda: Q.integrate(G, **T), lambda: Q.transform(G, deg, index_set=s, **T), lambda: Q.varf(G, deg, sparse=sp, index_set=s, **T) if mats else None, lambda: Q.varfd(G, deg, last, sparse=sp, index_set=s, **T) if mats else None,
                    lambda: Q.eval(A), lambda: Q.integrate(A), lambda: Q.norm(A), lambda: Q.norm(G, n=1), lambda: Q.discretize(g), lambda: Q.discretize(h), lambda: Q.mapped_nodes(), lambda: Q * QZ, lambda: hm.Quad.tensorize(QQ), lambda: Q == QZ, lambda: repr(Q)]
    if fam == 'position':
        env.update(P=P, P2=P2, lst=[P, P2], tsl=[P2, P]); lst = env['lst']; tsl = env['tsl']
        ops = [lambda: P == P2, lambda: P * P2, lambda: hm.Position.tensorize(lst), lambda: hm.Position.tensorize(tsl), lambda: P.project(last), lambda: P.project(ds), lambda: P.project(rd), lambda: P.project(dirs[0]), lambda: P.weight(), lambda: P.weights(), lambda: repr(P)]
    if fam == 'function':
        g = hm.Function('atan(%s)*erf(%s) + 3*%s' % (a_, b_, a_), dirs=ds); h = hm.Function('exp(-%s**2)*atan(%s)' % (a_, b_) if n > 1 else 'exp(-%s**2)' % a_, dirs=ds); z = hm.Function('erf(%s)' % XS_[4], dirs=[4])
        env.update(g=g, h=h, z=z, lst=[z, g]); lst = env['lst']
        ops = [lambda: g + h, lambda: g * h, lambda: g / h, lambda: g * 2, lambda: 3 + g, lambda: g * z, lambda: hm.Function.tensorize(lst), lambda: g.split(legacy=False), lambda: g.split(), lambda: h.split(legacy=False), lambda: h.project(last), lambda: h.project(ds), lambda: h.project(rd), lambda: g.ccode(), lambda: g.as_xyz(), lambda: g == h, lambda: repr(g), lambda: hm.Function(g), lambda: hm.Function(g, dirs=ds)]
    if fam == 'operator':
        un = 'f(%s)' % ','.join(XS_[d] for d in dirs)
        L = Operator('%s*%s.diff(%s) + atan(%s)*%s' % (a_, un, b_, b_, un)); M = Operator('%s.diff(%s,2) - %s' % (un, a_, un)); g = hm.Function('atan(%s)*exp(%s)' % (a_, b_), dirs=ds)
        env.update(L=L, M=M, g=g)
        ops = [lambda: L + M, lambda: L - M, lambda: -L, lambda: L * g, lambda: g.sym * L, lambda: L(g), lambda: L(M), lambda: L.map(g), lambda: L.split(), lambda: M.split(), lambda: L.as_xyz(), lambda: L == M, lambda: repr(L), lambda: Operator(L)]
    if fam == 'core':
        M_ = pattern(ctx, 'M', N); S_ = csr(M_); N1 = len(listing(core, s, 1, deg)); v1 = ctx.array('v1', N1); lst = [v1, v1 + 1.0, v1 * 2.0][:max(n, 2)]; dct = {frozenset([0]): v1, frozenset([1]): lst[1]}
        m1 = [pattern(ctx, 'm%d' % i, N1) for i in range(2)]
        sl = [csr(x) for x in m1]; ss_ = {frozenset([i]): csr(m1[i]) for i in range(2)}
        env.update(M_=M_, S_=S_, v1=v1, lst=lst, dct=dct, m1=m1, sl=sl, ss_=ss_)
        ops = [lambda: core.tensorize(sl, sparse=True, index_set=s), lambda: core.tensorize(sl, index_set=s), lambda: core.tensorize(ss_, sparse=True, index_set=s), lambda: core.tensorize(ss_, index_set=s), lambda: core.tensorize(v1, dim=2, direction=1, index_set=s), lambda: core.tensorize(sl[0], dim=2, direction=0, sparse=True, index_set=s), lambda: core.to_cpp_array(m1[0], v1) and None,
               lambda: core.project(A.coeffs, n, list(range(n))[-1:], index_set=s), lambda: core.project(M_, n, 0, index_set=s), lambda: core.project(S_, n, 0, index_set=s), lambda: core.inner(A.coeffs, B.coeffs, list(range(n)), list(range(n)), index_set=s), lambda: core.tensorize(lst, index_set=s), lambda: core.tensorize(dct, index_set=s), lambda: core.tensorize(m1, index_set=s), lambda: core.tensorize(m1, sparse=True, index_set=s),
               lambda: core.to_numpy(core.to_cpp(A.coeffs)), lambda: core.to_csr(core.to_cpp(S_)), lambda: core.iterator_list_indices(n, deg, index_set=s), lambda: core.iterator_index([0] * n, index_set=s), lambda: core.iterator_get_degree(n, N, index_set=s), lambda: core.triple_products(2), lambda: core.triple_products_fourier(2),
]
    env['settings'] = settings
    env['symbols'] = [hm.Function.x_sub, hm.Function.xyz]
    before = {k: snap(v) for k, v in env.items()}
    got = []; kept = []
    over = len(ops); ops = ops + look
    def call(i):
        try: return ops[i]()
        except (ValueError, IndexError, NotImplementedError): return 'refused'
    for i in range(len(ops)):
        r = call(i); got.append(r); kept.append(snap(r))
    for k, v in env.items(): same(ctx, before[k], snap(v), 'operand %s after the operations' % k)
    for i, r in enumerate(got): same(ctx, kept[i], snap(r), 'result %d after the later operations' % i)
    k = ctx.var('spoil', 3., 5.); seen = set()
    for i, r in enumerate(got):
        if r is not None and i < over: spoil(ctx, r, seen, k)
    for k, v in env.items(): same(ctx, before[k], snap(v), 'operand %s after the results were overwritten' % k)
    for i in reversed(range(len(ops))): same(ctx, kept[i], snap(call(i)), 'result of operation %d when repeated' % i)
    for k, v in env.items(): same(ctx, before[k], snap(v), 'operand %s after the repetition' % k)

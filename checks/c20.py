"""C20: operators keep their action through split, map and composition."""
import itertools
import numpy as np
from common import *
from c18 import X, un, sy, cst
NATIVE = []
OPT = {'paths': 3, 'timeout': 120}
BOUNDS = {'dimension': '1..4', 'order': '0..5 (every multi-index in one and two dimensions, order 3 in three, 2 in four)', 'coefficients': 'polynomials, exponentials and arbitrary functions with symbolic coefficients', 'points and arguments': 'symbolic'}
def mult(dim, o): return [m for m in itertools.product(range(o + 1), repeat=dim) if sum(m) <= o]
def cases(tier):
    out = []
    import random
    r = random.Random(3)
    DR = {1: ([0], [3]), 2: ([0, 1], [1, 4]), 3: ([0, 1, 2], [0, 2, 4]), 4: ([0, 1, 2, 3],)}
    for dim, o in ((1, 5), (2, 5), (3, 3), (4, 2)):
        for dirs in DR[dim]:
            for m in mult(dim, o): out.append({'kind': 'split', 'dirs': dirs, 'ms': [m], 'co': [sum(m) % 4]})
            ms = mult(dim, o)
            for _ in range({1: 10, 2: 15, 3: 10, 4: 6}[dim] * (1 if tier == 'quick' else 4)):
                k = r.choice((2, 3, 4)) if dim > 1 else r.choice((2, 3, 5))
                s = r.sample(ms, min(k, len(ms)))
                out.append({'kind': 'split', 'dirs': dirs, 'ms': s, 'co': [r.randrange(4) for _ in s], 'form': r.choice(('sum', 'nested', 'unevaluated', 'string'))})
    for dirs in ([0], [2], [0, 1], [1, 3], [0, 1, 2]):
        for f in ('gauss', 'poly', 'coupled'):
            for o in (1, 2, 3) if len(dirs) < 3 and (f != 'poly' or len(dirs) == 1) else (1, 2):
                out.append({'kind': 'map', 'dirs': dirs, 'f': f, 'o': o})
        for op in ('call', 'calls', 'compose', 'add', 'sub', 'neg', 'mul', 'rmul', 'addexpr', 'xyz', 'zero', 'copy', 'baddirs', 'badfactor'): out.append({'kind': 'arith', 'dirs': dirs, 'op': op})
    for dim in (1, 2, 3):
        for m in itertools.product(range(7), repeat=dim):
            if sum(m) in (6, 7) and (dim < 3 or max(m) >= 4): out.append({'kind': 'high', 'm': m})
    for i in range(9): out.append({'kind': 'nonlinear', 'i': i})
    return out
def coef(ctx, name, dirs, kind):
    import sympy
    c = [sy(v) for v in ctx.array(name, len(dirs) + 1, .3, 1.)]
    if kind == 0: return c[-1] * cst(1)
    if kind == 1: return c[-1] + sum(c[i] * X(d) ** (i + 1) for i, d in enumerate(dirs))
    if kind == 2: return c[-1] * un(0, X(dirs[0])) * X(dirs[-1]) ** 2
    return c[-1] * sympy.exp(-X(dirs[-1]) ** 2) + c[0] * un(2, X(dirs[0]))
def der(u, dirs, m):
    import sympy
    for d, k in zip(dirs, m):
        for _ in range(k): u = sympy.diff(u, X(d))
    return u
def testfun(ctx, name, dirs):
    import sympy
    c = [sy(v) for v in ctx.array(name, 3 * len(dirs) + 1, -.6, .6)]
    u = c[-1]
    for i, d in enumerate(dirs): u = u + c[3 * i] * X(d) ** 3 + c[3 * i + 1] * X(d) ** 2 * X(dirs[0])
    return u * sympy.exp(sum(c[3 * i + 2] * X(d) for i, d in enumerate(dirs)))
def run(ctx, case):
    import sympy, hermipy as hm
    env = {d: ctx.var('at%d' % d, -1.1, 1.1) for d in range(5)}
    def val(e): return evalf(e, env)
    k = case['kind']
    f = sympy.Function('f')
    if k == 'split':
        dirs, ms = case['dirs'], [tuple(m) for m in case['ms']]
        u = f(*[X(d) for d in dirs])
        cs = [coef(ctx, 'c%d' % i, dirs, t) for i, t in enumerate(case['co'])]
        form = case.get('form', 'sum')
        e = sympy.Integer(0); want = {m: np.float64(0.0) for m in ms}
        if form == 'nested':
            # derivative of a product: by the product rule coefficients of several orders
            d0 = dirs[0]
            for m, c in zip(ms, cs):
                if sum(m) >= 5: m = tuple(0 for _ in m)
                e = e + sympy.diff(c * der(u, dirs, m), X(d0))
                want[m] = want.get(m, np.float64(0.0)) + val(sympy.diff(c, X(d0)))
                m1 = (m[0] + 1,) + m[1:]
                want[m1] = want.get(m1, np.float64(0.0)) + val(c)
        elif form == 'unevaluated':
            d0 = dirs[0]
            for m, c in zip(ms, cs):
                if sum(m) >= 5: m = tuple(0 for _ in m)
                e = e + sympy.Derivative(c * der(u, dirs, m), X(d0))
                want[m] = want.get(m, np.float64(0.0)) + val(sympy.diff(c, X(d0)))
                m1 = (m[0] + 1,) + m[1:]
                want[m1] = want.get(m1, np.float64(0.0)) + val(c)
        else:
            for m, c in zip(ms, cs):
                e = e + c * der(u, dirs, m); want[m] = want[m] + val(c)
            if form == 'string': e = e.subs({X(d): hm.Function.xyz[d] for d in dirs})   # other names of the variables
        L = hm.Operator(e)
        ctx.true(list(L.dirs) == dirs, 'directions of the operator')
        s = L.split()
        for m in set(want) | set(s):
            if len(m) != len(dirs): return ctx.fail('split: multi-index %s' % (m,))
            g = s.get(m)
            if g is not None: ctx.true(list(g.dirs) == dirs, 'directions of a coefficient')
            ctx.eq(np.float64(0.0) if g is None else val(g), want.get(m, np.float64(0.0)), 'coefficient of %s' % (m,), tol=1e-7)
        return
    if k == 'map':
        dirs = case['dirs']
        u = f(*[X(d) for d in dirs])
        c = ctx.array('c', 16, -1., 1.)
        e = sympy.Integer(0)
        ms = mult(len(dirs), case['o'])[:8]
        for i, m in enumerate(ms): e = e + sy(c[i]) * (X(dirs[0]) if i % 2 else 1) * der(u, dirs, m)
        p = sy(ctx.var('p', .3, 1.))
        F = {'gauss': sympy.exp(-p * sum(X(d) ** 2 for d in dirs) / 2), 'poly': 3 + p * X(dirs[0]) ** 2, 'coupled': sympy.exp(-p * X(dirs[0]) ** 2 - X(dirs[0]) * X(dirs[-1]))}[case['f']]
        L = hm.Operator(e)
        M = L.map(F if case['o'] % 2 else hm.Function(F, dirs=dirs))
        ctx.true(isinstance(M, hm.Operator) and list(M.dirs) == dirs, 'kind and directions')
        v = testfun(ctx, 't', dirs)
        num = [(m, sy(c[i]) * (X(dirs[0]) if i % 2 else 1)) for i, m in enumerate(ms)]
        # F M(v) = L(F v), both divided by the exponentials
        if case['f'] == 'poly': E = sympy.Integer(1); P = F
        else: E = F; P = sympy.Integer(1)
        lhs = val(sympy.expand(M(hm.Function(v, dirs=dirs)).sym)) * val(P)
        q = sympy.log(F).expand(force=True) if case['f'] != 'poly' else None
        rhs = np.float64(0.0)
        for m, a in num:
            d = der(E * v * P, dirs, m)
            d = sympy.expand(sympy.powsimp(sympy.expand(d / E))) if case['f'] != 'poly' else d
            rhs = rhs + val(a) * val(d)
        ctx.eq(lhs, rhs, 'conjugated operator', tol=1e-7)
        return
    if k == 'high':
        m = case['m']; dirs = list(range(len(m)))
        u = f(*[X(d) for d in dirs])
        e = sy(ctx.var('c', .3, 1.)) * der(u, dirs, m) + X(0) * u
        ctx.raises(lambda: hm.Operator(e).split(), 'operator of order %d' % sum(m))
        return
    if k == 'nonlinear':
        x, y = X(0), X(1); u, w = f(x), f(x, y)
        c = sy(ctx.var('c', .3, 1.))
        e = [c * u ** 2, u * sympy.diff(u, x), sympy.diff(u, x) ** 2 + c * u, sympy.sin(c * u), sympy.diff(w, x) * sympy.diff(w, y), c * sympy.diff(u, x) + x, c * w ** 3 + sympy.diff(w, x, y), u * sympy.exp(u), sympy.diff(u, x) ** 2 / u][case['i']]
        ctx.raises(lambda: hm.Operator(e).split(), 'operator that is not linear')
        return
    dirs, op = case['dirs'], case['op']
    u = f(*[X(d) for d in dirs])
    z = tuple(0 for _ in dirs)
    def e1(k): return tuple(int(i == k) for i in range(len(dirs)))
    A = [(coef(ctx, 'a0', dirs, 1), e1(0)), (coef(ctx, 'a1', dirs, 0), z), (coef(ctx, 'a2', dirs, 2), e1(len(dirs) - 1))]
    B = [(coef(ctx, 'b0', dirs, 0), e1(0)), (coef(ctx, 'b1', dirs, 1), z)]
    def expr(T, w): return sum((c * der(w, dirs, m) for c, m in T), sympy.Integer(0))
    L, R = hm.Operator(expr(A, u)), hm.Operator(expr(B, u))
    v = testfun(ctx, 't', dirs); V = hm.Function(v, dirs=dirs)
    av, bv = val(expr(A, v)), val(expr(B, v))
    def same(O, ref, what):
        if not isinstance(O, hm.Operator) or list(O.dirs) != dirs: return ctx.fail('%s: not an operator in these directions' % what)
        ctx.eq(val(O(V)), ref, what, tol=1e-7)
    if op == 'call':
        r = L(V); ctx.true(isinstance(r, hm.Function) and list(r.dirs) == dirs, 'kind of the result'); ctx.eq(val(r), av, 'application')
    elif op == 'calls':
        r = L(v); ctx.true(isinstance(r, hm.Function), 'kind of the result'); ctx.eq(val(r), av, 'application to an expression')
    elif op == 'compose':
        same(L(R), val(expr(A, expr(B, v))), 'composition')
        same(L(R.sym), val(expr(A, expr(B, v))), 'composition with an expression')
    elif op == 'add': same(L + R, av + bv, 'sum')
    elif op == 'sub': same(L - R, av - bv, 'difference')
    elif op == 'neg': same(-L, -av, 'negation')
    elif op in ('mul', 'rmul'):
        n = ctx.var('n', -2., 2.)
        g = coef(ctx, 'g', dirs, 1)
        same(L * hm.Function(g, dirs=dirs), av * val(g), 'product with a function')
        same(L * sy(n) if op == 'mul' else L.__rmul__(sy(n)), av * n, 'product with a number')
        same(3 * L, av * 3.0, 'product with an integer')
    elif op == 'addexpr':
        same(L + expr(B, u), av + bv, 'sum with an expression'); same(L - expr(B, u), av - bv, 'difference with an expression')
        if len(dirs) > 1: return
    elif op == 'xyz':
        e = L.as_xyz()
        ctx.true({str(q) for q in e.free_symbols if not str(q).startswith('vfnode')} <= {XS[d] for d in dirs}, 'names of the variables')
        same(hm.Operator(e), av, 'operator written with the other names')
    elif op == 'zero':
        Z = L - L
        ctx.true(Z.split() == {}, 'zero operator'); ctx.eq(val(Z(V)), 0.0, 'zero operator')
        Z = hm.Operator(0, dirs=dirs); ctx.true(list(Z.dirs) == dirs and Z.split() == {}, 'zero operator'); same(L + Z, av, 'sum with zero')
        ctx.raises(lambda: hm.Operator(0), 'zero without directions')
    elif op == 'copy':
        Q = hm.Operator(L); ctx.true(Q == L and not (L == R), 'equality'); same(Q, av, 'copy')
        g = sympy.Function('g')(*[X(d) for d in dirs])
        same(hm.Operator(expr(A, g)), av, 'another name of the unknown')
        ctx.raises(lambda: hm.Operator(expr(A, u) + g), 'two unknowns')
    elif op == 'baddirs':
        o = sorted(set(dirs) | {(dirs[-1] + 1) % 5})
        w = f(*[X(d) for d in o]); O = hm.Operator(w * X(o[0]))
        ctx.raises(lambda: L + O, 'sum of operators in other directions'); ctx.raises(lambda: L - O, 'difference of operators in other directions')
        ctx.raises(lambda: L * hm.Function(X(o[0]), dirs=o), 'product with a function of other directions')
    elif op == 'badfactor':
        o = sorted(set(dirs) | {(dirs[-1] + 1) % 5})
        ctx.raises(lambda: L.map(hm.Function(X(o[0]), dirs=o)), 'factor in other directions')

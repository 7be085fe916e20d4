"""C18: functions keep their meaning through parsing, algebra, splitting and C code."""
import itertools
import numpy as np
from common import *
NATIVE = ['discretize (of the generated C code)']
OPT = {'paths': 3, 'timeout': 60}
BOUNDS = {'directions': 'up to 5', 'factors': 'products of up to 3 coupled factors (every choice of up to three coupled direction sets over 3 and 4 directions) and one factor per direction, sums of up to 3 products',
          'values': 'coefficients and coordinates symbolic; erf, atan, tanh, asinh stand for arbitrary functions'}
UN = ['atan', 'tanh', 'erf', 'asinh', 'sin', 'exp', 'cos']
def couplings(dim, kmax):
    subs = [list(c) for r in range(2, dim + 1) for c in itertools.combinations(range(dim), r)]
    for k in range(0, kmax + 1):
        for c in itertools.combinations(subs, k): yield list(c)
def cases(tier):
    out = []
    for dim in (1, 2, 3, 4):
        n = 0
        for c in couplings(dim, 3 if dim < 4 or tier != 'quick' else 2):
            perms = list(itertools.permutations(range(len(c))))
            for p in perms:
                for sh in (0, 2) if dim == 3 else (0,):
                    out.append({'kind': 'split', 'dim': dim, 'terms': [[[c[i] for i in p], sh]]}); n += 1
    import random
    r = random.Random(7)
    for dim in (2, 3, 4, 5):
        al = list(couplings(min(dim, 4), 2))
        for _ in range(25 if tier == 'quick' else 120):
            out.append({'kind': 'split', 'dim': dim, 'terms': [[r.choice(al), i * 2] for i in range(r.choice((2, 3)))], 'off': r.choice((0, 5 - dim)), 'sing': r.randrange(3)})
    for i, o in enumerate(out):
        o['cst'] = i % 3
        o['dup'] = min(o['dim'], (0, 1, 0, 2)[i % 4])
    for nm in ('x', 'y', 'z', 'w', 'v'): out.append({'kind': 'name', 'v': nm})
    for dirs in ([0], [2], [0, 1], [1, 3], [0, 2, 4], [0, 1, 2, 3, 4]):
        for op in ('add', 'mul', 'div', 'radd', 'rmul', 'addn', 'muln', 'divn', 'adds', 'tensor', 'badadd', 'badmul', 'baddiv', 'badtensor', 'xyz', 'copy'): out.append({'kind': 'arith', 'dirs': dirs, 'op': op})
    for r_ in range(1, 6):
        for dirs in itertools.combinations(range(5), r_):
            for e in range(4): out.append({'kind': 'ccode', 'dirs': list(dirs), 'e': e})
    out.append({'kind': 'bad'})
    return out
def X(d):
    import sympy
    return sympy.Symbol('x%d' % d, real=True)
def un(i, a):
    import sympy
    return getattr(sympy, UN[i % len(UN)])(a)
def product(dirs, coup, shift, sing=0, un=un):
    """(list of (set of directions, expression))"""
    out = []
    for i, c in enumerate(coup):
        s = [dirs[j] for j in c]
        a = X(s[0])
        for d in s[1:]: a = a * X(d) + X(d)
        out.append((frozenset(s), un(i + shift, a)))
    for i, d in enumerate(dirs):
        if sing == 2 and i % 2: continue
        out.append((frozenset([d]), X(d) ** (1 + (i + shift) % 3) if sing else un(i + 3 + shift, 2 * X(d))))
    return out
def cst(i):
    """further constant factors of a term"""
    import sympy
    return [sympy.Integer(1), sympy.sqrt(2) * sympy.pi, 3 * sympy.sqrt(5) / sympy.E][i % 3]
def sy(v):
    import sympy
    return sympy.sympify(v)
def run(ctx, case):
    import sympy, hermipy as hm, hermipy.core as core
    k = case['kind']
    env = {d: ctx.var('at%d' % d, -1.2, 1.2) for d in range(5)}
    def val(e): return evalf(e, env)
    if k == 'split':
        dim = case['dim']; off = case.get('off', 0); dirs = list(range(off, off + dim))
        c = ctx.array('c', len(case['terms']), .3, 1.)
        e = sympy.Integer(0)
        for (coup, sh), a in zip(case['terms'], c):
            t = sy(a) * cst(case.get('cst', 0) + sh)
            for _, g in product(dirs, coup, sh, case.get('sing', 0)): t = t * g
            for d in dirs[:case.get('dup', 0)]: t = t * un(5 + sh, X(d) / 3) * un(6, X(d))
            if case.get('dup', 0) > 1: t = t * un(5, X(dirs[0]) * X(dirs[1])) * un(6, X(dirs[0]) * X(dirs[1]) / 2)
            e = e + t
        f = hm.Function(e, dirs=dirs)
        ref = val(e)
        ctx.eq(val(f), ref, 'function')
        ctx.true(list(f.dirs) == dirs, 'directions')
        tot = np.float64(0.0)
        for t in f.split(legacy=False):
            if not isinstance(t, dict) or frozenset() not in t: return ctx.fail('split: term without constant')
            p = np.float64(1.0); seen = []
            for key, g in t.items():
                if not (set(key) <= set(dirs) and not (set(key) & set(seen)) and sorted(g.dirs) == sorted(key) and {str(v) for v in g.sym.free_symbols if not str(v).startswith('vfnode')} <= {'x%d' % d for d in key}):
                    return ctx.fail('split: factor %s under directions %s' % (g, sorted(key)))
                seen += key
                p = p * val(g)
            if sorted(seen) != dirs: return ctx.fail('split: directions %s covered instead of %s' % (seen, dirs))
            tot = tot + p
        ctx.eq(tot, ref, 'sum of the products of the factors')
        # finest: uncoupled directions stay apart
        if len(case['terms']) == 1 and not case.get('sing'):
            comp = {d: {d} for d in dirs}
            for q in case['terms'][0][0] + ([[0, 1]] if case.get('dup', 0) > 1 else []):
                u = set().union(*[comp[dirs[j]] for j in q])
                for d in u: comp[d] = u
            want = {frozenset(v) for v in comp.values()}
            parts = f.split(legacy=False)
            if len(parts) == 1: ctx.true(set(parts[0]) - {frozenset()} == want, 'split: directions that no factor couples are kept apart')
        tot = np.float64(0.0)
        for t in f.split():
            p = np.float64(1.0)
            for g in t: p = p * val(g)
            tot = tot + p
        ctx.eq(tot, ref, 'sum of the products of the factors (per direction)')
    elif k == 'name':
        i = XS.index(case['v'])
        a = ctx.var('a')
        for e in (case['v'], 'x%d' % i, sympy.Symbol(case['v']), sympy.Symbol(case['v'], real=True), sympy.Symbol('x%d' % i), hm.Function.xyz[i], hm.Function.x_sub[i]):
            f = hm.Function(e)
            ctx.true(list(f.dirs) == list(range(i + 1)), 'directions of %s' % e)
            ctx.eq(val(f), env[i], 'value of %r' % e)
            ctx.true(hm.Function(e, dirs=[i]) == hm.Function(hm.Function.x_sub[i], dirs=[i]), 'equality of %r' % e)
        f = hm.Function('sin(%s)**2*%s + x%d*%s' % (case['v'], case['v'], i, 'x'))
        ctx.eq(val(f), np.sin(env[i]) * np.sin(env[i]) * env[i] + env[i] * env[0], 'parsed expression')
        ctx.true(list(hm.Function('3').dirs) == [] and list(hm.Function(2, dim=3).dirs) == [0, 1, 2], 'constants')
    elif k == 'arith':
        dirs, op = case['dirs'], case['op']
        c = [sy(v) for v in ctx.array('c', 2 * len(dirs) + 2, .2, 1.)]
        e1 = sum((c[i] * X(d) ** (i + 1) for i, d in enumerate(dirs)), c[-1]); e2 = c[-2] + sum((un(i, X(d)) ** 2 * c[len(dirs) + i] for i, d in enumerate(dirs)), sympy.Integer(0))
        f, g = hm.Function(e1, dirs=dirs), hm.Function(e2, dirs=dirs)
        n = ctx.var('n', .5, 2.)
        a, b = val(e1), val(e2)
        if op.startswith('bad'):
            o = [d for d in range(5) if d not in dirs] + [dirs[0]] if op == 'badtensor' else [dirs[0], dirs[-1] + 1] if len(dirs) == 1 else dirs[:-1]
            h = hm.Function(X(dirs[0]), dirs=sorted(set(o) | {dirs[0]}))
            F = {'badadd': lambda: f + h, 'badmul': lambda: f * h, 'baddiv': lambda: f / h, 'badtensor': lambda: hm.Function.tensorize([f, h])}[op]
            ctx.raises(F, 'functions of other directions combined')
            return
        if op == 'tensor':
            other = [d for d in range(5) if d not in dirs]
            if not other: return
            e3 = un(1, X(other[0])) * sy(n); h = hm.Function(e3, dirs=other)
            for r in (hm.Function.tensorize([f, h]), hm.Function.tensorize([h, f])):
                ctx.true(list(r.dirs) == list(range(5)), 'directions of a product'); ctx.eq(val(r), a * val(e3), 'product')
            return
        if op == 'xyz':
            r = f.as_xyz()
            ctx.true({str(v) for v in r.free_symbols if not str(v).startswith('vfnode')} == {XS[d] for d in dirs}, 'names of the variables')
            ctx.eq(val(r), a, 'value'); return
        if op == 'copy':
            r = hm.Function(f); ctx.true(r == f and list(r.dirs) == dirs, 'copy'); ctx.eq(val(r), a, 'copy')
            ctx.true(not (f == g) and not (g == f), 'different functions taken for equal')
            return
        r, ref = {'add': lambda: (f + g, a + b), 'mul': lambda: (f * g, a * b), 'div': lambda: (f / g, a / b), 'radd': lambda: (f.__radd__(e2), a + b), 'rmul': lambda: (3 * f, a * 3.0),
                  'addn': lambda: (f + sy(n), a + n), 'muln': lambda: (f * sy(n), a * n), 'divn': lambda: (f / sy(n), a / n), 'adds': lambda: (f + str(hm.Function.xyz[dirs[0]]), a + env[dirs[0]])}[op]()
        ctx.true(isinstance(r, hm.Function) and list(r.dirs) == dirs, 'kind and directions of the result')
        ctx.eq(val(r), ref, op, tol=1e-7)
    elif k == 'ccode':
        dirs = case['dirs']
        if case['e'] == 0: e = sum(((j + 2) * X(d) ** (j + 1) for j, d in enumerate(dirs)), sympy.Integer(1))
        elif case['e'] == 1: e = sympy.prod([un(j, X(d) * X(dirs[0]) + j + 1) for j, d in enumerate(dirs)]) + X(dirs[-1])
        elif case['e'] == 2: e = sympy.exp(-sum((sympy.Rational(1, j + 2) * X(d) ** 2 for j, d in enumerate(dirs)), sympy.Integer(0))) + 1 / (3 + sympy.cos(X(dirs[-1]))) + sympy.sqrt(2) * sympy.pi
        else: e = X(dirs[-1]) + sympy.Integer(0)
        f = hm.Function(e, dirs=dirs)
        x = ctx.array('n', (len(dirs), 1), -1.2, 1.2)
        r = core.discretize(f.ccode(), x, np.zeros(len(dirs)), np.eye(len(dirs)))
        ctx.eq(r, np.array([evalf(e, {d: x[i, 0] for i, d in enumerate(dirs)})]), 'generated code')
    elif k == 'bad':
        ctx.raises(lambda: hm.Function('x*y', dirs=[0]), 'variable outside the directions')
        ctx.raises(lambda: hm.Function('x*y', dirs=[1, 0]), 'directions out of order')
        ctx.raises(lambda: hm.Function.tensorize([hm.Function('x', dirs=[0]), 3]), 'not a function')

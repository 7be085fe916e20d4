"""C22: series arithmetic is coefficient-wise and refuses mismatched operands."""
import itertools
import numpy as np
from common import *
NATIVE = ['inner', 'project', 'get_degree, size, list of every index set']
OPT = {'paths': 20, 'timeout': 90}
BOUNDS = {'dimension': '1..4', 'degree': '0..4', 'coefficients, scalars, means, standard deviations': 'symbolic', 'index sets': 'all', 'directions': 'every pair of increasing lists over 4 directions, up to 3 each',
          'factors': 'products of Gaussians, arbitrary functions and coupled factors', 'mismatch': 'symbolic difference of one mean or one variance; other kinds enumerated'}
H, F = 'hermite', 'fourier'
CF = [([0], [H]), ([1], [F]), ([0, 1], [H, F]), ([0, 2], [H, H]), ([1, 2, 3], [H, F, H])]
def fac(dirs, k=0):
    """a product factor over the directions"""
    g = ['exp(-erf(%s))', 'exp(-%s**2/4)', 'exp(-atan(%s))', 'exp(%s/3)', 'exp(-%s**4)']
    return '*'.join(g[(d + k) % 5] % XS[d] for d in dirs) or '1'
def cases(tier):
    T = tier == 'thorough'
    out = []
    for dirs, types in CF:
        for s in (SETS if len(dirs) > 1 else SETS[:1]):
            for deg in ((1, 3) if len(dirs) < 3 else (2,)) + ((4,) if T else ()):
                if s in ('cross', 'cross_nc') and deg < 1: continue
                out.append({'kind': 'arith', 'dirs': dirs, 'types': types, 's': s, 'deg': deg})
                out.append({'kind': 'sub', 'dirs': dirs, 'types': types, 's': s, 'deg': deg})
    for what in ('mean', 'var', 'dirs', 'types', 'set', 'set2', 'factor', 'factor2', 'degree', 'degree0', 'same', 'dim'):
        for op in ('add', 'sub'):
            for i in ((0, 1, 2) if what in ('mean', 'var') else (0,)):
                out.append({'kind': 'mismatch', 'what': what, 'op': op, 'i': i})
    for dirs in ([0, 1], [0, 2], [1, 2, 3], [0, 1, 2, 3]):
        for s in SETS:
            for r in range(1, len(dirs) + 1):
                for k in itertools.combinations(dirs, r):
                    if len(dirs) == 4 and s == 'cube' and not T: continue
                    out.append({'kind': 'project', 'dirs': dirs, 'keep': list(k), 's': s, 'deg': 2})
    for dim in (1, 2, 3, 4):
        for d in range(1, {1: 5, 2: 5, 3: 4, 4: 2}[dim]):
            for extra in (0, 1):
                out.append({'kind': 'cross', 'dim': dim, 'deg': d, 'extra': extra, 'dirs': list(range(1, dim + 1)) if dim < 4 else [0, 1, 2, 3]})
    subs = [list(c) for r in (1, 2, 3) for c in itertools.combinations(range(4), r)]
    for a in subs:
        for b in subs:
            if len(set(a) ^ set(b)) > 3 and not T: continue
            for s in (SETS if len(a) + len(b) < 5 or T else SETS[:1]):
                out.append({'kind': 'product', 'a': a, 'b': b, 's': s, 'deg': 2 if len(a) + len(b) < 5 else 1})
    for w in ('mean', 'var', 'factor', 'degree', 'set', 'set2'): out.append({'kind': 'badproduct', 'what': w})
    out.append({'kind': 'triple'})
    return out
def run(ctx, case):
    import hermipy as hm, hermipy.core as core
    k = case['kind']
    if k in ('arith', 'sub'):
        dirs, types, s, deg = (case[x] for x in ('dirs', 'types', 's', 'deg'))
        n = len(dirs); L = listing(core, s, n, deg); P = pos(L)
        f = fac(dirs)
        p, m, sg = position(ctx, 'p', dirs, types)
        a = ctx.array('a', len(L))
        A = hm.Series(a.copy(), p, factor=f, index_set=s)
        ok = lambda r, w: meta(ctx, r, dirs, m, sg, types, f, s, w)
        if k == 'arith':
            b = ctx.array('b', len(L)); c = ctx.var('c', .5, 2.)
            p2, _, _ = position(ctx, 'p', dirs, types)
            B = hm.Series(b.copy(), p2, factor=f, index_set=s)
            for w, r, ref in (('sum', lambda: A + B, [x + y for x, y in zip(a, b)]), ('difference', lambda: A - B, [x - y for x, y in zip(a, b)]),
                              ('negation', lambda: -A, [-x for x in a]), ('scaling', lambda: A * c, [x * c for x in a]), ('left scaling', lambda: 3 * A, [x * 3 for x in a]),
                              ('division', lambda: A / c, [x / c for x in a]), ('combination', lambda: (A + B * 2) - A / 4, [x + 2 * y - x / 4 for x, y in zip(a, b)])):
                r = r()
                ctx.eq(r.coeffs, np.array(ref), w); ok(r, w)
                ctx.true(r.degree == A.degree, w + ': degree')
            ctx.eq(A.coeffs, a, 'operands unchanged'); ctx.eq(B.coeffs, b, 'operands unchanged')
            for i in range(len(L)): ctx.eq(A[i], a[i], 'item')
            ctx.true([tuple(x) for x in A.multi_indices()] == L, 'multi-indices of the series')
            if n > 1 or deg < 2: return
            ctx.raises(lambda: A * 'x', 'scaling by a string'); ctx.raises(lambda: A + 'x', 'adding a string'); ctx.raises(lambda: A / B, 'dividing by a series')
        else:
            if s == 'cross_nc':
                ctx.raises(lambda: A.subdegree(deg), 'subdegree on cross_nc'); return
            for d in range(1 if s == 'cross' else 0, deg + 3):
                r = A.subdegree(d)
                ctx.eq(r.coeffs, np.array([at(a, P, q) for q in listing(core, s, n, d)]), 'degree %d -> %d' % (deg, d))
                ok(r, 'subdegree')
        return
    if k == 'mismatch':
        dirs = [0, 1, 2]; types = [H, H, F]; s = 'triangle'; w, i = case['what'], case['i']
        if w == 'set2': s = 'cross'
        L = listing(core, s, 3, 2)
        p, m, sg = position(ctx, 'p', dirs, types)
        f, g, t, d2, s2, n2 = fac(dirs), fac(dirs), types, dirs, s, len(L)
        m2, sg2 = m.copy(), sg.copy()
        if w == 'mean': m2[i] = ctx.var('other')
        if w == 'var': sg2[i] = ctx.var('other', .5, 2.)
        if w == 'dirs': d2 = [0, 1, 3]; g = f
        if w == 'types': t = [H, F, H]
        if w == 'set': s2 = 'rectangle'
        if w == 'factor': g = '2*' + f
        if w == 'factor2': g = '1'
        if w == 'degree': n2 = len(listing(core, s, 3, 1))
        if w == 'degree0': n2 = 1
        if w == 'dim': d2, t = [0, 1], [H, H]
        if w in ('dirs', 'dim'): f = g = '1'
        if w == 'dim': m2, sg2, n2 = m2[:2], sg2[:2], len(listing(core, s, 2, 2))
        if w == 'set': n2 = len(listing(core, s2, 3, 2))
        if w == 'set2': s2 = 'cross_nc'
        c = np.zeros((len(d2), len(d2)))
        for j in range(len(d2)): c[j, j] = sg2[j] * sg2[j]
        A = hm.Series(ctx.array('a', len(L)), p, factor=f, index_set=s)
        B = hm.Series(ctx.array('b', n2), hm.Position(dirs=list(d2), mean=m2, cov=c, types=t), factor=g, index_set=s2)
        r = refused(lambda: A + B if case['op'] == 'add' else A - B)
        if w == 'same': ctx.true(not r, 'operands that match were refused')
        elif w in ('mean', 'var'):
            # accepted only where they agree
            if not r: ctx.eq(m2 if w == 'mean' else sg2, m if w == 'mean' else sg, 'accepted operands whose %s differ' % w, tol=1e-4)
        else: ctx.true(r, 'operands with another %s were accepted' % w.rstrip('02'))
        return
    if k == 'project':
        dirs, keep, s, deg = case['dirs'], case['keep'], case['s'], case['deg']
        types = [H if d % 2 == 0 else F for d in dirs]
        L = listing(core, s, len(dirs), deg); P = pos(L)
        f = fac(dirs); p, m, sg = position(ctx, 'p', dirs, types)
        a = ctx.array('a', len(L))
        A = hm.Series(a, p, factor=f, index_set=s)
        ix = [dirs.index(d) for d in keep]
        r = A.project(keep if len(keep) > 1 or deg % 2 else keep[0])
        ref = []
        for q in listing(core, s, len(keep), deg):
            u = [0] * len(dirs)
            for j, x in zip(ix, q): u[j] = x
            ref.append(at(a, P, u))
        ctx.eq(r.coeffs, np.array(ref), 'projection')
        meta(ctx, r, keep, [m[j] for j in ix], [sg[j] for j in ix], [types[j] for j in ix], fac(keep), s, 'projection')
        return
    if k == 'cross':
        dim, d, dirs = case['dim'], case['deg'], case['dirs']
        big = d + dim - 1 + case['extra']
        L = listing(core, 'triangle', dim, big); P = pos(L)
        a = ctx.array('a', len(L)); p, m, sg = position(ctx, 'p', dirs)
        r = hm.Series(a, p, factor=fac(dirs)).to_cross(d)
        ctx.eq(r.coeffs, np.array([at(a, P, q) for q in listing(core, 'cross', dim, d)]), 'restriction to the cross')
        meta(ctx, r, dirs, m, sg, None, fac(dirs), 'cross', 'restriction to the cross')
        if dim > 1: ctx.raises(lambda: hm.Series(a, p).to_cross(big), 'a cross that the triangle does not contain')
        return
    if k in ('product', 'badproduct'):
        a, b = (case['a'], case['b']) if k == 'product' else ([0, 1], [1, 2])
        w = case.get('what')
        s, deg = (case['s'], case['deg']) if k == 'product' else ('triangle', 2)
        al = sorted(set(a) | set(b))
        T = {d: (H if d != 1 else F) for d in al}
        _, m, sg = position(ctx, 'p', al)
        M, S = dict(zip(al, m)), dict(zip(al, sg))
        def mk(nm, dirs, deg, s, change=None, f=None):
            M2, S2 = dict(M), dict(S)
            if change == 'mean': M2[1] = ctx.var('other')
            if change == 'var': S2[1] = ctx.var('other', .5, 2.)
            c = np.zeros((len(dirs), len(dirs)))
            for i, d in enumerate(dirs): c[i, i] = S2[d] * S2[d]
            p = hm.Position(dirs=list(dirs), mean=np.array([M2[d] for d in dirs]), cov=c, types=[T[d] for d in dirs])
            return hm.Series(ctx.array(nm, len(listing(core, s, len(dirs), deg))), p, factor=f or fac(dirs), index_set=s), M2, S2
        if w == 'set2': s = 'cross'
        A, _, _ = mk('a', a, deg, s)
        if k == 'badproduct':
            B, M2, S2 = mk('b', b, deg - (w == 'degree'), {'set': 'cube', 'set2': 'cross_nc'}.get(w, s), w, fac(b, 1) if w == 'factor' else None)
            r = refused(lambda: A * B)
            if w in ('mean', 'var'):
                if not r: ctx.eq([M2[1], S2[1]], [M[1], S[1]], 'product accepted although the shared direction differs', tol=1e-4)
            else: ctx.true(r, 'product of series with another %s was accepted' % w)
            return
        B, _, _ = mk('b', b, deg, s)
        r = A * B
        free, shared = sorted(set(a) ^ set(b)), [d for d in a if d in b]
        LA, LB = listing(core, s, len(a), deg), listing(core, s, len(b), deg)
        acc = {}
        for i, x in enumerate(LA):
            dx = dict(zip(a, x))
            for j, y in enumerate(LB):
                dy = dict(zip(b, y))
                if all(dx[d] == dy[d] for d in shared):
                    key = tuple(dx[d] if d in dx else dy[d] for d in free)
                    acc[key] = acc.get(key, np.float64(0.0)) + A.coeffs[i] * B.coeffs[j]
        ref = [acc.get(q, np.float64(0.0)) for q in (listing(core, s, len(free), deg) if free else [()])]
        ctx.eq(r.coeffs, np.array(ref), 'product of series')
        meta(ctx, r, free, [M[d] for d in free], [S[d] for d in free], [T[d] for d in free], fac(free), s, 'product')
        if not free: ctx.eq(float(r) if not ctx.symbolic else r.coeffs[0], ref[0], 'number')
        return
    if k == 'triple':
        # products are associative over disjoint directions, and contract to numbers
        P = [position(ctx, 'p%d' % d, [d])[0] for d in range(3)]
        v = [ctx.array('v%d' % d, 3) for d in range(3)]
        S = [hm.Series(x, p, factor=fac([d])) for d, (x, p) in enumerate(zip(v, P))]
        r = hm.Series.tensorize(S)
        L = listing(core, 'triangle', 3, 2)
        ctx.eq(r.coeffs, np.array([v[0][q[0]] * v[1][q[1]] * v[2][q[2]] for q in L]), 'three-fold product')
        check_factor(ctx, r.factor, fac([0, 1, 2]), [0, 1, 2], 'three-fold product')
        z = (S[0] * S[0]) * S[1]
        ctx.eq(z.coeffs, np.array([ssum(x * x for x in v[0]) * y for y in v[1]]), 'number times a series')
        z = S[1] * (S[0] * S[0])
        ctx.eq(z.coeffs, np.array([ssum(x * x for x in v[0]) * y for y in v[1]]), 'series times a number')
        check_factor(ctx, z.factor, fac([1]), [1], 'series times a number')

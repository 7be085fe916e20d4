"""C23: matrix-operator arithmetic is entry-wise, application is the matrix product."""
import itertools
import numpy as np
from common import *
from c22 import fac, H, F
NATIVE = ['tensorize (matrices)', 'project (matrices)', 'get_degree, size, list of every index set']
OPT = {'paths': 12, 'timeout': 90}
BOUNDS = {'dimension': '1..4', 'degree': '0..4', 'matrix entries, coefficients, scalars, means, standard deviations': 'symbolic', 'storage': 'dense, sparse and mixed', 'index sets': 'all',
          'directions': 'every partition of up to 4 directions into two or three groups', 'mismatch': 'symbolic difference of one mean or one variance; other kinds enumerated'}
CF = [([0], [H]), ([1], [F]), ([0, 1], [H, F]), ([0, 2], [H, H]), ([1, 2, 3], [H, F, H])]
PATS = {'dense': lambda i, j: True, 'sparse': lambda i, j: (2 * i + j) % 3 != 0}
def cases(tier):
    T = tier == 'thorough'
    out = []
    for dirs, types in CF:
        for s in (SETS if len(dirs) > 1 else SETS[:1]):
            for deg in (1, 3) if len(dirs) < 2 else ((1, 2) if len(dirs) < 3 else (1,)):
                for st in ('dense', 'sparse', 'mixed', 'mixed2'):
                    out.append({'kind': 'arith', 'dirs': dirs, 'types': types, 's': s, 'deg': deg, 'st': st})
                for st in ('dense', 'sparse'):
                    out.append({'kind': 'call', 'dirs': dirs, 'types': types, 's': s, 'deg': deg, 'st': st})
                    out.append({'kind': 'sub', 'dirs': dirs, 'types': types, 's': s, 'deg': deg + (len(dirs) < 3), 'st': st})
    for what in ('mean', 'var', 'dirs', 'types', 'set', 'set2', 'factor', 'factor2', 'degree', 'degree0', 'same', 'dim'):
        for op in ('add', 'sub', 'call'):
            if op == 'call' and what in ('factor', 'factor2'): continue
            for i in ((0, 1, 2) if what in ('mean', 'var') else (0,)):
                for st in ('dense', 'sparse'): out.append({'kind': 'mismatch', 'what': what, 'op': op, 'i': i, 'st': st})
    for dirs in ([0, 1], [0, 2], [1, 2, 3], [0, 1, 2, 3]):
        for s in SETS:
            for r in range(1, len(dirs) + 1):
                for k in itertools.combinations(dirs, r):
                    for st in ('dense', 'sparse'):
                        if len(dirs) == 4 and s not in ('triangle', 'rectangle') and not T: continue
                        out.append({'kind': 'project', 'dirs': dirs, 'keep': list(k), 's': s, 'deg': 2 if len(dirs) < 3 else 1, 'st': st})
    for dim in (1, 2, 3):
        for d in range(1, {1: 4, 2: 3, 3: 2}[dim]):
            for extra in (0, 1):
                for st in ('dense', 'sparse'): out.append({'kind': 'cross', 'dim': dim, 'deg': d, 'extra': extra, 'dirs': list(range(1, dim + 1)), 'st': st})
    for dim in (2, 3, 4):
        for g in partitions(range(dim)):
            if len(g) < 2 or (dim == 4 and len(g) > 2 and not T): continue
            for h in (g, g[::-1]):
                for s in (SETS if dim < 4 else SETS[:1]):
                    for st in ('dense', 'sparse'):
                        for sp in (False, True):
                            if st == 'dense' and sp and dim > 2 and not T: continue
                            out.append({'kind': 'tensor', 'g': h, 's': s, 'deg': 2 if dim == 2 else 1, 'st': st, 'sparse': sp})
    for w in ('degree', 'set', 'shared', 'one'): out.append({'kind': 'badtensor', 'what': w})
    return out
def mk(st, A): return csr(A) if st == 'sparse' else A
def run(ctx, case):
    import hermipy as hm, hermipy.core as core, scipy.sparse as ss
    k = case['kind']
    def storage(r, sparse, w):
        ctx.true(ss.issparse(r.matrix) == sparse and bool(r.is_sparse) == sparse, w + ': storage')
        if not sparse: ctx.true(type(r.matrix) is np.ndarray, w + ': the matrix is not an ordinary array')
    if k in ('arith', 'sub', 'call'):
        dirs, types, s, deg, st = (case[x] for x in ('dirs', 'types', 's', 'deg', 'st'))
        n = len(dirs); L = listing(core, s, n, deg); P = pos(L); N = len(L)
        f = fac(dirs)
        p, m, sg = position(ctx, 'p', dirs, types)
        sa, sb = {'dense': ('dense',) * 2, 'sparse': ('sparse',) * 2, 'mixed': ('dense', 'sparse'), 'mixed2': ('sparse', 'dense')}[st]
        a = pattern(ctx, 'a', N, keep=PATS[sa])
        A = hm.Varf(mk(sa, a), p, factor=f, index_set=s)
        ok = lambda r, w: meta(ctx, r, dirs, m, sg, types, f, s, w)
        if k == 'arith':
            b = pattern(ctx, 'b', N, keep=lambda i, j: PATS[sb](j, i)); c = ctx.var('c', .5, 2.)
            p2, _, _ = position(ctx, 'p', dirs, types)
            B = hm.Varf(mk(sb, b), p2, factor=f, index_set=s)
            v = ctx.array('v', N)
            bothsp = sa == sb == 'sparse'
            for w, r, ref, sp in (('sum', lambda: A + B, a + b, bothsp), ('difference', lambda: A - B, a - b, bothsp), ('negation', lambda: -A, -a, sa == 'sparse'),
                                  ('scaling', lambda: A * c, a * c, sa == 'sparse'), ('left scaling', lambda: 3 * A, a * 3, sa == 'sparse'),
                                  ('zero plus', lambda: 0 + A, a, None), ('combination', lambda: (A + B * 2) - A * .25, a + 2 * b - a * .25, bothsp)):
                if w == 'zero plus' and n > 1: continue
                r = r()
                ctx.eq(r.matrix, ref, w); ok(r, w)
                if sp is not None: storage(r, sp, w)
                ctx.true(r.degree == A.degree, w + ': degree')
                if w in ('sum', 'difference') and n < 3:
                    ctx.eq(r(hm.Series(v, p, factor=f, index_set=s)).coeffs, np.array([ssum(ref[i, j] * v[j] for j in range(N)) for i in range(N)]), w + ' applied to a series')
            ctx.eq(A.matrix, a, 'operands unchanged'); ctx.eq(B.matrix, b, 'operands unchanged')
            if N <= 6:
                for i in range(N): ctx.eq(A[i, N - 1 - i], a[i, N - 1 - i], 'item')
            ctx.true([tuple(x) for x in A.multi_indices()] == L, 'multi-indices of the operator')
        elif k == 'call':
            v = ctx.array('v', N)
            r = A(hm.Series(v, p, factor=f, index_set=s))
            ctx.true(isinstance(r, hm.Series), 'kind of the image')
            ctx.eq(r.coeffs, np.array([ssum(a[i, j] * v[j] for j in range(N)) for i in range(N)]), 'image of a series'); ok(r, 'image of a series')
        else:
            if s == 'cross_nc':
                ctx.raises(lambda: A.subdegree(deg), 'subdegree on cross_nc'); return
            for d in range(1 if s == 'cross' else 0, deg + 1):
                ix = [P[q] for q in listing(core, s, n, d)]
                r = A.subdegree(d)
                ref = np.zeros((len(ix), len(ix)))
                for i, x in enumerate(ix):
                    for j, y in enumerate(ix): ref[i, j] = a[x, y]
                ctx.eq(r.matrix, ref, 'degree %d -> %d' % (deg, d)); ok(r, 'subdegree'); storage(r, sa == 'sparse', 'subdegree')
            ctx.raises(lambda: A.subdegree(deg + 2), 'subdegree above the degree')
        return
    if k == 'mismatch':
        dirs = [0, 1, 2]; types = [H, H, F]; s = 'triangle'; w, i, st = case['what'], case['i'], case['st']
        if w == 'set2': s = 'cross'
        N = len(listing(core, s, 3, 1))
        p, m, sg = position(ctx, 'p', dirs, types)
        f, g, t, d2, s2, n2 = fac(dirs), fac(dirs), types, dirs, s, N
        m2, sg2 = m.copy(), sg.copy()
        if w == 'mean': m2[i] = ctx.var('other')
        if w == 'var': sg2[i] = ctx.var('other', .5, 2.)
        if w == 'dirs': d2 = [0, 1, 3]
        if w == 'types': t = [H, F, H]
        if w == 'set': s2, n2 = 'cube', len(listing(core, 'cube', 3, 1))
        if w == 'set2': s2 = 'cross_nc'
        if w == 'factor': g = '2*' + f
        if w == 'factor2': g = '1'
        if w == 'degree': n2 = len(listing(core, s, 3, 2))
        if w == 'degree0': n2 = 1
        if w == 'dim': d2, t = [0, 1], [H, H]
        if w in ('dirs', 'dim'): f = g = '1'
        if w == 'dim': m2, sg2, n2 = m2[:2], sg2[:2], len(listing(core, s, 2, 1))
        c = np.zeros((len(d2), len(d2)))
        for j in range(len(d2)): c[j, j] = sg2[j] * sg2[j]
        A = hm.Varf(mk(st, pattern(ctx, 'a', N)), p, factor=f, index_set=s)
        q = hm.Position(dirs=list(d2), mean=m2, cov=c, types=t)
        if case['op'] == 'call':
            S = hm.Series(ctx.array('v', n2), q, factor=g, index_set=s2)
            r = refused(lambda: A(S))
        else:
            B = hm.Varf(mk(st, pattern(ctx, 'b', n2)), q, factor=g, index_set=s2)
            r = refused(lambda: A + B if case['op'] == 'add' else A - B)
        if w == 'same': ctx.true(not r, 'operands that match were refused')
        elif w in ('mean', 'var'):
            if not r: ctx.eq(m2 if w == 'mean' else sg2, m if w == 'mean' else sg, 'accepted operands whose %s differ' % w, tol=1e-4)
        else: ctx.true(r, 'operands with another %s were accepted' % w.rstrip('02'))
        return
    if k == 'project':
        dirs, keep, s, deg, st = (case[x] for x in ('dirs', 'keep', 's', 'deg', 'st'))
        types = [H if d % 2 == 0 else F for d in dirs]
        L = listing(core, s, len(dirs), deg); P = pos(L)
        f = fac(dirs); p, m, sg = position(ctx, 'p', dirs, types)
        a = pattern(ctx, 'a', len(L), keep=PATS[st])
        A = hm.Varf(mk(st, a), p, factor=f, index_set=s)
        ix = [dirs.index(d) for d in keep]
        r = A.project(keep if len(keep) > 1 or deg % 2 else keep[0])
        I = []
        for q in listing(core, s, len(keep), deg):
            u = [0] * len(dirs)
            for j, x in zip(ix, q): u[j] = x
            I.append(P.get(tuple(u)))
        ref = np.zeros((len(I), len(I)))
        for i, x in enumerate(I):
            for j, y in enumerate(I):
                if x is not None and y is not None: ref[i, j] = a[x, y]
        ctx.eq(r.matrix, ref, 'projection')
        meta(ctx, r, keep, [m[j] for j in ix], [sg[j] for j in ix], [types[j] for j in ix], fac(keep), s, 'projection')
        return
    if k == 'cross':
        dim, d, dirs, st = case['dim'], case['deg'], case['dirs'], case['st']
        big = d + dim - 1 + case['extra']
        L = listing(core, 'triangle', dim, big); P = pos(L)
        a = pattern(ctx, 'a', len(L), keep=PATS[st]); p, m, sg = position(ctx, 'p', dirs)
        A = hm.Varf(mk(st, a), p, factor=fac(dirs))
        r = A.to_cross(d)
        ix = [P[q] for q in listing(core, 'cross', dim, d)]
        ref = np.zeros((len(ix), len(ix)))
        for i, x in enumerate(ix):
            for j, y in enumerate(ix): ref[i, j] = a[x, y]
        ctx.eq(r.matrix, ref, 'restriction to the cross')
        meta(ctx, r, dirs, m, sg, None, fac(dirs), 'cross', 'restriction to the cross')
        if dim > 1: ctx.raises(lambda: A.to_cross(big), 'a cross that the triangle does not contain')
        return
    if k == 'tensor':
        g, s, deg, st, sp = (case[x] for x in ('g', 's', 'deg', 'st', 'sparse'))
        al = sorted(d for x in g for d in x); dim = len(al)
        T = {d: (H if d != 1 else F) for d in al}
        _, m, sg = position(ctx, 'p', al)
        V, mats = [], []
        for i, x in enumerate(g):
            c = np.zeros((len(x), len(x)))
            for j, d in enumerate(x): c[j, j] = sg[d] * sg[d]
            p = hm.Position(dirs=list(x), mean=np.array([m[d] for d in x]), cov=c, types=[T[d] for d in x])
            a = pattern(ctx, 'a%d' % i, len(listing(core, s, len(x), deg)), keep=(lambda i, j: j - i in (0, 1, -2)) if dim > 2 else PATS[st])
            mats.append(a); V.append(hm.Varf(mk(st, a), p, factor=fac(x), index_set=s))
        r = hm.Varf.tensorize(V, sparse=sp)
        ref = sp_tensor_mat(core, g, mats, s, dim, deg)
        ctx.eq(r.matrix, ref, 'tensor product'); storage(r, sp, 'tensor product')
        meta(ctx, r, al, m, sg, [T[d] for d in al], fac(al), s, 'tensor product')
        if len(V) == 2:
            r = V[0] * V[1]
            ctx.eq(r.matrix, ref, 'product of operators')
            meta(ctx, r, al, m, sg, [T[d] for d in al], fac(al), s, 'product of operators')
        return
    if k == 'badtensor':
        w = case['what']
        P = [position(ctx, 'p%d' % d, [d])[0] for d in range(2)]
        A = hm.Varf(pattern(ctx, 'a', 3), P[0], factor=fac([0]))
        if w == 'one':
            r = hm.Varf.tensorize([A])
            ctx.eq(r.matrix, A.matrix, 'tensor product of one operator'); check_factor(ctx, r.factor, fac([0]), [0], 'tensor product of one operator')
            return
        B = hm.Varf(pattern(ctx, 'b', 2 if w == 'degree' else 3), P[0 if w == 'shared' else 1], index_set='cube' if w == 'set' else 'triangle')
        ctx.true(refused(lambda: A * B), 'tensor product with another %s was accepted' % w)
        ctx.true(refused(lambda: hm.Varf.tensorize([A, B])), 'tensor product with another %s was accepted' % w)

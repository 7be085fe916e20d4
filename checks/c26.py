"""C26: positions keep mean, covariance and type with their direction."""
import itertools, math
import numpy as np
from common import *
NATIVE = []
OPT = {'paths': 12, 'timeout': 60}
H, F = 'hermite', 'fourier'
BOUNDS = {'directions': 'every subset of 5 directions, up to 4 at a time', 'means, standard deviations, evaluation point': 'symbolic', 'types': 'every mix of Hermite and Fourier up to dimension 3',
          'full covariance': 'five concrete matrices with symbolic mean', 'shared directions': 'symbolic difference in mean or variance'}
COV = [[[1.0, 0.4], [0.4, 2.0]], [[2.0, -0.3], [-0.3, 1.0]], [[1.5, .2, 0.], [.2, 1., -.4], [0., -.4, 2.]], [[.5, .1, .1], [.1, .6, .1], [.1, .1, .7]], [[1., 0., .3], [0., 2., 0.], [.3, 0., 1.5]]]
def cases(tier):
    out = []
    for dirs in ([0], [2], [0, 1], [1, 3], [0, 2, 4], [0, 1, 2], [1, 2, 3, 4]):
        for t in (itertools.product((H, F), repeat=len(dirs)) if len(dirs) < 4 else [(H, F, F, H), (H,) * 4]):
            for r in range(1, len(dirs) + 1):
                for k in itertools.combinations(dirs, r): out.append({'kind': 'project', 'dirs': dirs, 'types': list(t), 'keep': list(k)})
            out.append({'kind': 'weight', 'dirs': dirs, 'types': list(t)})
    subs = [list(c) for r in (1, 2, 3) for c in itertools.combinations(range(4), r)]
    for a in subs:
        for b in subs:
            out.append({'kind': 'tensor', 'g': [a, b]})
            if set(a) & set(b):
                for d in sorted(set(a) & set(b))[:2]:
                    for w in ('mean', 'var'): out.append({'kind': 'shared', 'a': a, 'b': b, 'd': d, 'what': w})
    for g in ([[0], [1], [2]], [[2], [0], [1]], [[3], [1, 2], [0]], [[1, 4], [0], [2, 3]], [[0, 1], [1, 2], [3]], [[0, 1], [2], [1, 2]], [[4], [3], [2], [0]]): out.append({'kind': 'tensor', 'g': g})
    for i in range(len(COV)): out.append({'kind': 'full', 'cov': COV[i], 'dirs': [0, 1, 2][:len(COV[i])] if i % 2 else [1, 2, 4][:len(COV[i])]})
    for w in ('defaults', 'bad', 'repeat'): out.append({'kind': w})
    for w in ('mean', 'var', 'types', 'dirs', 'same'): out.append({'kind': 'eq', 'what': w})
    return out
def density(m, s, x, types):
    r = np.float64(1.0)
    for mi, si, xi, t in zip(m, s, x, types):
        if t == H: r = r * (np.exp(-(xi - mi) * (xi - mi) / (2 * si * si)) / (si * math.sqrt(2 * math.pi)))
    return r
def run(ctx, case):
    import hermipy as hm
    k = case['kind']
    pt = {d: ctx.var('x%d' % d, -1.5, 1.5) for d in range(5)}
    if k == 'project':
        dirs, types, keep = case['dirs'], case['types'], case['keep']
        p, m, s = position(ctx, 'p', dirs, types)
        ix = [dirs.index(d) for d in keep]
        q = p.project(list(keep) if len(keep) > 1 or len(dirs) % 2 else keep[0])
        check_position(ctx, q, keep, [m[i] for i in ix], [s[i] for i in ix], [types[i] for i in ix], 'projection')
        ctx.eq(q.factor, np.diag([s[i] for i in ix]), 'square root of the covariance')
        check_position(ctx, p, dirs, m, s, types, 'operand unchanged')
        if len(keep) > 1: ctx.raises(lambda: p.project(list(keep)[::-1]), 'projection on directions out of order')
    elif k == 'weight':
        dirs, types = case['dirs'], case['types']
        p, m, s = position(ctx, 'p', dirs, types)
        ref = density(m, s, [pt[d] for d in dirs], types)
        ctx.eq(evalf(p.weight(), pt), ref, 'weight')
        ws = p.weights()
        ctx.true(len(ws) == len(dirs), 'number of weights')
        r = np.float64(1.0)
        for i, w in enumerate(ws):
            v = evalf(w, {dirs[i]: pt[dirs[i]]})
            ctx.eq(v, density(m[i:i + 1], s[i:i + 1], [pt[dirs[i]]], types[i:i + 1]), 'weight of direction %d' % dirs[i])
            r = r * v
        ctx.eq(r, ref, 'product of the weights')
    elif k == 'tensor':
        g = case['g']; al = sorted({d for x in g for d in x})
        T = {d: (F if d in (1, 3) else H) for d in al}
        _, m, s = position(ctx, 'p', al)
        M, S = dict(zip(al, m)), dict(zip(al, s))
        ps = []
        for x in g:
            c = np.zeros((len(x), len(x)))
            for i, d in enumerate(x): c[i, i] = S[d] * S[d]
            ps.append(hm.Position(dirs=list(x), mean=np.array([M[d] for d in x]), cov=c, types=[T[d] for d in x]))
        free = set()
        for x in g: free ^= set(x)
        free = sorted(free)
        for w, r in (('tensorize', lambda: hm.Position.tensorize(ps)), ('product', lambda: ps[0] * ps[1])):
            if w == 'product' and len(g) > 2: continue
            r = r()
            if free:
                check_position(ctx, r, free, [M[d] for d in free], [S[d] for d in free], [T[d] for d in free], w)
                ctx.eq(r.factor, np.diag([S[d] for d in free]), 'square root of the covariance')
                ctx.true(bool(r.is_diag), 'diagonal')
            else: ctx.true(list(r.dirs) == [] and r.dim == 0, w + ': every direction cancels')
        for x, p in zip(g, ps): check_position(ctx, p, x, [M[d] for d in x], [S[d] for d in x], [T[d] for d in x], 'operand unchanged')
    elif k == 'shared':
        a, b, d = case['a'], case['b'], case['d']
        al = sorted(set(a) | set(b))
        _, m, s = position(ctx, 'p', al)
        o = ctx.var('other', -1., 1.) if case['what'] == 'mean' else ctx.var('other', .5, 2.)
        def mk(x, chg):
            mm = [o if chg and e == d and case['what'] == 'mean' else m[al.index(e)] for e in x]
            sg = [o if chg and e == d and case['what'] == 'var' else s[al.index(e)] for e in x]
            c = np.zeros((len(x), len(x)))
            for i in range(len(x)): c[i, i] = sg[i] * sg[i]
            return hm.Position(dirs=list(x), mean=np.array(mm), cov=c)
        p, q = mk(a, False), mk(b, True)
        old = (m if case['what'] == 'mean' else s)[al.index(d)]
        for w, fn in (('tensorize', lambda: hm.Position.tensorize([p, q])), ('product', lambda: q * p)):
            if not refused(fn): ctx.eq(o, old, '%s accepted a shared direction with another %s' % (w, case['what']), tol=1e-4)
    elif k == 'full':
        dirs, C = case['dirs'], np.array(case['cov']); n = len(dirs)
        m = ctx.array('mu', n)
        p = hm.Position(dirs=list(dirs), mean=m, cov=C)
        inv = np.linalg.inv(C)
        x = [pt[d] for d in dirs]
        e = ssum((x[i] - m[i]) * float(inv[i, j]) * (x[j] - m[j]) for i in range(n) for j in range(n))
        ref = np.exp(e * -.5) / math.sqrt((2 * math.pi) ** n * float(np.linalg.det(C)))
        ctx.eq(evalf(p.weight(), pt), ref, 'weight with full covariance')
        ctx.true(not p.is_diag, 'full covariance taken for a diagonal one')
        A = np.asarray(p.factor, float)
        ctx.eq(A.dot(A.T), C, 'factor of the covariance')
        ctx.raises(lambda: p.project([dirs[0]]), 'projection of a full covariance')
        ctx.raises(lambda: p.weights(), 'per-direction weights of a full covariance')
        ctx.raises(lambda: hm.Position.tensorize([p, hm.Position(dirs=[3])]), 'tensorisation of a full covariance')
    elif k == 'defaults':
        m, s = ctx.array('mu', 3), ctx.array('sg', 3, .5, 2.)
        c = np.zeros((3, 3))
        for i in range(3): c[i, i] = s[i] * s[i]
        one = np.ones(3)
        for w, p, d, mm, ss_, t in (('mean only', hm.Position(mean=m), [0, 1, 2], m, one, None), ('covariance only', hm.Position(cov=c), [0, 1, 2], 0 * one, s, None),
                                    ('dimension only', hm.Position(dim=3), [0, 1, 2], 0 * one, one, None), ('directions only', hm.Position(dirs=[1, 2, 4]), [1, 2, 4], 0 * one, one, None),
                                    ('types', hm.Position(dim=2, types=[F, H]), [0, 1], 0 * one, one, [F, H]), ('mean and covariance', hm.Position(mean=m, cov=c), [0, 1, 2], m, s, None),
                                    ('directions and mean', hm.Position(dirs=[0, 3, 4], mean=m), [0, 3, 4], m, one, None), ('lists', hm.Position(dim=3, mean=list(m), cov=[list(r) for r in c]), [0, 1, 2], m, s, None)):
            check_position(ctx, p, d, mm, ss_, t, w)
    elif k == 'bad':
        for w, kw in (('mean', dict(dim=2, mean=[0.])), ('cov', dict(dim=2, cov=[[1.]])), ('dirs', dict(dirs=[0, 1], dim=3)), ('types', dict(dim=2, types=[H])), ('mean/dirs', dict(dirs=[0], mean=[0., 0.])), ('nothing', {})):
            ctx.raises(lambda: hm.Position(**kw), 'inconsistent arguments (%s)' % w)
    elif k == 'repeat':
        ps = [hm.Position(dirs=[d], mean=[0.]) for d in (0, 0, 0)]
        ctx.raises(lambda: hm.Position.tensorize(ps), 'a direction in three positions')
    elif k == 'eq':
        w = case['what']
        p, m, s = position(ctx, 'p', [0, 1], [H, F])
        m2, s2 = m.copy(), s.copy()
        if w == 'mean': m2[1] = ctx.var('other')
        if w == 'var': s2[0] = ctx.var('other', .5, 2.)
        c = np.zeros((2, 2))
        for i in range(2): c[i, i] = s2[i] * s2[i]
        q = hm.Position(dirs=[0, 1] if w != 'dirs' else [0, 2], mean=m2, cov=c, types=[F, H] if w == 'types' else [H, F])
        r = bool(p == q)
        if w in ('mean', 'var'):
            if r: ctx.eq([m2[1], s2[0]], [m[1], s[0]], 'positions taken for equal', tol=1e-4)
        else: ctx.true(r == (w == 'same'), 'comparison of positions (%s)' % w)

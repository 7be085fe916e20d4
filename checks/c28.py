"""C28: built-in equations conserve mass and annihilate their stationary states."""
import itertools
import numpy as np
from common import *
NATIVE = ['discretize, transform, varf (only for the explicit noise potential of the coloured McKean-Vlasov equation)']
OPT = {'paths': 4, 'timeout': 120}
BOUNDS = {'potentials': 'polynomials of degree up to 6 plus a cosine, all coefficients symbolic', 'parameters': 'symbolic (positive ones in [1/2, 2])', 'points': 'symbolic',
          'test functions': 'exponentials of symbolic quadratic polynomials', 'Gaussian solver': 'dimension 1 and 2, one or two parameters symbolic'}
def cases(tier):
    out = []
    for e in ('fp', 'mvw'):
        for pot in ('poly4', 'poly6', 'cos', 'quad'):
            for what in ('mass', 'stationary', 'form'): out.append({'kind': e, 'pot': pot, 'what': what})
    for e in ('mv', 'harm'):
        for pot in ('poly4', 'cos', 'quad'):
            for what in ('mass', 'stationary', 'form', 'fluxes'): out.append({'kind': e, 'pot': pot, 'what': what})
    for what in ('mass', 'stationary', 'form'): out.append({'kind': 'lf', 'what': what})
    for pot in ('poly4', 'poly6', 'cos', 'quad'):
        for e in ('over', 'lb', 'gl0', 'gl1', 'gl2'):
            for what in ('constant', 'gibbs', 'form'): out.append({'kind': e, 'pot': pot, 'what': what})
    out += [{'kind': 'mvnum', 'what': w, 'timeout': 200} for w in ('noise', 'stationary')]
    for n in ('ou1', 'ou1n', 'lang', 'ou2', 'ou2d', 'mv', 'ou3', 'harm'): out.append({'kind': 'gauss', 'op': n, 'timeout': 150})
    out.append({'kind': 'map'}); out.append({'kind': 'params'})
    return out
def sy(v):
    import sympy
    return sympy.sympify(v)
def potential(ctx, name, x, kind):
    import sympy
    n = {'poly4': 4, 'poly6': 6, 'quad': 2, 'cos': 2}[kind]
    c = ctx.array(name, n + 1)
    V = sum(sy(c[i]) * x ** i for i in range(1, n + 1))
    if kind == 'cos': V = V + sy(c[0]) * sympy.cos(x)
    return V
def adjoint_of_one(op, f, vs):
    """sum over m of (-1)^|m| d^m c_m, for the operator sum c_m d^m"""
    import sympy
    ks = sympy.symbols('k0:%d' % len(vs), real=True)
    e = sympy.exp(sum(k * v for k, v in zip(ks, vs)))
    s = sympy.expand(sympy.expand(op.subs(f, e).doit()) / e)
    s = sympy.Poly(sympy.expand(sympy.simplify(s)) if s.has(sympy.exp) else s, *ks)
    r = sympy.Integer(0)
    for m, c in s.terms():
        d = c
        for v, j in zip(vs, m):
            for _ in range(j): d = sympy.diff(d, v)
        r += (-1) ** sum(m) * d
    return r
def run(ctx, case):
    import sympy, hermipy as hm
    import hermipy.equations as eq
    D = sympy.diff
    k = case['kind']
    def point(vs): return {XS.index(str(v)): ctx.var('at_%s' % v, -1.5, 1.5) for v in vs}
    def val(e, vs): return evalf(sympy.sympify(e).doit(), point(vs))
    def pos_(n): return ctx.var(n, .5, 2.)
    def testf(vs):
        c = iter(ctx.array('t', 16, -.5, .5))
        q = sum(sy(next(c)) * v for v in vs) + sum(sy(next(c)) * a * b for a, b in itertools.combinations_with_replacement(vs, 2))
        return sympy.exp(q)
    if k in ('fp', 'mvw', 'mv', 'harm', 'lf'):
        w = case['what']
        b = pos_('beta'); β = sy(b)
        γ = sy(1.0) if w == 'stationary' else sy(pos_('gamma'))
        ε, θ, m = sy(pos_('eps')), sy(ctx.var('theta')), sy(ctx.var('m'))
        if k == 'fp':
            C = eq.Fokker_Planck_1d; vs = [C.x]; V = potential(ctx, 'V', C.x, case['pot'])
            op = C.equation({'β': β, 'Vp': V})
            st = sympy.exp(-β * V)
            ref = lambda u: D(D(V, C.x) * u, C.x) + D(u, C.x, 2) / β
        elif k == 'mvw':
            C = eq.McKean_Vlasov_white; vs = [C.x]; V = potential(ctx, 'V', C.x, case['pot'])
            op = C.equation({'β': β, 'Vp': V, 'θ': θ, 'm': m})
            W = V + θ * (C.x - m) ** 2 / 2
            st = sympy.exp(-β * W)
            ref = lambda u: D(D(W, C.x) * u, C.x) + D(u, C.x, 2) / β
        elif k == 'mv':
            # the noise potential stays an undefined function, the Gaussian case of the model
            C = eq.McKean_Vlasov; x, y = C.variables; vs = [x, y]; V = potential(ctx, 'V', x, case['pot'])
            Vy = C.params()['Vy']
            pr = {'β': β, 'Vp': V, 'θ': θ, 'm': m, 'γ': γ, 'ε': ε, 'Vy': Vy}
            op = C.equation(pr).subs(Vy, y * y / 2).doit()
            fl = [g.subs(Vy, y * y / 2).doit() for g in C.fluxes(pr)]
            W = V + θ * (x - m) ** 2 / 2
            st = sympy.exp(-β * W - y * y / 2)
            ref = lambda u: D(D(W, x) * u - (1 - γ) * y * u / ε / sympy.sqrt(β) + γ ** 2 / β * D(u, x), x) + D(y * u + D(u, y), y) / ε ** 2
        elif k == 'harm':
            C = eq.McKean_Vlasov_harmonic_noise; x, y, z = C.variables; vs = [x, y, z]; V = potential(ctx, 'V', x, case['pot'])
            pr = {'β': β, 'Vp': V, 'θ': θ, 'm': m, 'γ': γ, 'ε': ε}
            op = C.equation(pr); fl = C.fluxes(pr)
            W = V + θ * (x - m) ** 2 / 2
            st = sympy.exp(-β * W - y * y / 2 - z * z / 2)
            ref = lambda u: (D(D(W, x) * u - (1 - γ) * z * u / ε / sympy.sqrt(β) + γ ** 2 / β * D(u, x), x)
                             + (D(z * u + y * u + D(u, y), y) - D(y * u, z)) / ε ** 2)
        else:
            C = eq.Langevin; x, y = C.variables; vs = [x, y]; λ = sy(ctx.var('lambda', .1, 2.))
            op = C.forward(λ)
            st = sympy.exp(-(x * x + y * y) / 2)
            ref = lambda u: D(y * u, x) - D(x * u, y) + λ * D(x * u + D(u, x), x)
        f = C.f
        if w == 'mass':
            ctx.eq(val(adjoint_of_one(op, f, vs), vs), 0.0, 'integral of the operator')
        elif w == 'stationary':
            r = sympy.expand(sympy.expand(op.subs(f, st).doit()) / st)
            ctx.eq(val(r, vs), 0.0, 'operator at the stationary density', tol=1e-7)
        elif w == 'form':
            u = testf(vs)
            a = sympy.expand(op.subs(f, u).doit() / u); e = sympy.expand(ref(u).doit() / u)
            ctx.eq(val(a, vs), val(e, vs), 'operator at a test function')
        else:
            u = testf(vs)
            a = sympy.expand(op.subs(f, u).doit() / u)
            e = sympy.expand(-sum(D(g.subs(f, u).doit(), v) for g, v in zip(fl, vs)).doit() / u)
            ctx.eq(val(a, vs), val(e, vs), 'operator and divergence of the fluxes')
        return
    if k in ('over', 'lb', 'gl0', 'gl1', 'gl2'):
        β, γ = sy(pos_('beta')), sy(pos_('gamma'))
        if k == 'over':
            C = eq.Overdamped; vs = [C.x]; V = potential(ctx, 'V', C.x, case['pot'])
            op, f = C.backward({'β': β, 'V': V}), C.f
            E = V
            ref = lambda u: -D(V, C.x) * D(u, C.x) + D(u, C.x, 2) / β
        elif k == 'lb':
            C = eq.Langevin; p, q = C.variables; vs = [p, q]; V = potential(ctx, 'V', q, case['pot'])
            op, f = C.backward({'γ': γ, 'β': β, 'Vy': V}), C.f
            E = V + p * p / 2
            ref = lambda u: p * D(u, q) - D(V, q) * D(u, p) + γ * (-p * D(u, p) + D(u, p, 2) / β)
        else:
            C = eq.Generalized_Langevin; q, p, z, w = C.variables; V = potential(ctx, 'V', q, case['pot'])
            if k == 'gl0':
                vs = [q, p]; f = C.fL; op = C.backward({'γ': γ, 'β': β, 'Vx': V}); E = V + p * p / 2
                ref = lambda u: p * D(u, q) - D(V, q) * D(u, p) + γ * (-p * D(u, p) + D(u, p, 2) / β)
            elif k == 'gl1':
                vs = [q, p, z]; f = C.f1; λ, α = sy(ctx.var('lam', .2, 2.)), sy(ctx.var('alp', .2, 2.))
                op = C.backward({'β': β, 'Vx': V, 'λ': λ, 'α': α}); E = V + p * p / 2 + z * z / 2
                ref = lambda u: p * D(u, q) - D(V, q) * D(u, p) + λ * z * D(u, p) - λ * p * D(u, z) - α * z * D(u, z) + α / β * D(u, z, 2)
            else:
                vs = [q, p, z, w]; f = C.f2
                l = [sy(ctx.var('lam%d' % i, .2, 2.)) for i in (1, 2)]
                A = [[sy(ctx.var('A%d%d' % (i, j), 1.2, 2.) if i == j else ctx.var('A%d%d' % (i, j), -1., 1.)) for j in (1, 2)] for i in (1, 2)]
                op = C.backward({'β': β, 'Vx': V, 'λ1': l[0], 'λ2': l[1], 'A11': A[0][0], 'A12': A[0][1], 'A21': A[1][0], 'A22': A[1][1]})
                E = V + p * p / 2 + z * z / 2 + w * w / 2
                zz = (z, w)
                ref = lambda u: (p * D(u, q) - D(V, q) * D(u, p) + (l[0] * z + l[1] * w) * D(u, p) - p * (l[0] * D(u, z) + l[1] * D(u, w))
                                 - sum(A[i][j] * zz[j] * D(u, zz[i]) for i in (0, 1) for j in (0, 1)) + sum(A[i][j] / β * D(u, zz[i], zz[j]) for i in (0, 1) for j in (0, 1)))
        if case['what'] == 'constant':
            c = ctx.var('c')
            ctx.eq(val(op.subs(f, sy(c)).doit(), vs), 0.0, 'backward operator at a constant')
        elif case['what'] == 'form':
            u = testf(vs)
            ctx.eq(val(sympy.expand(op.subs(f, u).doit() / u), vs), val(sympy.expand(ref(u).doit() / u), vs), 'operator at a test function')
        else:
            # integral of exp(-beta E) L f vanishes for every f
            G = sympy.exp(-β * E)
            ks = sympy.symbols('k0:%d' % len(vs), real=True)
            e = sympy.exp(sum(a * v for a, v in zip(ks, vs)))
            s = sympy.Poly(sympy.expand(sympy.expand(op.subs(f, e).doit()) / e), *ks)
            r = sympy.Integer(0)
            for m, c in s.terms():
                d = c * G
                for v, j in zip(vs, m):
                    for _ in range(j): d = sympy.diff(d, v)
                r += (-1) ** sum(m) * sympy.expand(sympy.expand(d) / G)
            ctx.eq(val(r, vs), 0.0, 'density of the Gibbs measure under the adjoint', tol=1e-7)
        return
    if k == 'mvnum':
        # explicit noise potential: the strength is computed by the library itself
        C = eq.McKean_Vlasov; x, y = C.variables; vs = [x, y]
        β, θ, m, ε = sy(pos_('beta')), sy(ctx.var('theta')), sy(ctx.var('m')), sy(pos_('eps'))
        V = potential(ctx, 'V', x, 'poly4')
        γ = sy(1.0) if case['what'] == 'stationary' else sy(ctx.var('gam', .1, .9))
        Vy = y * y / 2 if case['what'] == 'noise' else y ** 4 / 4 - y ** 2 / 2
        op = C.equation({'β': β, 'Vp': V, 'θ': θ, 'm': m, 'γ': γ, 'ε': ε, 'Vy': Vy})
        W = V + θ * (x - m) ** 2 / 2
        if case['what'] == 'noise':
            u = testf(vs)
            e = D(D(W, x) * u - (1 - γ) * y * u / ε / sympy.sqrt(β) + γ ** 2 / β * D(u, x), x) + D(y * u + D(u, y), y) / ε ** 2
            ctx.eq(val(sympy.expand(op.subs(C.f, u).doit() / u), vs), val(sympy.expand(e.doit() / u), vs), 'operator with the Gaussian noise', tol=1e-5)
        else:
            st = sympy.exp(-β * W - Vy)
            ctx.eq(val(sympy.expand(sympy.expand(op.subs(C.f, st).doit()) / st), vs), 0.0, 'operator at the stationary density', tol=1e-7)
        return
    if k == 'gauss':
        x, y, z = sympy.symbols('x y z', real=True)
        n = case['op']
        R = sympy.Rational
        a, b = (sy(v) if ctx.symbolic else R(float(v)) for v in (pos_('a'), pos_('b')))
        if n in ('ou1', 'ou1n'):
            vs = [x]; f = sympy.Function('f')(x)
            op = D(a * x * f + b * D(f, x), x)
            if n == 'ou1n': op = op.expand()
        elif n == 'lang': vs = [x, y]; f = sympy.Function('f')(x, y); op = -x * D(f, y) + a * y * D(f, x) + R(1, 2) * D(x * f + D(f, x), x)
        elif n == 'ou2': vs = [x, y]; f = sympy.Function('f')(x, y); op = D(a * x * f + D(f, x), x) + D((y - x) * f + D(f, y), y)
        elif n == 'ou2d': vs = [x, y]; f = sympy.Function('f')(x, y); op = D(2 * x * f + D(f, x), x) + D((y + R(1, 2) * x) * f + b * D(f, y), y)
        elif n == 'mv':
            C = eq.McKean_Vlasov; x, y = C.variables; vs = [x, y]; f = C.f
            op = C.equation({'β': sympy.Integer(1), 'Vp': x * x / 2, 'Vy': C.params()['Vy'], 'θ': sympy.Integer(0), 'm': sympy.Integer(0), 'γ': R(1, 2), 'ε': R(1, 2)})
            op = op.subs(C.params()['Vy'], y * y / 2).doit()
        elif n == 'harm':
            C = eq.McKean_Vlasov_harmonic_noise; x, y, z = C.variables; vs = [x, y, z]; f = C.f
            op = C.equation({'β': sympy.Integer(1), 'Vp': x * x / 2, 'θ': sympy.Integer(0), 'm': sympy.Integer(0), 'γ': R(1, 2), 'ε': R(1, 2)})
        else:
            vs = [x, y, z]; f = sympy.Function('f')(x, y, z)
            op = D(a * x * f + D(f, x), x) + D(2 * y * f + b * D(f, y), y) + D(3 * z * f + D(f, z), z)
        s = eq.solve_gaussian(op, f, vs)
        # s = s(0) exp(-x.Hx/2); H read off the logarithm, then used as a number
        z0 = {w: 0 for w in vs}
        q = sum((a.args[0] if a.func is sympy.exp else sympy.log(a) for a in sympy.Mul.make_args(sympy.powsimp(s))), sympy.Integer(0))
        ctx.true(all(sympy.simplify(D(D(D(q, u), v), w)) == 0 for u in vs for v in vs for w in vs) and all(sympy.simplify(D(q, u).subs(z0)) == 0 for u in vs), 'Gaussian')
        H = [[val(-D(D(q, u), v).subs(z0), vs) for u in vs] for v in vs]
        g = sympy.exp(-sum(sy(H[i][j]) * vs[i] * vs[j] for i in range(len(vs)) for j in range(len(vs))) / 2)
        ctx.eq(val(sympy.expand(sympy.expand(op.subs(f, g).doit()) / g), vs), 0.0, 'operator at the Gaussian solution', tol=1e-6)
        s0 = val(s.subs(z0), vs)
        if len(vs) == 1: d = H[0][0]
        elif len(vs) == 2: d = H[0][0] * H[1][1] - H[0][1] * H[1][0]
        else: d = (H[0][0] * (H[1][1] * H[2][2] - H[1][2] * H[2][1]) - H[0][1] * (H[1][0] * H[2][2] - H[1][2] * H[2][0]) + H[0][2] * (H[1][0] * H[2][1] - H[1][1] * H[2][0]))
        ctx.eq(s0 * s0 * (2 * np.pi) ** len(vs), d, 'normalisation', tol=1e-6)
        ctx.true(ctx.value(s0) > 0, 'positive density')
        return
    if k == 'map':
        x, y = sympy.symbols('x y', real=True); f = sympy.Function('f')(x, y)
        c = [sy(v) for v in ctx.array('c', 4)]
        op = c[0] * D(f, x, y) + c[1] * x * D(f, x) + c[2] * y * f + c[3] * D(f, y, 2)
        F = sympy.exp(-sy(pos_('p')) * x * x - y * x)
        r = eq.map_operator(op, f, F)
        u = testf([x, y])
        ctx.eq(val(sympy.expand(r.subs(f, u).doit() / u), [x, y]), val(sympy.expand(sympy.expand((op.subs(f, F * u).doit()) / F) / u), [x, y]), 'conjugated operator')
        return
    if k == 'params':
        for C, n in ((eq.Fokker_Planck_1d, {'β', 'Vp'}), (eq.McKean_Vlasov_white, {'β', 'θ', 'm', 'Vp'}), (eq.McKean_Vlasov, {'β', 'γ', 'ε', 'θ', 'm', 'Vp', 'Vy'}),
                     (eq.McKean_Vlasov_harmonic_noise, {'β', 'γ', 'ε', 'θ', 'm', 'Vp'})):
            P = C.params(); ctx.true(set(P) == n, 'parameters of %s' % C.__name__)
            b = sy(pos_('beta'))
            V = potential(ctx, 'V', C.x, 'poly4')
            op = C.equation(P)                        # with undefined parameters, then substituted
            sub = {P['β']: b, P['Vp']: V}
            if C is eq.Fokker_Planck_1d:
                u = testf([C.x])
                ctx.eq(val(sympy.expand(op.subs(sub).doit().subs(C.f, u).doit() / u), [C.x]),
                       val(sympy.expand((D(D(V, C.x) * u, C.x) + D(u, C.x, 2) / b).doit() / u), [C.x]), 'symbolic parameters')
        ctx.true(set(eq.Generalized_Langevin.params(1)) == {'β', 'λ', 'α', 'Vx'}, 'parameters')
        ctx.true(set(eq.Generalized_Langevin.params(2)) == {'β', 'λ1', 'λ2', 'A11', 'A12', 'A21', 'A22', 'Vx'}, 'parameters')
        ctx.raises(lambda: eq.Generalized_Langevin.backward({'β': 1, 'Vx': eq.Generalized_Langevin.x}), 'friction missing')

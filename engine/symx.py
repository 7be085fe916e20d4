"""Bridge from the symbolic runtime's expression graph to the SMT solver.

Expressions are normalised to (Laurent) polynomials over atoms -- input
variables, uninterpreted function values, sin/cos/exp/inverse/sqrt atoms -- with
double coefficients and a rigorous bound on the rounding error of the
normalisation itself; z3 then decides, over all values of the atoms in their
stated boxes and under the path condition, whether an output can differ from its
specification by more than the tolerance."""
import ctypes, os, sys, time, math
from fractions import Fraction
import numpy as np
try:
    import z3
except ImportError:
    sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
    import z3

(OP_VAR, OP_ADD, OP_SUB, OP_MUL, OP_DIV, OP_NEG, OP_SQRT, OP_SIN, OP_COS, OP_EXP, OP_LOG, OP_POW, OP_UF, OP_SOLVE, OP_ABS) = range(15)
(P_EQ, P_NE, P_LT, P_LE, P_GT, P_GE, P_PIN, P_AXIOM) = range(8)
TAG = 0x7FFC
SOLVE_BOUND = 1e6      # box of the entries of a solution of a symbolic linear system
U = 2.0 ** -52

class Node(ctypes.Structure):
    _fields_ = [('op', ctypes.c_uint32), ('aux', ctypes.c_uint32), ('a', ctypes.c_uint64), ('b', ctypes.c_uint64), ('shadow', ctypes.c_double)]
class Cond(ctypes.Structure):
    _fields_ = [('a', ctypes.c_uint64), ('b', ctypes.c_uint64), ('pred', ctypes.c_int32), ('outcome', ctypes.c_int32)]

rt = None
def load_runtime(path):
    global rt
    rt = ctypes.CDLL(path, mode=ctypes.RTLD_GLOBAL)
    rt.symrt_n_nodes.restype = ctypes.c_uint64
    rt.symrt_n_conds.restype = ctypes.c_uint64
    rt.symrt_n_unsupported.restype = ctypes.c_uint64
    rt.symrt_unsupported.restype = ctypes.c_char_p
    rt.symrt_nodes.restype = ctypes.POINTER(Node)
    rt.symrt_conds.restype = ctypes.POINTER(Cond)
    rt.symrt_uf_name.restype = ctypes.c_char_p
    return rt

def tobits(x):
    a = np.empty(1); a[0] = x
    return int(a.view('u8')[0])
def frombits(u):
    a = np.empty(1, dtype='u8'); a[0] = u
    return a.view('f8')[0]
def is_sym_bits(u): return (u >> 48) == TAG

def new_var(i, shadow):
    d = ctypes.c_double()
    rt.symrt_var(ctypes.c_uint32(i), ctypes.c_double(shadow), ctypes.byref(d))
    return frombits(ctypes.c_uint64.from_buffer(d).value)

# ---------------------------------------------------------------- polynomials
class Poly:
    """t: {monomial: coefficient}; err: bound on the accumulated rounding error
    of the value over the box."""
    __slots__ = ('t', 'err', 'n1', 'rel')
    def __init__(self, t, err=0.0, rel=None):
        # rel: for a single monomial, a bound on the relative error (None: unknown)
        self.t = t; self.err = err; self.n1 = None; self.rel = 0.0 if rel is None and not err else rel
    def norm(self, A):
        if self.n1 is None:
            self.n1 = sum(abs(c) * A.mbound(m) for m, c in self.t.items())
        return self.n1

def pconst(c): return Poly({(): float(c)} if c else {})

class Unsupported(Exception):
    pass

class Atoms:
    def __init__(self):
        self.desc, self.index, self.lo, self.hi, self._mb = [], {}, [], [], {}
        self.z = []
    def get(self, key, lo, hi):
        i = self.index.get(key)
        if i is None:
            i = self.index[key] = len(self.desc)
            self.desc.append(key); self.lo.append(lo); self.hi.append(hi); self.z.append(None)
        return i
    def mbound(self, m):
        b = self._mb.get(m)
        if b is None:
            b = 1.0
            for a, e in m:
                if e > 0: b *= max(abs(self.lo[a]), abs(self.hi[a])) ** e
                else: b *= (1.0 / self.lo[a]) ** (-e) if self.lo[a] > 0 else (1.0 / -self.hi[a]) ** (-e) if self.hi[a] < 0 else float('inf')
            self._mb[m] = b
        return b

def mmul(m1, m2):
    if not m1: return m2
    if not m2: return m1
    d = dict(m1)
    for a, e in m2:
        n = d.get(a, 0) + e
        if n: d[a] = n
        else: d.pop(a)
    return tuple(sorted(d.items()))

class Norm:
    """normalises runtime nodes; one instance per executed path"""
    def __init__(self, variables):
        # variables: list of (name, lo, hi)
        self.A = Atoms()
        self.vars = variables
        self.n = rt.symrt_n_nodes()
        self.nodes = rt.symrt_nodes()
        self.memo = {}
        self.defs = {}          # atom -> defining data for the solver
        self.solver_axioms = []
        self.expc = {}

    # -- polynomial arithmetic
    def add(self, p, q, s=1.0):
        if not q.t and not q.err: return p
        if len(p.t) < len(q.t) and s == 1.0: p, q = q, p
        t = dict(p.t); e = p.err + q.err; mb = self.A.mbound
        for m, c in q.t.items():
            o = t.get(m)
            if o is None: t[m] = s * c
            else:
                r = o + s * c
                e += U * abs(r) * mb(m)
                if r: t[m] = r
                else: del t[m]
        return Poly(t, e)
    def mul(self, p, q):
        if not p.t: p, q = q, p
        if not q.t and not q.err: return q
        if len(q.t) > len(p.t): p, q = q, p
        np_, nq = p.norm(self.A), q.norm(self.A)
        e = p.err * nq + q.err * np_ + p.err * q.err
        if len(q.t) == 1:
            (m2, c2), = q.t.items()
            if len(p.t) == 1 and p.rel is not None and q.rel is not None:
                (m1, c1), = p.t.items()
                m, rel = mmul(m1, m2), (p.rel + q.rel + 2 * U) * 1.001
                if p.rel + q.rel < 1e-3: return Poly({m: c1 * c2}, rel * abs(c1 * c2) * self.A.mbound(m), rel)
            if c2 == 1.0:
                return Poly({mmul(m, m2): c for m, c in p.t.items()}, e) if m2 else Poly(dict(p.t), e)
            return Poly({(mmul(m, m2) if m2 else m): c * c2 for m, c in p.t.items()}, e + U * np_ * nq)
        t = {}
        if len(p.t) * len(q.t) > 400000: raise Unsupported('polynomial too large')
        for m1, c1 in p.t.items():
            for m2, c2 in q.t.items():
                m = mmul(m1, m2)
                t[m] = t.get(m, 0.0) + c1 * c2
        return Poly({m: c for m, c in t.items() if c}, e + 2 * U * np_ * nq * (1 + min(len(p.t), len(q.t))))
    def pkey(self, p):
        return tuple(sorted((m, float('%.9e' % c)) for m, c in p.t.items() if abs(c) > 1e-13))
    def inv(self, p):
        if len(p.t) == 1:
            (m, c), = p.t.items()
            ok = all(self.A.lo[a] > 0 or self.A.hi[a] < 0 or e < 0 for a, e in m)
            if ok or not m:
                mi = tuple((a, -e) for a, e in m)
                b = self.A.mbound(mi)
                if p.rel is not None and p.rel < 1e-3:
                    rel = (p.rel + 2 * U) * 1.002
                    return Poly({mi: 1.0 / c}, rel * abs(1 / c) * b, rel)
                return Poly({mi: 1.0 / c}, U * abs(1 / c) * b * 2 + p.err * (b / c) ** 2)
        lo, hi = self.interval(p)
        if lo > 0: l, h = 1 / hi, 1 / lo
        elif hi < 0: l, h = 1 / hi, 1 / lo
        else: l, h = -math.inf, math.inf
        a = self.A.get(('inv', self.pkey(p)), l, h)
        self.defs[a] = ('inv', p)
        return Poly({((a, 1),): 1.0}, 0.0)
    def interval(self, p):
        lo = hi = 0.0
        for m, c in p.t.items():
            l, h = self.minterval(m)
            l, h = sorted((c * l, c * h)) if math.isfinite(l) and math.isfinite(h) else (-math.inf, math.inf)
            lo += l; hi += h
        return lo - p.err, hi + p.err
    def minterval(self, m):
        l, h = 1.0, 1.0
        for a, e in m:
            al, ah = self.A.lo[a], self.A.hi[a]
            if e < 0:
                if al > 0 or ah < 0: al, ah, e = 1 / ah, 1 / al, -e
                else: return -math.inf, math.inf
            if e % 2 == 0:
                x = [abs(al) ** e, abs(ah) ** e]
                al, ah = (0.0 if al <= 0 <= ah else min(x)), max(x)
            else: al, ah = al ** e, ah ** e
            c = [l * al, l * ah, h * al, h * ah]
            if any(math.isnan(v) for v in c): return -math.inf, math.inf
            l, h = min(c), max(c)
        return l, h
    def sqrt(self, p):
        if len(p.t) == 1:
            (m, c), = p.t.items()
            if c > 0 and all(e % 2 == 0 and self.A.lo[a] >= 0 for a, e in m):
                return Poly({tuple((a, e // 2) for a, e in m): math.sqrt(c)}, U * math.sqrt(c) * self.A.mbound(m) ** .5)
        lo, hi = self.interval(p)
        a = self.A.get(('sqrt', self.pkey(p)), 0.0 if lo <= 0 else math.sqrt(lo), math.sqrt(hi) if hi > 0 and math.isfinite(hi) else math.inf)
        self.defs[a] = ('sqrt', p)
        return Poly({((a, 1),): 1.0})
    def abs(self, p):
        lo, hi = self.interval(p)
        if not p.t or lo >= 0: return p
        if hi <= 0 or next(iter(sorted(p.t.items())))[1] < 0:
            p = self.mul(p, pconst(-1.0)); lo, hi = -hi, -lo
            if lo >= 0: return p
        a = self.A.get(('abs', self.pkey(p)), 0.0, max(abs(lo), abs(hi)))
        self.defs[a] = ('abs', p)
        return Poly({((a, 1),): 1.0}, p.err)
    def expatom(self, m, c):
        l, h = self.minterval(m)
        l, h = sorted((c * l, c * h)) if math.isfinite(l) and math.isfinite(h) else (-700., 700.)
        # coefficients that agree to 12 digits are one atom (the difference goes into err)
        cs = self.expc.setdefault(m, [])
        for k in cs:
            if abs(k - c) <= 1e-12 * abs(c): c = k; break
        else: cs.append(c)
        return self.A.get(('exp', m, c), math.exp(max(l, -700)), math.exp(min(max(h, -700), 700)))
    def exp(self, p):
        """product of one atom exp(c m) per monomial"""
        k, mono, err = 1.0, [], p.err
        for m, c in p.t.items():
            if not m: k = math.exp(min(c, 700)); continue
            w = abs(c) * self.A.mbound(m)
            if w < 1e-14: err += w; continue
            err += 2e-12 * w
            mono.append((self.expatom(m, c), 1))
        mono = tuple(sorted(mono))
        return Poly({mono: k}, (err + 4 * U) * k * self.A.mbound(mono) if mono else 4 * U * k, (err + 4 * U) * 1.001 if err < 1e-3 else None)
    def trig(self, which, p):
        t = {m: c for m, c in p.t.items() if abs(c) > 1e-300}
        if len(t) == 1:
            (m, c), = t.items()
            k = round(c)
            if m and k != 0 and abs(c - k) < 1e-12 and abs(k) <= 40:
                ca = self.A.get(('cos', ((m, 1.0),)), -1.0, 1.0); sa = self.A.get(('sin', ((m, 1.0),)), -1.0, 1.0)
                C, S = Poly({((ca, 1),): 1.0}), Poly({((sa, 1),): 1.0})
                n = abs(k)
                ck, sk = C, S
                for _ in range(n - 1):
                    ck, sk = self.add(self.mul(ck, C), self.mul(sk, S), -1.0), self.add(self.mul(sk, C), self.mul(ck, S))
                    ck, sk = self.reduce(ck), self.reduce(sk)
                if which == 'cos': return ck
                return sk if k > 0 else self.mul(sk, pconst(-1.0))
        a = self.A.get((which, self.pkey(p)), -1.0, 1.0)
        return Poly({((a, 1),): 1.0})
    def reduce(self, p):
        """sin^2 -> 1 - cos^2; exp(a m) exp(b m) -> exp((a+b) m)"""
        A = self.A
        if any(A.desc[a][0] == 'exp' for m in p.t for a, e in m):
            t = {}; err = p.err
            for m, c in p.t.items():
                ex, rest = {}, []
                for a, e in m:
                    d = A.desc[a]
                    if d[0] == 'exp': ex[d[1]] = ex.get(d[1], 0.0) + e * d[2]
                    else: rest.append((a, e))
                if ex:
                    for q, v in ex.items():
                        if abs(v) * A.mbound(q) < 1e-12: err += abs(c) * A.mbound(m) * 1e-12
                        else: rest.append((self.expatom(q, v), 1))
                    err += (1e-12 + 2e-12 * sum(abs(v) * A.mbound(q) for q, v in ex.items())) * abs(c) * A.mbound(m)
                    m = tuple(sorted(rest))
                t[m] = t.get(m, 0.0) + c
            p = Poly({m: c for m, c in t.items() if c}, err)
        while True:
            hit = None
            for m in p.t:
                for a, e in m:
                    if e >= 2 and self.A.desc[a][0] == 'sin': hit = (m, a); break
                if hit: break
            if not hit: return p
            m, a = hit
            c = p.t[m]
            ca = self.A.get(('cos', self.A.desc[a][1]), -1.0, 1.0)
            m0 = mmul(m, ((a, -2),))
            t = dict(p.t); del t[m]
            q = self.add(Poly(t, p.err), Poly({m0: c}))
            p = self.add(q, Poly({mmul(m0, ((ca, 2),)): -c}))

    # -- nodes
    def of(self, x):
        """x: double, possibly symbolic"""
        return self.of_bits(tobits(x))
    def of_bits(self, u):
        if not is_sym_bits(u): 
            v = frombits(u)
            if not math.isfinite(v): raise Unsupported('non-finite value %r' % v)
            return pconst(v)
        idx = u & 0xFFFFFFFFFFFF
        memo = self.memo
        if idx in memo: return memo[idx]
        stack = [idx]
        nodes = self.nodes
        while stack:
            i = stack[-1]
            if i in memo: stack.pop(); continue
            nd = nodes[i]
            dep = []
            if nd.op not in (OP_VAR, OP_SOLVE):
                for w in ((nd.a, nd.b) if nd.op in (OP_ADD, OP_SUB, OP_MUL, OP_DIV, OP_POW) else (nd.a,)):
                    if is_sym_bits(w) and (w & 0xFFFFFFFFFFFF) not in memo: dep.append(w & 0xFFFFFFFFFFFF)
            if dep: stack.extend(dep); continue
            memo[i] = self.build(nd); stack.pop()
        return memo[idx]
    def build(self, nd):
        g = self.of_bits
        op = nd.op
        if op == OP_ADD: return self.add(g(nd.a), g(nd.b))
        if op == OP_SUB: return self.add(g(nd.a), g(nd.b), -1.0)
        if op == OP_MUL: return self.mul(g(nd.a), g(nd.b))
        if op == OP_NEG: return self.mul(g(nd.a), pconst(-1.0))
        if op == OP_VAR:
            name, lo, hi = self.vars[nd.aux]
            a = self.A.get(('var', nd.aux), lo, hi)
            return Poly({((a, 1),): 1.0})
        if op == OP_DIV:
            b = g(nd.b)
            if not b.t: raise Unsupported('division by zero')
            a = g(nd.a)
            # exact division when a is a multiple of b
            if len(b.t) > 1 and len(a.t) == len(b.t):
                k = next(iter(b.t)); r = a.t.get(k)
                if r is not None:
                    q = r / b.t[k]
                    if all(m in a.t and abs(a.t[m] - q * c) <= 1e-14 * abs(a.t[m]) for m, c in b.t.items()):
                        return pconst(q)
            return self.mul(a, self.inv(b))
        if op == OP_SQRT: return self.sqrt(g(nd.a))
        if op == OP_ABS: return self.abs(g(nd.a))
        if op in (OP_SIN, OP_COS): return self.trig('sin' if op == OP_SIN else 'cos', g(nd.a))
        if op == OP_EXP:
            return self.exp(g(nd.a))
        if op == OP_LOG:
            a = self.A.get(('log', self.pkey(g(nd.a))), -math.inf, math.inf); return Poly({((a, 1),): 1.0})
        if op == OP_UF:
            p = g(nd.a)
            a = self.A.get(('uf', nd.aux, self.pkey(p)), -1.0, 1.0)
            return Poly({((a, 1),): 1.0})
        if op == OP_SOLVE:
            a = self.A.get(('solve', nd.aux), -SOLVE_BOUND, SOLVE_BOUND); return Poly({((a, 1),): 1.0})
        if op == OP_POW:
            a = self.A.get(('pow', self.pkey(g(nd.a)), self.pkey(g(nd.b))), -math.inf, math.inf); return Poly({((a, 1),): 1.0})
        raise Unsupported('op %d' % op)

    # -- z3
    def zatom(self, a):
        z = self.A.z[a]
        if z is None:
            d = self.A.desc[a]
            nm = self.vars[d[1]][0] if d[0] == 'var' else '%s!%d' % (d[0], a)
            z = self.A.z[a] = z3.Real(nm)
        return z
    def zpoly(self, p, used):
        terms = []
        for m, c in p.t.items():
            f = [z3.RealVal(str(Fraction(c)))]
            for a, e in m:
                used.add(a)
                z = self.zatom(a)
                if e > 0: f += [z] * e
                else: f += [1 / z] * (-e)
            terms.append(f[0] if len(f) == 1 else z3.Product(*f) if len(f) > 2 else f[0] * f[1])
        return z3.Sum(*terms) if len(terms) > 1 else terms[0] if terms else z3.RealVal(0)
    def zdefs(self, used):
        """box constraints and definitions of all used atoms (transitively)"""
        out, done = [], set()
        while used - done:
            a = next(iter(used - done)); done.add(a)
            z = self.zatom(a)
            if math.isfinite(self.A.lo[a]): out.append(z >= z3.RealVal(str(Fraction(self.A.lo[a]))))
            if math.isfinite(self.A.hi[a]): out.append(z <= z3.RealVal(str(Fraction(self.A.hi[a]))))
            d = self.defs.get(a)
            if d and d[0] == 'inv': out.append(z * self.zpoly(d[1], used) == 1)
            if d and d[0] == 'sqrt': out += [z * z == self.zpoly(d[1], used), z >= 0]
            if d and d[0] == 'abs':
                q = self.zpoly(d[1], used); out.append(z == z3.If(q >= 0, q, -q))
            k = self.A.desc[a]
            if k[0] in ('sin', 'cos'):
                o = self.A.index.get(('cos' if k[0] == 'sin' else 'sin', k[1]))
                if o is not None:
                    used.add(o); out.append(z * z + self.zatom(o) * self.zatom(o) == 1)
        return out

def conds():
    n = rt.symrt_n_conds(); cs = rt.symrt_conds()
    seen, out = set(), []
    for i in range(n):
        k = (cs[i].a, cs[i].b, cs[i].pred, cs[i].outcome)
        if k in seen: continue
        seen.add(k); out.append(k)
    return out

_Z = {P_EQ: lambda a, b: a == b, P_NE: lambda a, b: a != b, P_LT: lambda a, b: a < b,
      P_LE: lambda a, b: a <= b, P_GT: lambda a, b: a > b, P_GE: lambda a, b: a >= b}

def zval(m, z):
    v = m.eval(z, model_completion=True)
    if z3.is_algebraic_value(v): v = v.approx(30)
    try: return float(Fraction(v.numerator_as_long(), v.denominator_as_long()))
    except Exception: return None

def shadow(x):
    u = tobits(x)
    return rt_nodes_shadow(u) if is_sym_bits(u) else float(x)
def rt_nodes_shadow(u):
    return rt.symrt_nodes()[u & 0xFFFFFFFFFFFF].shadow
def rv(c):
    return z3.RealVal(str(Fraction(c)))

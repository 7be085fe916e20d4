"""Execution contexts of check cases.

A case function is written once, as  run(ctx, case):  it asks ctx for inputs,
calls the real code, computes the specification independently and states
obligations (ctx.eq, ctx.true, ctx.raises).  Under the symbolic context every
input is a solver variable, under the concrete one a number (replay)."""
import sys, os, json, time, random, math, traceback, signal, ctypes
from fractions import Fraction
import numpy as np

class Infeasible(Exception):
    pass
class Abort(Exception):
    """an obligation is already known to fail; the rest of the case is skipped"""
class CaseTimeout(BaseException):
    pass

def _dense(x):
    if hasattr(x, 'todense'): x = x.toarray() if not sparse_has_sym(x) else sparse_to_dense(x)
    return np.asarray(x, dtype=float)

def sparse_has_sym(x):
    return True

def sparse_to_dense(x):
    c = x.tocsr() if x.format != 'csr' else x
    out = np.zeros(c.shape)
    for i in range(c.shape[0]):
        for k in range(c.indptr[i], c.indptr[i + 1]):
            j = c.indices[k]
            out[i, j] = out[i, j] + c.data[k]
    return out

class Base:
    symbolic = False
    def __init__(self, seed, inputs, salt=0):
        self.seed, self.inputs, self.salt = seed, dict(inputs), salt
        self.used = {}
        self.obl = []            # (what, actual, expected, tol)
        self.fails = []          # obligations that failed outright
        self.n_true = 0
        self.notes = {}
    def _val(self, name, lo, hi):
        v = self.inputs.get(name)
        if v is None:
            r = random.Random('%d:%d:%s' % (self.seed, self.salt, name))
            v = lo + (hi - lo) * (0.02 + 0.96 * r.random())
            if self.salt >= 3 and r.random() < .3: v = lo if r.random() < .5 else hi
        v = min(max(float(v), lo), hi)
        self.used[name] = v
        return v
    scale = 1.0
    def array(self, name, shape, lo=-1.0, hi=1.0):
        shape = (shape,) if isinstance(shape, int) else tuple(shape)
        a = np.empty(shape)
        for ix in np.ndindex(*shape):
            a[ix] = self.var(name + ''.join('_%d' % i for i in ix), lo, hi)
        return a
    def choose(self, name, n):
        return int(self.inputs.get(name, 0))
    def eq(self, actual, expected, what='', tol=1e-8):
        try: A, E = _dense(actual), _dense(expected)
        except (TypeError, ValueError) as e:
            return self.fail('%s: result has the wrong kind (%s)' % (what, type(actual).__name__))
        if A.shape != E.shape:
            return self.fail('%s: shape %s instead of %s' % (what, A.shape, E.shape))
        self.obl.append((what, A.ravel(), E.ravel(), tol))
    def true(self, cond, what=''):
        self.n_true += 1
        if not cond: self.fail(what)
    def fail(self, what):
        self.fails.append(what)
    def raises(self, fn, what='', exc=Exception):
        self.n_true += 1
        try: fn()
        except exc: return
        except Exception as e:
            return self.fail('%s: raised %r instead' % (what, e))
        self.fail('%s: no error was raised' % what)
    def assume(self, c):
        if not c: raise Infeasible()
    def note(self, **kw): self.notes.update(kw)

class Concrete(Base):
    def var(self, name, lo=-1.0, hi=1.0):
        return np.float64(self._val(name, lo, hi))
    def value(self, x): return float(x)
    def verdict(self):
        worst = None
        for what, A, E, tol in self.obl:
            if A.size == 0: continue
            bad = ~np.isfinite(A) | ~np.isfinite(E)
            if bad.any():
                if not np.isfinite(E).all(): continue
                return '%s: non-finite result' % what
            scale = max(1.0, float(np.abs(E).max()))
            d = np.abs(A - E)
            k = int(d.argmax())
            if d[k] > 0.5 * tol * scale:
                return '%s: entry %d is %.17g, specification %.17g' % (what, k, A[k], E[k])
        return None

def run_concrete(mod, case, seed, inputs, salt=0):
    ctx = Concrete(seed, inputs, salt)
    def alarm(*a): raise CaseTimeout()
    signal.signal(signal.SIGALRM, alarm); signal.alarm(int(case.get('timeout', 60)) if isinstance(case, dict) else 60)
    try:
        try: mod.run(ctx, case)
        finally: signal.alarm(0)
    except Infeasible:
        return {'status': 'ok', 'infeasible': True, 'inputs': ctx.used}
    except Abort: pass
    except CaseTimeout:
        return {'status': 'bad', 'detail': 'did not terminate within the time limit', 'kind': 'timeout', 'inputs': ctx.used}
    except SystemExit as e:
        return {'status': 'bad', 'detail': 'exit', 'inputs': ctx.used}
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        return {'status': 'bad', 'detail': 'raised %s: %s' % (type(e).__name__, str(e)[:300]), 'kind': 'exception',
                'where': ['%s:%d %s' % (os.path.basename(f.filename), f.lineno, f.name) for f in tb][-6:], 'inputs': ctx.used}
    v = ctx.fails[0] if ctx.fails else ctx.verdict()
    return {'status': 'bad' if v else 'ok', 'detail': v, 'inputs': ctx.used, 'n': len(ctx.obl) + ctx.n_true}

def uf(name, x):
    """value of one of the functions that stand for arbitrary functions"""
    import sys
    X = sys.modules.get('symx')
    if X is not None and X.rt is not None:
        import ctypes
        f = getattr(X.rt, 'symfp_' + name); f.restype = ctypes.c_double; f.argtypes = [ctypes.c_double]
        return np.float64(f(x))
    return np.float64({'erf': math.erf, 'tgamma': math.gamma, 'atan': math.atan, 'asinh': math.asinh, 'lgamma': math.lgamma, 'tanh': math.tanh}[name](float(x)))

# ------------------------------------------------------------------ symbolic
def patch_sym():
    import pybridge
    pybridge.install()

class Symbolic(Base):
    symbolic = True
    def __init__(self, *a):
        super().__init__(*a)
        import symx
        self.X = symx
        self.vars = []; self.byname = {}
    def var(self, name, lo=-1.0, hi=1.0):
        if name in self.byname: return self.byname[name]
        s = self._val(name, lo, hi)
        i = len(self.vars)
        self.vars.append((name, lo, hi))
        v = self.X.new_var(i, s)
        self.byname[name] = v
        return v
    def value(self, x):
        return self.X.shadow(x)

def run_symbolic(mod, case, seed, opt, prof=None):
    import symx as X
    z3 = X.z3
    st = {'status': 'ok', 'paths': 0, 'queries': 0, 'unsat': 0, 'sat': 0, 'unknown': 0, 'solver_s': 0.0, 'obligations': 0,
          'vars': 0, 'conds': 0, 'nodes': 0, 'flips_open': 0, 'cands': [], 'terms': 0}
    max_paths = int(case.get('paths', opt.get('paths', 6)))
    tmax = float(case.get('timeout', opt.get('timeout', 60)))
    qt = int(1000 * float(opt.get('qtime', 20)))
    t_end = time.time() + tmax
    work = [({}, 0)]                    # (inputs, depth of conds already fixed)
    seen = set()
    def check(s, qt=qt):
        t0 = time.time()
        s.set('timeout', max(1000, min(qt, int(1000 * (t_end - time.time() + 5)))))
        r = s.check()
        st['queries'] += 1; st['solver_s'] += time.time() - t0
        st[str(r)] += 1
        return r
    def alarm(*a): raise CaseTimeout()
    signal.signal(signal.SIGALRM, alarm)
    while work and st['paths'] < max_paths and time.time() < t_end:
        inputs, bound = work.pop(0)
        X.rt.symrt_reset()
        ctypes.c_int.in_dll(X.rt, 'symrt_absatom').value = int(bool(opt.get('abs')))
        ctx = Symbolic(seed, inputs)
        signal.alarm(int(tmax))
        exc = None
        try:
            sys.setprofile(prof)
            try: mod.run(ctx, case)
            finally: sys.setprofile(None); signal.alarm(0)
        except Infeasible:
            continue
        except Abort: pass
        except CaseTimeout:
            st['cands'].append({'inputs': ctx.used, 'why': 'timeout during execution'}); st['paths'] += 1; continue
        except SystemExit:
            exc = 'exit'
        except Exception as e:
            exc = ''.join(traceback.format_exception(e))[-1500:]
        st['paths'] += 1
        st['vars'] = max(st['vars'], len(ctx.vars))
        st['nodes'] += X.rt.symrt_n_nodes()
        if ctx.notes: st.setdefault('notes', {}).update(ctx.notes)
        if exc is not None:
            st['cands'].append({'inputs': ctx.used, 'why': 'raised', 'detail': exc}); continue
        if ctx.fails:
            st['cands'].append({'inputs': ctx.used, 'why': ctx.fails[0]}); 
        nu = X.rt.symrt_n_unsupported()
        if nu:
            st['cands'].append({'inputs': ctx.used, 'why': 'unsupported: ' + X.rt.symrt_unsupported().decode(), 'weak': True})
        # -- normalise and build the path condition
        signal.alarm(int(tmax))
        try:
            N = X.Norm(ctx.vars)
            used = set()
            pc, flips = [], []
            cs = X.conds()
            st['conds'] += len(cs)
            zc = []
            for a, b, pred, outcome in cs:
                pa, pb = N.of_bits(a), N.of_bits(b)
                d = N.add(pa, pb, -1.0)
                if pred in (X.P_PIN, X.P_AXIOM):
                    zc.append((N.zpoly(d, used) == 0, False, 0, None)); continue
                l, h = N.interval(d)
                z = X._Z[pred](N.zpoly(d, used), 0)
                zc.append((z if outcome else z3.Not(z), True, d, z))
            obl = []
            for what, A, E, tol in ctx.obl:
                ps = [(N.of(x), N.of(y)) for x, y in zip(A, E)]
                scale = max([1.0] + [p.norm(N.A) for _, p in ps if p.norm(N.A) < 1e150])
                obl.append((what, ps, tol * scale))
        except X.Unsupported as e:
            st['cands'].append({'inputs': ctx.used, 'why': 'unsupported: %s' % e, 'weak': True}); continue
        except CaseTimeout:
            st['cands'].append({'inputs': ctx.used, 'why': 'normalisation timeout', 'weak': True}); continue
        finally:
            signal.alarm(0)
        pcz = [c[0] for c in zc]
        # -- vacuity witness: the path condition itself must be satisfiable
        if st['paths'] == 1 or pcz:
            s = z3.Solver(); s.add(N.zdefs(used)); s.add(pcz)
            r = check(s, min(qt, 2000))
            st['witness'] = st.get('witness', 0) + (r == z3.sat)
            if r == z3.unsat and st['paths'] > 1:
                st['rounding_paths'] = st.get('rounding_paths', 0) + 1      # taken by the rounded inputs only: no real inputs follow it
            elif r == z3.unsat:
                st['cands'].append({'inputs': ctx.used, 'why': 'unsupported: path condition unsatisfiable', 'weak': True})
        # -- obligations: first with every monomial a free real in its interval
        #    (linear, sound when unsat), then exactly
        res = []
        nontriv = nterms = 0
        for what, ps, tol in obl:
            for a, e in ps:
                st['obligations'] += 1
                r = N.reduce(N.add(a, e, -1.0))
                st['terms'] += len(a.t)
                if r.t: nterms += len(r.t)
                res.append((r, tol))
        lump = 1e-4 if nterms > 4000 else 1e-9
        lin, exact, mvars, defs = [], [], {}, []
        seen_r = set()
        k = 0
        used2 = set(used)
        unb = 0
        for r, tol in res:
            big, slack = {}, r.err
            for m, c in r.t.items():
                w = abs(c) * N.A.mbound(m)
                if w <= lump * tol: slack += w
                else: big[m] = c
            if not (math.isfinite(slack) and math.isfinite(tol) and all(math.isfinite(c) for c in big.values())): unb += 1; continue
            key = (tuple(sorted((m, float('%.6e' % c)) for m, c in big.items())), 0 if big else float('%.1e' % slack), tol)
            if key in seen_r: continue
            seen_r.add(key)
            e = z3.Real('noise!%d' % k); k += 1
            defs += [e <= X.rv(slack), e >= X.rv(-slack)]
            terms = [e]
            for m, c in big.items():
                mv = mvars.get(m)
                if mv is None:
                    mv = mvars[m] = z3.Real('mono!%d' % len(mvars))
                    l, h = N.minterval(m)
                    if math.isfinite(l): defs.append(mv >= X.rv(l))
                    if math.isfinite(h): defs.append(mv <= X.rv(h))
                terms.append(X.rv(c) * mv)
            zl = z3.Sum(*terms) if len(terms) > 1 else e
            lin += [zl > X.rv(tol), zl < X.rv(-tol)]
            if big: exact.append((big, slack, tol))
        if unb: st['cands'].append({'inputs': ctx.used, 'why': 'unsupported: %d unbounded terms' % unb, 'weak': True})
        st['nontrivial'] = st.get('nontrivial', 0) + len(exact)
        if lin:
            s = z3.Solver(); s.add(defs); s.add(z3.Or(lin))
            r = check(s)
            if r != z3.unsat:
                disj = []
                for n_, (big, slack, tol) in enumerate(exact):
                    e = z3.Real('xnoise!%d' % n_)
                    disj.append((N.zpoly(X.Poly(big), used2), tol, slack))
                s = z3.Solver(); s.add(N.zdefs(used2)); s.add(pcz)
                s.add(z3.Or([z > X.rv(max(t - sl, .1 * t)) for z, t, sl in disj] + [z < X.rv(-max(t - sl, .1 * t)) for z, t, sl in disj]
                            + ([True] if not disj else [])))
                r = check(s)
                if r == z3.sat:
                    m = s.model()
                    vals = {nm: X.zval(m, z3.Real(nm)) for nm, _, _ in ctx.vars}
                    st['cands'].append({'inputs': {k_: v for k_, v in vals.items() if v is not None}, 'why': 'solver model: output differs from specification'})
                elif r == z3.unknown:
                    st['cands'].append({'inputs': ctx.used, 'why': 'solver gave up on %d residues' % len(exact), 'weak': True})
        # -- flip branches
        sig = tuple((str(d.t), o) for (_, _, d, _), (_, _, _, o) in zip(zc, cs) if not isinstance(d, int))
        idx = [i for i, c in enumerate(zc) if c[1]]
        nflip = 0
        for i in idx:
            if st['paths'] + len(work) >= max_paths or time.time() > t_end:
                st['flips_open'] += 1; continue
            key = (i, pcz[i].hash(), tuple(z.hash() for z in pcz[:i]))
            key = tuple(z.hash() for z in pcz[:i]) + (z3.Not(pcz[i]).hash(),)
            if key in seen: continue
            seen.add(key)
            u3 = set(used)
            s = z3.Solver(); s.add(N.zdefs(u3)); s.add(pcz[:i]); s.add(z3.Not(pcz[i]))
            r = check(s)
            if r == z3.sat:
                m = s.model()
                vals = {nm: X.zval(m, z3.Real(nm)) for nm, _, _ in ctx.vars}
                work.append(({k_: v for k_, v in vals.items() if v is not None}, i + 1))
            nflip += 1
    st['flips_open'] += len(work)
    if time.time() >= t_end: st['timeout'] = True
    return st

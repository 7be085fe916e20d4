"""C27: the common coarsening of two partitions.

lib.finest_common is executed on proxies: each block of either partition is a bit-vector over the
directions, constrained only to form a partition with the others.  Comparisons, intersections,
inclusions, sizes and iterations of the proxies are decided by z3, forking where both answers are
possible (depth first, every feasible path).  At the end of each path z3 is asked for partitions on
that path for which the result is not the finest common coarsening, or the arguments were changed.
A model is replayed with frozensets."""
import sys, os, json, time, subprocess, itertools, traceback

class Unsupported(Exception): pass
class Budget(Exception): pass

def engine():
    import z3
    class E: pass
    e = E(); e.z3 = z3; e.queries = 0; e.solver_s = 0.0; e.unsat = e.sat = 0
    def check(*extra):
        t = time.time(); e.queries += 1
        r = e.s.check(*extra); e.solver_s += time.time() - t
        if r == z3.unknown: raise Unsupported('solver gave up')
        if r == z3.sat: e.sat += 1
        else: e.unsat += 1
        return r == z3.sat
    e.check = check
    def fork(c):
        """truth value of a condition on this path"""
        c = z3.simplify(c)
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        if e.pos < len(e.trail): v = e.trail[e.pos][0]
        else:
            t, f = check(c), check(z3.Not(c))
            v = t
            e.trail.append([v, t and f])
        e.pos += 1
        e.s.add(c if v else z3.Not(c))
        if e.pos > 4000: raise Budget
        return v
    e.fork = fork
    def bits(x):
        if isinstance(x, Blk): return x.b
        if isinstance(x, (set, frozenset, list, tuple, range)) or hasattr(x, '__iter__'):
            r = z3.BitVecVal(0, e.n)
            for i in x:
                if isinstance(i, Blk) or not isinstance(i, int): raise Unsupported('element %r' % (i,))
                r = r | z3.BitVecVal(1 << i, e.n)
            return r
        raise Unsupported('operand %r' % (x,))
    class Blk:
        """a frozenset of directions whose elements are not known; only the bit-vector counts"""
        def __init__(self, b): self.b = b
        def __hash__(self): return 7
        def __eq__(self, o):
            if self is o: return True
            if not isinstance(o, (set, frozenset, Blk)): return False
            return fork(self.b == bits(o))
        def __ne__(self, o): return not self.__eq__(o)
        def _op(f):
            def g(self, *os):
                r = self.b
                for o in os: r = f(r, bits(o))
                return Blk(z3.simplify(r))
            return g
        intersection = __and__ = __rand__ = _op(lambda a, b: a & b)
        union = __or__ = __ror__ = _op(lambda a, b: a | b)
        difference = __sub__ = _op(lambda a, b: a & ~b)
        symmetric_difference = __xor__ = __rxor__ = _op(lambda a, b: a ^ b)
        def __rsub__(self, o): return Blk(bits(o) & ~self.b)
        def copy(self): return self
        def issubset(self, o): return fork((self.b & ~bits(o)) == 0)
        def issuperset(self, o): return fork((bits(o) & ~self.b) == 0)
        __le__, __ge__ = issubset, issuperset
        def __lt__(self, o): return fork(z3.And((self.b & ~bits(o)) == 0, self.b != bits(o)))
        def __gt__(self, o): return fork(z3.And((bits(o) & ~self.b) == 0, self.b != bits(o)))
        def isdisjoint(self, o): return fork((self.b & bits(o)) == 0)
        def __bool__(self): return fork(self.b != 0)
        def __contains__(self, i): return isinstance(i, int) and 0 <= i < e.n and fork(z3.Extract(i, i, self.b) == 1)
        def __iter__(self): return iter([i for i in range(e.n) if i in self])
        def __len__(self): return len(list(iter(self)))
        def __repr__(self): return 'Blk'
        def __reduce__(self): raise Unsupported('pickled')
    e.Blk = Blk
    return e

def partition(z3, e, name, k, n):
    lab = [z3.BitVec('%s%d' % (name, d), 4) for d in range(n)]
    cons = [z3.ULT(l, k) for l in lab] + [z3.Or([l == i for l in lab]) for i in range(k)]
    blocks = []
    for i in range(k):
        b = z3.BitVec('%s_b%d' % (name, i), n)
        cons += [z3.Extract(d, d, b) == z3.If(lab[d] == i, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1)) for d in range(n)]
        blocks.append(b)
    return cons, blocks

def closure(z3, B1, B2, n):
    """the component of each block under overlap"""
    allb = B1 + B2
    comp = []
    for b in allb:
        c = b
        for _ in range(2 * min(len(B1), len(B2))):
            c2 = c
            for x in allb: c2 = c2 | z3.If((x & c) != 0, x, z3.BitVecVal(0, n))
            c = c2
        comp.append(c)
    return comp

def concrete_spec(p, q):
    blocks = [set(b) for b in list(p) + list(q)]
    out = []
    while blocks:
        b = blocks.pop()
        ch = True
        while ch:
            ch = False
            for x in list(blocks):
                if x & b: b |= x; blocks.remove(x); ch = True
        out.append(frozenset(b))
    return set(out)

def real_call(f, p, q):
    """p, q: lists of lists, in insertion order; None or what is wrong"""
    a, b = set(), set()
    for x in p: a.add(frozenset(x))
    for x in q: b.add(frozenset(x))
    a0, b0 = set(a), set(b)
    import signal
    def hang(*_): raise TimeoutError
    signal.signal(signal.SIGALRM, hang); signal.alarm(5)
    try: r = f(a, b)
    except TimeoutError: return 'no termination'
    except Exception as e: return 'raises %r' % (e,)
    finally: signal.alarm(0)
    if a != a0 or b != b0: return 'the arguments were changed'
    want = concrete_spec(p, q)
    try: got = sorted(sorted(x) for x in r)
    except Exception as e: return 'the result is not a collection of blocks: %r' % (r,)
    if got != sorted(sorted(x) for x in want): return 'result %s, finest common coarsening %s' % (got, sorted(sorted(x) for x in want))
    return None

def explore(f, case):
    """symbolic exploration of one case; dict of statistics and candidates"""
    e = engine(); z3 = e.z3; e.n = case['n']
    B1c, B1 = partition(z3, e, 'p', case['k1'], e.n)
    B2c, B2 = partition(z3, e, 'q', case['k2'], e.n)
    comp = closure(z3, B1, B2, e.n)
    out = {'paths': 0, 'cands': [], 'unsupported': None}
    e.trail = []
    deadline = time.time() + case['budget']
    def model():
        m = e.s.model(); val = lambda b: m.eval(b, model_completion=True).as_long()
        return [[[d for d in range(e.n) if val(b) >> d & 1] for b in B] for B in (B1, B2)]
    while True:
        e.s = z3.SolverFor('QF_FD'); e.s.set('timeout', 60000); e.s.add(B1c); e.s.add(B2c); e.pos = 0
        # two blocks of the same side differ: told to the proxies through the constraints
        try:
            a, b = set(), set()
            x1, x2 = [e.Blk(v) for v in B1], [e.Blk(v) for v in B2]
            for x in x1: a.add(x)
            for x in x2: b.add(x)
            try: r = f(a, b); err = None
            except (Unsupported, Budget): raise
            except Exception as ex: err = repr(ex)
            out['paths'] += 1
            bad = None
            if err: bad = 'raises ' + err
            elif {id(x) for x in a} != {id(x) for x in x1} or {id(x) for x in b} != {id(x) for x in x2}: bad = 'the arguments were changed'
            if bad:
                e.check(); out['cands'].append((model(), bad))
            else:
                R = []
                for x in r:
                    if isinstance(x, e.Blk): R.append(x.b)
                    elif isinstance(x, (set, frozenset)):
                        v = 0
                        for i in x: v |= 1 << i
                        R.append(z3.BitVecVal(v, e.n))
                    else: raise Unsupported('block %r' % (x,))
                good = [z3.Or([c == y for y in R]) for c in comp] + [z3.Or([c == y for c in comp]) for y in R] + [y != z for y, z in itertools.combinations(R, 2)]
                if e.check(z3.Not(z3.And(good))): out['cands'].append((model(), 'not the finest common coarsening'))
        except Unsupported as ex: out['unsupported'] = str(ex); break
        except Budget: e.check(); out['cands'].append((model(), 'no termination')); break
        except RecursionError: e.check(); out['cands'].append((model(), 'no termination')); break
        if out['cands'] and len(out['cands']) >= 3: break
        while e.trail and not e.trail[-1][1]: e.trail.pop()
        if not e.trail: break
        e.trail[-1] = [not e.trail[-1][0], False]
        if time.time() > deadline: out['unsupported'] = 'time'; break
    out.update(queries=e.queries, solver_s=e.solver_s, unsat=e.unsat, sat=e.sat)
    return out

def enumerate_models(f, case):
    """fallback when the code does something the proxies cannot follow: every model of the partition constraints"""
    e = engine(); z3 = e.z3; e.n = n = min(case['n'], 5)
    if case['k1'] > n or case['k2'] > n: return None, 0
    c1, B1 = partition(z3, e, 'p', case['k1'], n); c2, B2 = partition(z3, e, 'q', case['k2'], n)
    s = z3.Solver(); s.add(c1); s.add(c2)
    cnt = 0
    while s.check() == z3.sat and cnt < 4000:
        m = s.model(); cnt += 1
        vs = [[m.eval(b, model_completion=True).as_long() for b in B] for B in (B1, B2)]
        p, q = [[[d for d in range(n) if v >> d & 1] for v in V] for V in vs]
        w = real_call(f, p, q)
        if w: return (p, q, w), cnt
        s.add(z3.Or([b != v for B, V in zip((B1, B2), vs) for b, v in zip(B, V)]))
    return None, cnt

def worker():
    spec = json.load(sys.stdin)
    sys.path[:0] = [spec['native'], spec['repo']]
    sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
    sys.setrecursionlimit(2000)
    from hermipy import lib
    f = lib.finest_common
    res = []
    for case in spec['cases']:
        if 'p' in case: res.append({'real': real_call(f, case['p'], case['q'])}); continue
        try: o = explore(f, case)
        except Exception: o = {'paths': 0, 'cands': [], 'unsupported': traceback.format_exc()[-500:]}
        bad = None
        for (p, q), why in o['cands']:
            w = real_call(f, p, q)
            if w: bad = (p, q, w, why); break
        o['unconfirmed'] = bool(o['cands']) and not bad
        o['enumerated'] = 0
        if bad is None and (o['unsupported'] or o['unconfirmed']):
            r, o['enumerated'] = enumerate_models(f, case)
            if r: bad = (*r, 'model of the partition constraints, executed')
        o['bad'] = bad; o.pop('cands')
        res.append(o)
    json.dump(res, sys.stdout)

def all_cases(tier):
    out = []
    for k1 in range(1, 5):
        for k2 in range(1, 5):
            if tier == 'quick': ns = (5, 8) if k1 + k2 <= 5 else (5, 7) if k1 + k2 == 6 else (5,)
            else: ns = (5, 7, 9) if k1 + k2 <= 6 else (6, 7)
            for m in ns: out.append({'n': m, 'k1': k1, 'k2': k2, 'budget': 200 if tier == 'quick' else 1500})
    return out

def replay(run, f):
    import build
    run.plain()
    return call(run, build, [{'p': f['case']['p'], 'q': f['case']['q']}])[0]['real']

def main(tier):
    import harness, build
    run = harness.Run('C27', tier)
    try: return main_(run, tier, build)
    finally: run.cleanup()

def call(run, build, cases):
    env = dict(os.environ, HOME=run.scratch('h'), LD_PRELOAD=run.out + '/libredir.so', SYMRT_SCRATCH=run.scratch('h'), PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', MPLBACKEND='Agg')
    p = subprocess.run(['/usr/bin/python3', '-c', 'import sys; sys.path.insert(0, %r); import c27; c27.worker()' % os.path.dirname(os.path.abspath(__file__))],
                       input=json.dumps({'native': run.plain_native, 'repo': build.REPO, 'cases': cases}).encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, cwd=run.scratch('h'))
    if p.returncode: raise RuntimeError(p.stderr.decode()[-2000:])
    return json.loads(p.stdout.decode().splitlines()[-1])

def main_(run, tier, build):
    from concurrent.futures import ThreadPoolExecutor
    run.plain()
    cases = sorted(all_cases(tier), key=lambda c: -c['k1'] * c['k2'] * 100 - c['n'])
    with ThreadPoolExecutor(8) as ex: res = [r[0] for r in ex.map(lambda c: call(run, build, [c]), cases)]
    inc = []
    for c, r in zip(cases, res):
        if r['bad']:
            p, q, w, why = r['bad']
            run.report({'p': p, 'q': q}, {'detail': 'finest_common(%s, %s): %s' % (p, q, w), 'inputs': {}}, why)
        elif r['unsupported'] or r['unconfirmed']: inc.append({'case': c, 'why': r['unsupported'] or 'unconfirmed candidate', 'partitions_enumerated': r['enumerated']})
    S = lambda k: sum(r.get(k) or 0 for r in res)
    cov = {'explanation': 'Symbolic execution of lib.finest_common on partitions whose blocks are bit-vectors; every feasible path is followed and z3 decides on each whether some partitions give a wrong result.',
           'functions_encoded_python': ['lib.finest_common'], 'bounds': {'directions': sorted({c['n'] for c in cases}), 'blocks (first, second)': [(c['k1'], c['k2']) for c in cases]},
           'configurations': len(cases), 'configurations_executed': len(res), 'paths': S('paths'), 'queries': S('queries'), 'queries_unsat': S('unsat'), 'queries_sat': S('sat'), 'solver_s': round(S('solver_s'), 2),
           'inconclusive': inc, 'inconclusive_count': len(inc), 'samples': cases[:3]}
    return run.finish(cov, ['iteration order of a Python set of blocks is the insertion order; all orders are covered because the blocks themselves are symbolic'])

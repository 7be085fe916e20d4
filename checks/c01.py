"""C01: index sets are listed completely, once each, and counted correctly.

s_list and s_size of every set are executed symbolically with the degree as a symbolic variable: every
feasible path is followed.  For each path z3 is asked for a multi-index (symbolic) that is in the set but
not in the listing or the other way round, and for a degree on the path at which the size is another.
s_increment is also executed on a symbolic multi-index and a symbolic degree: it never leaves the set,
never returns to zero, and never takes two multi-indices to the same one."""
import time, os
from itsym import *

def cases(tier):
    T = tier != 'quick'
    out = []
    for s, tab in {'triangle': {1: (200, 400), 2: (40, 60), 3: (16, 22), 4: (9, 12), 5: (7, 8)}, 'cube': {1: (200, 400), 2: (22, 32), 3: (8, 11), 4: (5, 6), 5: (3, 4)},
                   'cross': {1: (100, 250), 2: (50, 90), 3: (22, 36), 4: (10, 16), 5: (6, 9)}, 'cross_nc': {1: (100, 250), 2: (24, 40), 3: (12, 18), 4: (7, 10), 5: (4, 6)},
                   'rectangle': {1: (100, 400), 2: (28, 40), 3: (14, 18), 4: (9, 11), 5: (6, 7)}}.items():
        for dim, D in tab.items(): out.append({'kind': 'list', 's': s, 'dim': dim, 'D': D[T], 'budget': 150 if not T else 1500})
    for s in ('triangle', 'cube', 'rectangle'):
        for dim, b in {1: (14, 20), 2: (8, 10), 3: (6, 7), 4: (4, 5), 5: (3, 4)}.items():
            out.append({'kind': 'step', 's': s, 'dim': dim, 'bits': b[T], 'budget': 150 if not T else 1500})
    return out

def work(case, code, tier):
    import z3, llsym
    s, dim = case['s'], case['dim']
    ex = llsym.Executor(code.m)
    out = {'cands': []}
    deadline = time.time() + case['budget']
    try:
        if case['kind'] == 'list':
            D = case['D']
            nb = max(4, (2 * D + 2).bit_length()); w = max(nb * (dim if s.startswith('cross') else 1) + 3, 12)
            d, paths = listings(ex, code, s, dim, D, deadline)
            for L, n in paths:
                ok = True
                if isinstance(L, str):
                    ex.check(); out['cands'].append({'degree': ex.s.model().eval(d, model_completion=True).as_long(), 'why': L}); continue
                if any(isinstance(x, llsym.Undef) for m in L for x in m) or isinstance(n, llsym.Undef): raise llsym.Unsupported('unknown value in the listing')
                m = [z3.BitVec('m%d' % i, nb) for i in range(dim)]
                me = [z3.ZeroExt(w - nb, x) for x in m]
                if all(isinstance(x, int) for l in L for x in l):
                    small = [l for l in L if all(x < (1 << nb) for x in l)]
                    M = z3.Concat(*m) if dim > 1 else m[0]
                    pack = lambda l: sum(x << (nb * (dim - 1 - i)) for i, x in enumerate(l))
                    listed = z3.Or([M == pack(l) for l in small]) if len(small) > 1 else M == pack(small[0])
                    if len(small) < len(L) or len(set(L)) < len(L) or any(L[0]): ok = False
                else:
                    listed = z3.Or([z3.And([z3.ZeroExt(32 - nb, x) == v for x, v in zip(m, l)]) for l in L])
                    if ex.check(z3.Or([z3.And([a == b for a, b in zip(p, q)]) for p, q in itertools.combinations(L, 2)] + [v != 0 for v in L[0]])): ok = False
                dd = z3.Extract(w - 1, 0, d) if w < 32 else z3.ZeroExt(w - 32, d) if w > 32 else d
                bad = z3.Or(z_inset(z3, s, me, dd, w) != listed, (z3.BitVecVal(n, 32) if isinstance(n, int) else n) != len(L))
                if not ok or ex.check(bad):
                    if not ok: ex.check()
                    out['cands'].append({'degree': ex.s.model().eval(d, model_completion=True).as_long(), 'why': 'listing and set differ'})
                if len(out['cands']) >= 3: break
        else: step(case, code, ex, out, deadline)
    except llsym.Unsupported as e: out['unsupported'] = str(e)[:500]
    out.update(stats(ex))
    return out

def step(case, code, ex, out, deadline):
    """s_increment on symbolic multi-indices"""
    import z3, llsym
    s, dim, b = case['s'], case['dim'], case['bits']
    f = code.fn(s, 's_increment', V + '&, unsigned int')
    d = z3.BitVec('d', 32)
    m = [z3.BitVec('m%d' % i, 32) for i in range(dim)]
    res = []
    def run(st):
        p = new_vec(ex, st, m)
        try: full = ex.call(st, f, [p, d])
        except (llsym.Throw, llsym.Exit, llsym.UB) as e: return None, str(e), None
        return full, get_vec(ex, st, p), list(ex.s.assertions())
    small = [z3.ULT(x, 1 << b) for x in m + [d]]
    inb = z_inset(z3, s, m, d, 32)
    for full, v, pc in ex.explore(run, small + [inb], deadline):
        if full is None: cex(ex, out, d, m, 'fails: ' + v); continue
        if full is llsym.UNDEF: raise llsym.Unsupported('unknown result')
        full = full != 0 if isinstance(full, int) else full if z3.is_bool(full) else full != 0
        v = [z3.BitVecVal(x, 32) if isinstance(x, int) else x for x in v]
        if ex.check(z3.And(z3.Not(full), z3.Or(z3.Not(z_inset(z3, s, v, d, 32)), z3.And([x == 0 for x in v]), *[z3.UGT(x, 1 << b) for x in v]))): cex(ex, out, d, m, 'the successor leaves the set')
        res.append((full, v, pc))
    if out['cands']: return
    # two different multi-indices never have the same successor, and only one is last
    m2 = [z3.BitVec('n%d' % i, 32) for i in range(dim)]
    sub = list(zip(m, m2))
    for i, (fa, va, pa) in enumerate(res):
        for fb, vb, pb in res[i:]:
            if time.time() > deadline: raise llsym.Unsupported('time')
            ex.s = z3.SolverFor('QF_BV'); ex.s.set('timeout', 60000); ex.s.add(pa); ex.s.add([z3.substitute(c, *sub) for c in pb])
            fb2 = z3.substitute(fb, *sub) if z3.is_expr(fb) else z3.BoolVal(fb)
            fa2 = fa if z3.is_expr(fa) else z3.BoolVal(fa)
            vb2 = [z3.substitute(x, *sub) for x in vb]
            if ex.check(z3.And(z3.Or([x != y for x, y in sub]), fa2 == fb2, z3.Or(fa2, z3.And([x == y for x, y in zip(va, vb2)])))):
                cex(ex, out, d, m, 'two multi-indices have the same successor')
                if len(out['cands']) >= 3: return
def cex(ex, out, d, m, why):
    if why.startswith('fails'): ex.check()
    M = ex.s.model(); ev = lambda x: M.eval(x, model_completion=True).as_long()
    out['cands'].append({'degree': ev(d), 'm': [ev(x) for x in m], 'why': why})

def main(tier):
    import harness
    TIER[0] = tier
    run = harness.Run('C01', tier)
    try: return main_(run, tier)
    finally: run.cleanup()
def main_(run, tier):
    run.plain()
    cs = cases(tier)
    code = Code(build_ir(run))
    res = pool(cs, lambda c: work(c, code, tier))
    inc = []
    for c, r in zip(cs, res):
        done = False
        for k in r.get('cands', []):
            dim, s = c['dim'], c['s']
            d = k['degree']
            while d > 1 and size(s, dim, d) > 300000: d -= 1
            j = {'kind': 'list', 's': s, 'dim': dim, 'degree': d}
            v = real(run, [j])[0]; bad = v.get('died') or v.get('bad')
            if bad: run.report(j, {'detail': '%s, dimension %d, degree %d: %s' % (s, dim, d, bad), 'inputs': {}}, k['why']); done = True; break
        if done: continue
        if r.get('cands'): inc.append({'case': c, 'why': 'not confirmed: ' + str(r['cands'][:1])})
        if r.get('unsupported') or r.get('cands'):
            if r.get('unsupported'): inc.append({'case': c, 'why': r['unsupported']})
            # the real code's listing of each degree instead, decided in the same way
            if c['kind'] == 'list':
                lo = 1 if c['s'].startswith('cross') else 0
                js = [{'kind': 'list', 's': c['s'], 'dim': c['dim'], 'degree': d} for d in range(lo, c['D'] + 1)]
                for j, v in zip(js, real(run, js)):
                    bad = v.get('died') or v.get('bad')
                    if bad: run.report(j, {'detail': '%s, dimension %d, degree %d: %s' % (j['s'], j['dim'], j['degree'], bad), 'inputs': {}}, 'execution'); break
    # closed forms are floating-point: every degree of the bisection range, on the real code
    js = [{'kind': 'size', 's': s, 'dim': dim, 'degree': d} for s in ('triangle', 'cube', 'rectangle') for dim in range(1, 6) for d in range(0, 251) if size(s, dim, d) < 2 ** 32]
    for j, v in zip(js, real(run, js)):
        want = size(j['s'], j['dim'], j['degree'])
        if v.get('died') or v['v'] != want: run.report(j, {'detail': '%s, dimension %d, degree %d: size %s, the set has %d elements' % (j['s'], j['dim'], j['degree'], v.get('died') or v['v'], want), 'inputs': {}}, 'execution'); break
    cov = coverage('Symbolic execution of the LLVM IR of the index-set code with a symbolic degree (listing, size) or a symbolic multi-index and degree (successor); z3 decides membership of a symbolic multi-index per path.',
                   {'listing: set, dimension, degrees up to': [(c['s'], c['dim'], c['D']) for c in cs if c['kind'] == 'list'], 'successor: set, dimension, entries below 2^': [(c['s'], c['dim'], c['bits']) for c in cs if c['kind'] == 'step']}, cs, res, inc,
                   {'sizes_compared_on_the_real_code': len(js)})
    if os.environ.get('VERIF_DEBUG'): print(cov['slowest'], cov['inconclusive'])
    return run.finish(cov, ASSUME)

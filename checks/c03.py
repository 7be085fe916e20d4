"""C03: the degree is recovered from the number of coefficients.

s_get_degree is executed on a symbolic number of coefficients.  Triangle, cube, rectangle, cross_nc: any
32-bit number; on every path the degree returned has that size, and a path that refuses is taken by no size.
Cross: the number is the size of a symbolic degree, and z3 is asked for a degree that is not returned."""
import time, os
from itsym import *

def cases(tier):
    T = tier != 'quick'
    out = [{'s': s, 'dim': dim, 'N': 2 ** 32 - 2, 'budget': 300 if not T else 1500} for s in ('triangle', 'cube', 'rectangle') for dim in range(1, 6)]
    out += [{'s': 'cross_nc', 'dim': 1, 'N': 2 ** 32 - 2, 'budget': 300 if not T else 1500}, {'s': 'cross_nc', 'dim': 2, 'N': size('cross_nc', 2, 24 if not T else 100), 'budget': 250 if not T else 2500}]
    out += [{'s': 'cross', 'dim': dim, 'N': None, 'budget': 250 if not T else 1500} for dim in ((1, 2) if not T else (1, 2, 3))]
    return sorted(out, key=lambda c: (c['s'] != 'cross_nc', c['s'] != 'cross', -c['dim']))

def work(case, code, tier):
    import z3, llsym
    s, dim, N = case['s'], case['dim'], case['N']
    ex = llsym.Executor(code.m, 400_000_000); ex.memo = {}
    if s == 'cross': ex.logic = 'QF_FD'
    out = {'cands': []}
    deadline = time.time() + case['budget']
    lo = 1 if s.startswith('cross') else 0
    sizes = {d: size(s, dim, d) for d in range(lo, 251)}
    sizes = {d: n for d, n in sizes.items() if n < 2 ** 32}
    n = z3.BitVec('n', 32); d = z3.BitVec('d', 32)
    f = None
    try:
        f = code.fn(s, 's_get_degree', 'unsigned int, unsigned int')
        def run(st):
            t0 = st.steps
            try: return 'value', ex.call(st, f, [dim, n])
            except llsym.Throw: return 'throw', None
            except (llsym.Exit, llsym.UB) as e: return 'fails', str(e)
        if N is None: pre = [z3.Or([z3.And(d == k, n == v) for k, v in sizes.items()])]
        else: pre = [z3.ULE(n, N)]
        def cex(why):
            out['cands'].append({'n': ex.s.model().eval(n, model_completion=True).as_long(), 'why': why})
        for kind, r in ex.explore(run, pre, deadline):
            if isinstance(r, llsym.Undef): raise llsym.Unsupported('unknown degree')
            if kind == 'fails': ex.check(); cex(r)
            elif kind == 'throw':
                if ex.check(z3.Or([n == v for v in sizes.values()])): cex('a size is refused')
            else:
                rv = z3.BitVecVal(r, 32) if isinstance(r, int) else r
                bad = z3.And([z3.Not(z3.And(rv == k, n == v)) for k, v in sizes.items()])
                if ex.check(bad): cex('the degree returned does not have this size')
            if len(out['cands']) >= 3: break
    except llsym.Unsupported as e: out['unsupported'] = str(e)[:500]
    out.update(stats(ex))
    return out

def verdict(s, dim, n, v):
    """what is wrong with the answer v of the real code, or None"""
    lo = 1 if s.startswith('cross') else 0
    ds = [d for d in range(lo, 251) if size(s, dim, d) == n]
    if isinstance(v, str):
        return '%d is the size of degree %d in dimension %d; asking for the degree %s' % (n, ds[0], dim, v) if ds else None
    if v in ds: return None
    if s == 'cross' and not ds: return None
    return '%d is the size of degree %s in dimension %d; %d is returned' % (n, ds[0] if ds else '(none)', dim, v)

def replay(run, f):
    run.plain(); c = f['case']
    v = real(run, [dict(c, kind='degree')], 60)[0]
    return v.get('died') or verdict(c['s'], c['dim'], c['n'], v['v'])

def main(tier):
    import harness
    TIER[0] = tier
    run = harness.Run('C03', tier)
    try: return main_(run, tier)
    finally: run.cleanup()
def main_(run, tier):
    run.plain()
    cs = cases(tier)
    code = Code(build_ir(run))
    res = pool(cs, lambda c: work(c, code, tier))
    inc, extra = [], 0
    def report(s, dim, n, v, why):
        if v.get('skipped'): return None
        bad = ('%s, %d coefficients in dimension %d: %s' % (s, n, dim, v['died'])) if v.get('died') else verdict(s, dim, n, v['v'])
        if bad: run.report({'s': s, 'dim': dim, 'n': n}, {'detail': s + ': ' + bad, 'inputs': {}}, why)
        return bad
    for c, r in zip(cs, res):
        s, dim = c['s'], c['dim']
        done = False
        for k in r.get('cands', []):
            if report(s, dim, k['n'], real(run, [{'kind': 'degree', 's': s, 'dim': dim, 'n': k['n']}], 60)[0], k['why']): done = True; break
        if done: continue
        if r.get('cands'): inc.append({'case': c, 'why': 'not confirmed: ' + str(r['cands'][:1])})
        elif r.get('unsupported'): inc.append({'case': c, 'why': r['unsupported']})
    # the same question to the real module at every size in reach, closed forms in floating point included
    reach = [(s, dim, d) for s in SETS for dim in range(1, 6) for d in range(1 if s.startswith('cross') else 0, 251)
             if size(s, dim, d) < 2 ** 32 and not (s == 'cross_nc' and (dim > 2 or dim == 2 and d > 60 and d % 20)) and not (s == 'cross' and (dim > 3 or dim == 3 and d % 40 != 10))]
    groups = [reach[k::8] for k in range(8)]
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(8) as ex_: vs = list(ex_.map(lambda g: real(run, [{'kind': 'degree', 's': s, 'dim': dim, 'n': size(s, dim, d)} for s, dim, d in g], 200), groups))
    seen = 0
    for g, v in zip(groups, vs):
        for (s, dim, d), x in zip(g, v):
            if seen < 4 and report(s, dim, size(s, dim, d), x, 'execution'): seen += 1
    cov = coverage('Symbolic execution of s_get_degree (with the bisection and the sizes) on a symbolic number of coefficients; z3 decides on every path whether an answer does not match the number.',
                   {'set, dimension, numbers up to (None: the sizes of degrees 1..250)': [(c['s'], c['dim'], c['N']) for c in cs]}, cs, res, inc, {'sizes_asked_of_the_real_module': len(reach)})
    if os.environ.get('VERIF_DEBUG'): print(cov['slowest'], cov['inconclusive'])
    return run.finish(cov, ASSUME + ['numbers up to 2^32 - 2', 'cross_nc in dimension 3 and more, cross in dimension 4 and more: outside (their sizes are computed by listing degree 250)'])

"""C02: the linear index of a multi-index is its position in the listing.

s_index and s_increment are executed on a symbolic multi-index and a symbolic degree: the index of zero is
zero, the index of the successor is one more, whatever the multi-index and the degree; so the index is the
position.  The listings for every degree of a range (symbolic degree, every path) are prefixes of one another."""
import time, os
from itsym import *

def cases(tier):
    T = tier != 'quick'
    out = []
    for s, tab in {'triangle': {1: (60000, 60000), 2: (250, 500), 3: (60, 90), 4: (20, 28), 5: (12, 16)}, 'cube': {1: (60000, 60000), 2: (250, 500), 3: (40, 60), 4: (14, 20), 5: (7, 10)}}.items():
        for dim, B in tab.items(): out.append({'kind': 'index', 's': s, 'dim': dim, 'B': B[T], 'budget': 180 if not T else 1500})
    # large entries: up to the sizes that 32 bits hold
    for s, tab in {'triangle': {2: (5789, 65530, 92600), 3: (462, 2343, 2940), 4: (140, 474, 550), 5: (71, 190, 200)}, 'cube': {2: (4094, 46339, 65530), 3: (254, 1289), 4: (62, 214), 5: (26, 72)}}.items():
        for dim, los in tab.items():
            for lo in los:
                for j in range(dim): out.append({'kind': 'index', 's': s, 'dim': dim, 'lo': lo, 'at': j, 'w': 3, 'B': lo + 3, 'budget': 60 if not T else 600})
    for s, tab in {'triangle': {1: (80, 300), 2: (40, 60), 3: (16, 22), 4: (9, 12), 5: (7, 8)}, 'cube': {1: (80, 300), 2: (22, 32), 3: (8, 11), 4: (5, 6), 5: (3, 4)},
                   'cross': {1: (80, 250), 2: (50, 90), 3: (22, 36), 4: (10, 16), 5: (6, 9)}, 'rectangle': {1: (80, 300), 2: (28, 40), 3: (14, 18), 4: (9, 11), 5: (6, 7)}}.items():
        for dim, D in tab.items(): out.append({'kind': 'prefix', 's': s, 'dim': dim, 'D': D[T], 'budget': 180 if not T else 1500})
    return out

def work(case, code, tier):
    import z3, llsym
    s, dim = case['s'], case['dim']
    ex = llsym.Executor(code.m)
    out = {'cands': []}
    deadline = time.time() + case['budget']
    try:
        if case['kind'] == 'index': index(case, code, ex, out, deadline)
        else:
            d, paths = listings(ex, code, s, dim, case['D'], deadline)
            L = {}
            i = z3.BitVec('position', 32)
            for l, _ in paths:
                ex.check()
                k = ex.s.model().eval(d, model_completion=True).as_long()
                if isinstance(l, str): out['cands'].append({'d1': k, 'd2': k, 'why': l}); continue
                if any(not isinstance(x, int) for m in l for x in m): raise llsym.Unsupported('symbolic listing')
                if ex.check(d != k): raise llsym.Unsupported('a path with several degrees')
                L[k] = l
            ks = sorted(L)
            for a, b in zip(ks, ks[1:]):
                # is there a position at which the two listings differ
                ex.s = z3.Solver()
                A, B = L[a], L[b]
                diff = [q for q in range(len(A)) if q >= len(B) or A[q] != B[q]]
                if ex.check(z3.ULT(i, len(A)), z3.Or([i == q for q in diff] + [z3.BoolVal(False)])): out['cands'].append({'d1': a, 'd2': b, 'why': 'not a prefix'})
    except llsym.Unsupported as e: out['unsupported'] = str(e)[:500]
    out.update(stats(ex))
    return out

def index(case, code, ex, out, deadline):
    import z3, llsym
    s, dim, B = case['s'], case['dim'], case['B']
    inc, idx = code.fn(s, 's_increment', V + '&, unsigned int'), code.fn(s, 's_index', V + ' const&')
    d = z3.BitVec('d', 32)
    m = [z3.BitVec('m%d' % i, 32) for i in range(dim)]
    ex.bin_max = B + dim + 2
    lo, w, at = case.get('lo'), case.get('w'), case.get('at')
    if lo is not None: ex.bin_ranges = [(0, w * dim + dim + 2), (lo - 1, lo + w * dim + dim + 2)]
    def run(st):
        try:
            i0 = ex.call(st, idx, [new_vec(ex, st, m)])
            p = new_vec(ex, st, m)
            full = ex.call(st, inc, [p, d])
            if isinstance(full, llsym.Undef): raise llsym.Unsupported('unknown result')
            if not isinstance(full, int): full = ex.fork(full if z3.is_bool(full) else full != 0)
            i1 = None if full else ex.call(st, idx, [new_vec(ex, st, get_vec(ex, st, p))])
            n = ex.call(st, code.fn(s, 's_size', 'unsigned int, unsigned int'), [dim, d]) if full else None
            return full, i0, i1, n
        except (llsym.Throw, llsym.Exit, llsym.UB) as e: return 'fails', str(e), None, None
    bv = lambda x: z3.BitVecVal(x, 32) if isinstance(x, int) else x
    def cex(why):
        M = ex.s.model(); ev = lambda x: M.eval(x, model_completion=True).as_long()
        out['cands'].append({'degree': ev(d), 'm': [ev(x) for x in m], 'why': why})
    if lo is None: pre = [z3.ULE(x, B) for x in m + [d]] + [z_inset(z3, s, m, d, 32)]
    else:
        # one large entry, the others up to w; the degree up to the largest with such a multi-index
        pre = [z3.ULE(m[j], w) if j != at else z3.And(z3.UGE(m[j], lo), z3.ULE(m[j], lo + w)) for j in range(dim)]
        pre += [z3.UGE(d, lo), z3.ULE(d, lo + w * (dim if s == 'triangle' else 1)), z_inset(z3, s, m, d, 32)]
    for full, i0, i1, n in ex.explore(run, pre, deadline):
        if full == 'fails': ex.check(); cex(i0); continue
        if any(isinstance(x, llsym.Undef) for x in (i0, i1, n)): raise llsym.Unsupported('unknown value')
        bad = [z3.And([x == 0 for x in m] + [bv(i0) != 0])]
        if full: bad.append(bv(i0) + 1 != bv(n))
        else: bad.append(bv(i1) != bv(i0) + 1)
        ex.s.set('timeout', 120000)
        if ex.check(z3.Or(bad)): cex('the index of the successor is not the next one' if not full else 'the last index is not the size less one')
        if len(out['cands']) >= 3: return

def main(tier):
    import harness
    TIER[0] = tier
    run = harness.Run('C02', tier)
    try: return main_(run, tier)
    finally: run.cleanup()
def main_(run, tier):
    run.plain()
    cs = cases(tier)
    code = Code(build_ir(run))
    res = pool(cs, lambda c: work(c, code, tier))
    inc = []
    for c, r in zip(cs, res):
        s, dim = c['s'], c['dim']
        js = []
        for k in r.get('cands', []):
            if c['kind'] == 'index':
                js.append({'kind': 'formula', 's': s, 'dim': dim, 'degree': 0, 'm': [k['m']]})
                lev = sum(k['m']) if s == 'triangle' else max(k['m'])
                for d in sorted({lev, min(lev + 1, c['B']), k['degree']}):
                    if size(s, dim, d) <= 500000: js.append({'kind': 'index', 's': s, 'dim': dim, 'degree': d, 'm': [k['m']]})
            else: js += [{'kind': 'list', 's': s, 'dim': dim, 'degree': k['d1']}, {'kind': 'prefix', 's': s, 'dim': dim, 'd1': k['d1'], 'd2': k['d2']}]
        confirmed = False
        if r.get('unsupported') or r.get('cands'):
            # decided on the real code at the degrees of the range where the encoding did not settle it
            if c['kind'] == 'index' and 'lo' in c:
                js.append({'kind': 'formula', 's': s, 'dim': dim, 'degree': 0, 'm': [[c['lo'] + 1 if i == c['at'] else (i * 2 + 1) % 3 for i in range(dim)], [c['lo'] if i == c['at'] else 0 for i in range(dim)]]})
            elif c['kind'] == 'index':
                D = max(d for d in range(c['B'] + 1) if size(s, dim, d) <= 30000)
                js.append({'kind': 'index', 's': s, 'dim': dim, 'degree': D})
            elif r.get('unsupported'): js += [{'kind': 'prefix', 's': s, 'dim': dim, 'd1': d, 'd2': d + 1} for d in range(1, c['D'])]
        for j, v in zip(js, real(run, js)) if js else []:
            bad = v.get('died') or v.get('bad')
            if j['kind'] == 'list' and not v.get('died'): continue
            if bad: run.report(j, {'detail': '%s, dimension %d: %s' % (s, dim, bad), 'inputs': {}}, str(r.get('cands') or r.get('unsupported'))[:300]); confirmed = True; break
        if confirmed: continue
        if r.get('cands'): inc.append({'case': c, 'why': 'not confirmed: ' + str(r['cands'][:1])})
        elif r.get('unsupported'): inc.append({'case': c, 'why': r['unsupported']})
    cov = coverage('Symbolic execution of s_index, s_increment and s_size on a symbolic multi-index and degree, and of s_list on a symbolic degree; z3 decides the induction step of "index is position" and the prefix property.',
                   {'index: set, dimension, entries and degree up to': [(c['s'], c['dim'], c['B']) for c in cs if c['kind'] == 'index' and 'lo' not in c], 'index of large entries: set, dimension, one entry in, the others up to': [(c['s'], c['dim'], '%d..%d' % (c['lo'], c['lo'] + c['w']), c['w']) for c in cs if 'lo' in c and not c['at']], 'prefix: set, dimension, degrees up to': [(c['s'], c['dim'], c['D']) for c in cs if c['kind'] == 'prefix']}, cs, res, inc)
    if os.environ.get('VERIF_DEBUG'): print(cov['slowest'], cov['inconclusive'])
    return run.finish(cov, ASSUME + ['binomial coefficients of the code are the exact ones within the table of feasible arguments (their floating-point evaluation is exercised by the size comparison of C01)'])

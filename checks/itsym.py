"""Shared by C01-C03: symbolic execution of the index-set code (LLVM IR of hermite/*.cpp outside python/)."""
import sys, os, json, time, subprocess, itertools, math, glob, traceback, re
CLS = {'triangle': 'Triangle_iterator', 'cube': 'Cube_iterator', 'cross': 'Cross_iterator', 'cross_nc': 'Cross_iterator_nc', 'rectangle': 'Rectangle_iterator'}
SETS = list(CLS)

# ---------------------------------------------------------------- reference
def inset(s, m, d):
    if s == 'triangle': return sum(m) <= d
    if s == 'cube': return all(x <= d for x in m)
    if s == 'rectangle': return m[0] <= d and all(x <= d // 2 for x in m[1:])
    p = 1
    for x in m: p *= max(x, 1)
    return p <= max(d, 1)
def members(s, dim, d):
    """the set, without enumerating the whole box"""
    out = []
    def rec(m, left):
        if len(m) == dim: out.append(tuple(m)); return
        if s == 'triangle': r = range(left + 1)
        elif s == 'cube': r = range(d + 1)
        elif s == 'rectangle': r = range((d if not m else d // 2) + 1)
        else: r = range(left + 1)
        for x in r: rec(m + [x], left - x if s == 'triangle' else left // max(x, 1) if s.startswith('cross') else left)
    rec([], max(d, 1) if s.startswith('cross') else d)
    return out
def size(s, dim, d):
    if s == 'triangle': return math.comb(d + dim, dim)
    if s == 'cube': return (d + 1) ** dim
    if s == 'rectangle': return (d + 1) * (d // 2 + 1) ** (dim - 1)
    return count_cross(dim, max(d, 1))
from functools import lru_cache
@lru_cache(None)
def count_cross(dim, d):
    if dim == 0: return 1
    return sum(count_cross(dim - 1, d // max(x, 1)) for x in range(d + 1)) if d >= 1 else 0
def z_inset(z3, s, m, d, w):
    """m: w-bit vectors small enough for the arithmetic, d: w-bit vector"""
    if s == 'triangle':
        t = m[0]
        for x in m[1:]: t = t + x
        return z3.ULE(t, d)
    if s == 'cube': return z3.And([z3.ULE(x, d) for x in m])
    if s == 'rectangle': return z3.And([z3.ULE(m[0], d)] + [z3.ULE(x, z3.LShR(d, 1)) for x in m[1:]])
    one = z3.BitVecVal(1, w)
    mx = lambda x: z3.If(x == 0, one, x)
    p = mx(m[0])
    for x in m[1:]: p = p * mx(x)
    return z3.ULE(p, mx(d))

# ---------------------------------------------------------------- the code
def build_ir(run):
    import build
    d = run.scratch('ir')
    from concurrent.futures import ThreadPoolExecutor
    src = [s for s in build.sources() if '/python/' not in s]
    def one(s):
        o = d + '/' + os.path.basename(s)[:-4] + '.ll'
        build.run([build.CLANG, '-std=c++14', '-O1', '-DNDEBUG', '-fno-inline', '-fno-vectorize', '-fno-slp-vectorize', '-fno-unroll-loops', '-ffp-contract=off', '-w', '-S', '-emit-llvm', '-I' + build.REPO + '/cpp/src', '-I' + build.PYINC, s, '-o', o])
        return o
    with ThreadPoolExecutor(8) as ex: lls = list(ex.map(one, src))
    out = d + '/all.ll'
    build.run(['llvm-link-18', '-S', *lls, '-o', out])
    return out

class Code:
    def __init__(self, path):
        import llsym
        self.m = llsym.Module(open(path).read())
    def fn(self, s, name, args):
        """the function's symbol, found by class and method name"""
        q = 'hermite::%s::%s(%s)' % (CLS[s], name, args)
        n = self.m.by_dem.get(q)
        if n is None:
            import llsym
            raise llsym.Unsupported('no function ' + q)
        return n
V = 'std::vector<unsigned int, std::allocator<unsigned int> >'
def new_vec(ex, st, vals):
    d = st.new(); p = st.new()
    for i, v in enumerate(vals): ex.store(st, (d[0], 4 * i), 4, v)
    n = len(vals)
    for k, o in ((0, 0), (8, 4 * n), (16, 4 * n)): ex.store(st, (p[0], k), 8, (d[0], o))
    return p
def get_vec(ex, st, p):
    b, e = ex.load(st, p, 8, ('ptr',)), ex.load(st, (p[0], p[1] + 8), 8, ('ptr',))
    return [ex.load(st, (b[0], b[1] + 4 * k), 4, ('int', 32)) for k in range((e[1] - b[1]) // 4)] if e != b else []
def get_mat(ex, st, p):
    b, e = ex.load(st, p, 8, ('ptr',)), ex.load(st, (p[0], p[1] + 8), 8, ('ptr',))
    return [tuple(get_vec(ex, st, (b[0], b[1] + 24 * k))) for k in range((e[1] - b[1]) // 24)] if e != b else []

def listings(ex, code, s, dim, D, deadline, lo=None):
    """every feasible path of the listing of a symbolic degree: (degree value or None if not unique, listing or why it failed, size)"""
    import z3, llsym
    d = z3.BitVec('d', 32)
    ex.bin_max = D + dim + 2
    f, g = code.fn(s, 's_list', 'unsigned int, unsigned int'), code.fn(s, 's_size', 'unsigned int, unsigned int')
    def run(st):
        p = st.new()
        try:
            ex.call(st, f, [p, dim, d])
            L = get_mat(ex, st, p)
            if not L or any(len(m) != dim for m in L): L = 'the listing is malformed: %r' % (L[:3],)
            return L, ex.call(st, g, [dim, d])
        except (llsym.Throw, llsym.Exit, llsym.UB) as e: return '%s: %s' % (type(e).__name__, e), None
    lo = (1 if s.startswith('cross') else 0) if lo is None else lo
    return d, ex.explore(run, [z3.ULE(d, D), z3.UGE(d, lo)], deadline)

# ---------------------------------------------------------------- real code
TIER = ['quick']
START = time.time()
def left(): return (780 if TIER[0] == 'quick' else 40000) - (time.time() - START)
def call(run, mod, fn, jobs, timeout):
    """the answers (one line each) given before the end, and how it ended if not well"""
    import build
    env = dict(os.environ, HOME=run.scratch('h'), LD_PRELOAD=run.out + '/libredir.so', SYMRT_SCRATCH=run.scratch('h'), PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg')
    src = 'import sys; sys.path.insert(0, %r); import %s; %s.%s()' % (os.path.dirname(os.path.abspath(__file__)), mod, mod, fn)
    try:
        p = subprocess.run(['/usr/bin/python3', '-c', src], input=json.dumps({'native': run.plain_native, 'repo': build.REPO, 'jobs': jobs}).encode(),
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, cwd=run.scratch('h'), timeout=timeout)
        o, err = p.stdout, None
        if p.returncode: err = 'return code %d; %s' % (p.returncode, p.stderr.decode(errors='replace')[-600:])
    except subprocess.TimeoutExpired as e: o, err = e.stdout or b'', 'no termination within %d s' % timeout
    r = [json.loads(l[2:]) for l in o.decode(errors='replace').split('\n')[:-1] if l.startswith('R ')]
    if err is None and len(r) < len(jobs): err = 'no answer'
    return r, err
def real(run, jobs, timeout=120):
    """run jobs on the real module; if the process dies or hangs the job that does it is reported.  {'skipped': ...} when no time is left"""
    out = []
    while len(out) < len(jobs):
        t = min(timeout, left())
        if t < 5: out.append({'skipped': 'time'}); continue
        r, err = call(run, 'itsym', 'native', jobs[len(out):], t)
        out += r
        if len(out) < len(jobs):
            j = jobs[len(out)]
            if 'termination' in err:
                if len(r): timeout = min(timeout, 60); continue           # the next job gets its own time
                if t < 20 or t < timeout: out.append({'skipped': 'time'}); continue
            out.append({'died': err})
    return out
def replay(run, f):
    """run.py --replay"""
    run.plain()
    return real(run, [f['case']])[0].get('bad')
def native():
    spec = json.load(sys.stdin)
    sys.path[:0] = [spec['native'], spec['repo']]
    import hermipy.core as core
    for j in spec['jobs']:
        k = j['kind']; r = {}
        def att(f):
            try: return f()
            except Exception as e: return 'raises ' + repr(e)[:200]
        if k == 'list':
            def go():
                L = core.iterator_list_indices(j['dim'], j['degree'], index_set=j['s'])
                return [tuple(int(x) for x in m) for m in L], int(core.iterator_size(j['dim'], j['degree'], index_set=j['s']))
            v = att(go)
            if isinstance(v, str): r['bad'] = v
            else:
                L, n = v
                if j.get('want') == 'list': r['list'] = L; r['size'] = n
                else: r['bad'] = check_listing(j['s'], j['dim'], j['degree'], L, n)
        elif k == 'prefix':
            def go():
                A, B = [[tuple(int(x) for x in m) for m in core.iterator_list_indices(j['dim'], d, index_set=j['s'])] for d in (j['d1'], j['d2'])]
                return None if B[:len(A)] == A else 'the listing of degree %d is not a prefix of that of degree %d in dimension %d' % (j['d1'], j['d2'], j['dim'])
            r['bad'] = att(go)
        elif k == 'index':
            def go():
                L = [[int(x) for x in m] for m in core.iterator_list_indices(j['dim'], j['degree'], index_set=j['s'])]
                which = range(len(L)) if len(L) <= 30000 else sorted(set(list(range(0, len(L), len(L) // 20000)) + [i for m in j.get('m', []) if m in L for i in (L.index(m), min(L.index(m) + 1, len(L) - 1))]))
                for i in which:
                    v = core.iterator_index(L[i], index_set=j['s'])
                    if int(v) != i: return 'the index of %s is given as %d, its position is %d' % (L[i], v, i)
                for m in j.get('m', []):
                    if L.count(m) != 1: return '%s is listed %d times at degree %d' % (m, L.count(m), j['degree'])
            r['bad'] = att(go)
        elif k == 'formula':
            # the position in closed form, which is compared with the listing first
            def go():
                from math import comb
                f = closed_form[j['s']]
                D = max(d for d in range(60) if size(j['s'], j['dim'], d) <= 20000)
                L = [[int(x) for x in m] for m in core.iterator_list_indices(j['dim'], D, index_set=j['s'])]
                if any(f(m) != i for i, m in enumerate(L)): return None
                for m in j['m']:
                    v = int(core.iterator_index(m, index_set=j['s']))
                    if v != f(m): return 'the index of %s is given as %d, its position is %d' % (m, v, f(m))
            r['bad'] = att(go)
        elif k == 'degree':
            def go():
                try: v = int(core.iterator_get_degree(j['dim'], j['n'], index_set=j['s']))
                except Exception as e: v = 'raises ' + repr(e)[:100]
                return v
            r['v'] = go()
        elif k == 'size':
            r['v'] = att(lambda: int(core.iterator_size(j['dim'], j['degree'], index_set=j['s'])))
        print('R ' + json.dumps(r), flush=True)
def _tri(m):
    r = s = 0
    for i, k in enumerate(m):
        s += k; r += math.comb(i + s, i + 1)
    return r
def _cube(m):
    n = len(m); M = max(m); ind = max(i for i in range(n) if m[i] == M)
    r = M ** n + sum(M ** (n - i - 1) * (M + 1) ** i for i in range(ind))
    f = 1
    for i in range(n):
        if i == ind: continue
        r += m[i] * f; f *= M + 1 if i < ind else M
    return r
closed_form = {'triangle': _tri, 'cube': _cube}
def check_listing(s, dim, d, L, n):
    if len(set(L)) != len(L):
        seen = set()
        for m in L:
            if m in seen: return '%s is listed twice' % (m,)
            seen.add(m)
    M = set(members(s, dim, d))
    for m in L:
        if m not in M: return '%s is listed, it is not in the set' % (m,)
    for m in sorted(M - set(L)): return '%s is not listed' % (m,)
    if any(L[0]): return 'the listing begins with %s' % (L[0],)
    if n != len(L): return 'the size is given as %d, the listing has %d elements' % (n, len(L))
    return None

# ---------------------------------------------------------------- driving
def pool(cases, work, n=8, limit=None, grace=60):
    """work(case) in forked processes, hardest first; when the time is over, or some time after a first candidate, what is left is dropped"""
    import multiprocessing as mp
    limit = limit or (480 if TIER[0] == 'quick' else 9000)
    end = time.time() + limit
    ctx = mp.get_context('fork')
    jobs, out = ctx.SimpleQueue(), ctx.SimpleQueue()
    for i in range(len(cases)): jobs.put(i)
    for _ in range(n): jobs.put(None)
    def loop():
        while True:
            i = jobs.get()
            if i is None: return
            t = time.time()
            try: r = work(cases[i])
            except Exception: r = {'unsupported': traceback.format_exc()[-700:]}
            r['t'] = round(time.time() - t, 2)
            out.put((i, r))
    ps = [ctx.Process(target=loop, daemon=True) for _ in range(n)]
    for p in ps: p.start()
    res = [None] * len(cases)
    got = 0
    while got < len(cases):
        if not out._reader.poll(max(0, end - time.time())): break
        i, r = out.get(); res[i] = r; got += 1
        if r.get('cands'): end = min(end, time.time() + grace)
    for p in ps:
        if got < len(cases): p.kill()
        p.join()
    return [r or {'unsupported': 'time', 't': limit} for r in res]
def stats(ex):
    return {'queries': ex.queries, 'sat': ex.sat, 'unsat': ex.unsat, 'solver_s': ex.solver_s, 'paths': ex.paths, 'instructions': ex.instructions, 'funcs': sorted(ex.mod.dem.get(f, f)[:90] for f in ex.funcs if 'hermite::' in ex.mod.dem.get(f, f))}
def coverage(expl, bounds, cases, res, inc, extra=None):
    S = lambda k: sum(r.get(k) or 0 for r in res)
    slow = sorted(((r['t'], str(c)) for c, r in zip(cases, res)), reverse=True)[:4]
    cov = {'explanation': expl, 'functions_encoded_native': sorted({f for r in res for f in r.get('funcs', [])}), 'bounds': bounds, 'configurations': len(cases), 'configurations_executed': sum(1 for r in res if not r.get('unsupported')),
           'paths': S('paths'), 'queries': S('queries'), 'queries_unsat': S('unsat'), 'queries_sat': S('sat'), 'solver_s': round(S('solver_s'), 2), 'instructions_interpreted': S('instructions'),
           'inconclusive': inc[:20], 'inconclusive_count': len(inc), 'samples': cases[:4], 'slowest': slow}
    cov.update(extra or {})
    return cov
ASSUME = ['clang -O1 IR stands for the built code; the hash table of each iterator and its printing are not encoded (they do not affect the listing)', 'doubles in the closed forms are exact integers below 2^53']

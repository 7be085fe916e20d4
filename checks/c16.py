"""C16: two calls with different arguments never share a cache entry.

The real wrapper is executed on argument templates whose leaves carry markers; every input of the
digest function is recorded.  The recorded inputs give, for each template, the key as a tree of string
concatenations of literals, renderings of the leaves (solver variables) and inner digests.  For each
pair of templates z3 is asked for leaf values that make the arguments differ and the keys agree, the
digest being injective.  A model is replayed: both calls are made for real, and reported only if they
use the same file."""
import sys, os, json, time, re, itertools, subprocess, hashlib, struct, tempfile, shutil

M61 = 2 ** 61 - 1

# ---------------------------------------------------------------- templates
class Leaf:
    def __init__(self, kind, slot, shape=None, dtype=None): self.kind, self.slot, self.shape, self.dtype = kind, slot, shape, dtype
    def __repr__(self): return '%s%d%s' % (self.kind, self.slot, '' if self.shape is None else str(self.shape) + (self.dtype or ''))
def templates(tier):
    I, F, S = (lambda k: Leaf('int', k)), (lambda k: Leaf('float', k)), (lambda k: Leaf('str', k))
    A = lambda k, sh, dt='<f8': Leaf('arr', k, sh, dt)
    C = lambda k, sh, st=None: Leaf('csr', k, sh, st)      # st: where the entries are
    Y = lambda k: Leaf('sym', k)
    T = {}
    def add(name, *args, **kw): T[name] = (list(args), kw)
    add('none', None); add('emptystr', ''); add('emptylist', []); add('emptydict', {}); add('nothing')
    add('int', I(0)); add('float', F(0)); add('str', S(0)); add('sym', Y(0)); add('true', True)
    add('v4', A(0, (4,))); add('m22', A(0, (2, 2))); add('m14', A(0, (1, 4))); add('m41', A(0, (4, 1))); add('i4', A(0, (4,), '<i8')); add('f8', A(0, (8,), '<f4'))
    add('v2', A(0, (2,))); add('v0', A(0, (0,))); add('m02', A(0, (0, 2))); add('v600', A(0, (600,))); add('m3040', A(0, (30, 40))); add('F23', Leaf('farr', 0, (2, 3), '<f8')); add('m23', A(0, (2, 3))); add('m32', A(0, (3, 2)))
    add('S23', Leaf('sarr', 0, (2, 3), '<f8'))
    add('csr23', C(0, (2, 3))); add('csr33', C(0, (3, 3))); add('csr24', C(0, (2, 4)))
    add('csr23 rows', C(0, (2, 3), 'rows')); add('csr23 columns', C(0, (2, 3), 'columns')); add('csr33 rows', C(0, (3, 3), 'rows')); add('csr33 last', C(0, (3, 3), 'last')); add('[csr23]', [C(0, (2, 3))]); add('[csr23 rows]', [C(0, (2, 3), 'rows')])
    add('csrparts23', [A(0, (3,)), A(1, (3,), '<i4'), A(2, (3,), '<i4'), (2, 3)])
    add('[i]', [I(0)]); add('[i,i]', [I(0), I(1)]); add('[[i],i]', [[I(0)], I(1)]); add('[i,[i]]', [I(0), [I(1)]]); add('[[i,i]]', [[I(0), I(1)]]); add('[[i]]', [[I(0)]]); add('[[i],[i]]', [[I(0)], [I(1)]])
    add('[s]', [S(0)]); add('[s,s]', [S(0), S(1)]); add('[f]', [F(0)]); add('[f,f]', [F(0), F(1)]); add('[v2,v2]', [A(0, (2,)), A(1, (2,))]); add('[m22]', [A(0, (2, 2))])
    add('i,i', I(0), I(1)); add('s,s', S(0), S(1)); add('i,s', I(0), S(0)); add('s,i', S(0), I(0)); add('f,f', F(0), F(1)); add('i,[i]', I(0), [I(1)]); add('[i],i', [I(0)], I(1)); add('i,i,i', I(0), I(1), I(2))
    add('{s:i}', {S(0): I(0)}); add('{s:i,s:i}', {S(0): I(0), S(1): I(1)}); add('{i:i}', {I(0): I(1)}); add('{s:[i]}', {S(0): [I(0)]}); add('{(i,i):v2}', {(I(0), I(1)): A(0, (2,))}); add('{i:v2,i:v2}', {(I(0),): A(0, (2,)), (I(1),): A(1, (2,))})
    add('kw=i', kw=I(0)); add('kx=i', kx=I(0)); add('kw=s', kw=S(0)); add('i,kw=i', I(0), kw=I(1)); add('i,kx=i', I(0), kx=I(1)); add('kw=i,kx=i', kw=I(0), kx=I(1)); add('kw=None', kw=None); add('kw=v4', kw=A(0, (4,))); add('kw=m22', kw=A(0, (2, 2)))
    add('"kw",i', 'kw', I(0)); add('i,"kw",i', I(0), 'kw', I(1)); add('"kw",i,"kx",i', 'kw', I(0), 'kx', I(1)); add('{"kw":i}', {'kw': I(0)}); add('i,{"kw":i}', I(0), {'kw': I(1)}); add('[i],{"kw":i}', [I(0)], {'kw': I(1)})
    add('i,v4,s', I(0), A(0, (4,)), S(0)); add('s,v4,v4,m22', S(0), A(0, (4,)), A(1, (4,)), A(2, (2, 2))); add('none,none', None, None); add('none,i', None, I(0)); add('i,none', I(0), None); add('v4,kw=s', A(0, (4,)), kw=S(0)); add('v4,kw=s,kx=[i]', A(0, (4,)), kw=S(0), kx=[I(0)])
    add('ext', Leaf('ext', 0)); add('frozen', frozenset([3, 5])); add('frozen2', frozenset([3, 6]))
    return T

def rebuild(x, val):
    if isinstance(x, Leaf): return val(x)
    if isinstance(x, list): return [rebuild(e, val) for e in x]
    if isinstance(x, tuple): return tuple(rebuild(e, val) for e in x)
    if isinstance(x, dict): return {rebuild(k, val): rebuild(v, val) for k, v in x.items()}
    return x
def leaves(x, out):
    if isinstance(x, Leaf): out.append(x)
    elif isinstance(x, (list, tuple)):
        for e in x: leaves(e, out)
    elif isinstance(x, dict):
        for k, v in x.items(): leaves(k, out); leaves(v, out)
    return out

# ---------------------------------------------------------------- inside the worker
def worker():
    spec = json.load(sys.stdin)
    sys.path[:0] = [spec['native'], spec['repo']]
    import numpy as np, scipy.sparse as ss, sympy
    from hermipy.cache import cache
    from hermipy.settings import settings
    d = tempfile.mkdtemp(prefix='c16-', dir=os.environ['HOME'])
    settings['cachedir'] = d; settings['cache'] = True
    class Ext:
        def __init__(self, n): self.n = n
    def compute(*a, **k): return np.array([1.0])
    f = cache(hash_extend=lambda e: e.n)(compute)
    rec = []
    real = {n: getattr(hashlib, n) for n in ('md5', 'sha1', 'sha224', 'sha256', 'sha384', 'sha512', 'blake2b', 'blake2s') if hasattr(hashlib, n)}
    class H:
        def __init__(self, fn, data=b'', **kw):
            self.buf = b''; self.fn = fn; self.kw = {}
            if len(data): self.update(data)
            elif not isinstance(data, (bytes, str)): fn(data)
        def update(self, data):
            self.fn(data); self.buf += bytes(data) if isinstance(data, (bytes, bytearray)) else memoryview(data).cast('B').tobytes() if memoryview(data).nbytes else b''
        def hexdigest(self, *a):
            h = self.fn(self.buf).hexdigest(*a); rec.append((h, self.buf)); return h
        def digest(self, *a):
            h = self.fn(self.buf); rec.append((h.hexdigest(*a), self.buf)); return h.digest(*a)
        def copy(self): n = H(self.fn); n.buf = self.buf; return n
    def patch(on):
        for n, fn in real.items(): setattr(hashlib, n, (lambda data=b'', fn=fn, **kw: H(fn, data)) if on else fn)
    def build(l, v):
        if l.kind == 'int': return int(v)
        if l.kind == 'float': return float.fromhex(v) if isinstance(v, str) else float(v)
        if l.kind == 'str': return v
        if l.kind == 'sym': return sympy.Symbol(v)
        if l.kind == 'ext': return Ext(v)
        if l.kind in ('arr', 'farr', 'sarr'):
            a = np.frombuffer(bytes.fromhex(v), dtype=l.dtype).reshape(l.shape).copy()
            if l.kind == 'farr': return np.asfortranarray(a)
            if l.kind == 'sarr': b = np.zeros((2 * l.shape[0], l.shape[1])); b[::2] = a; return b[::2]
            return a
        if l.kind == 'csr':
            r, c = l.shape
            data = np.frombuffer(bytes.fromhex(v), dtype='<f8').copy()
            ind = {None: [0, 2, 1], 'rows': [0, 2, 1], 'columns': [0, 1, 1], 'last': [0, 2, 1]}[l.dtype]
            ptr = {None: [0, 2, 3], 'rows': [0, 1, 3], 'columns': [0, 2, 3], 'last': [0, 2, 2]}[l.dtype]
            return ss.csr_matrix((data, np.array(ind, dtype=np.int32), np.array(ptr + [3] * (r - 2), dtype=np.int32)), shape=(r, c))
    def call(args, kw):
        for x in os.listdir(d): os.unlink(os.path.join(d, x))
        f(*args, **kw)
        fs = os.listdir(d)
        assert len(fs) == 1, fs
        return fs[0]
    T = templates(spec['tier'])
    out = []
    for job in spec['jobs']:
        args, kw = T[job['t']]
        val = lambda l: build(l, job['vals'][l.kind + str(l.slot)])
        rec.clear(); patch(job.get('rec', False))
        try: key = call([rebuild(a, val) for a in args], {k: rebuild(v, val) for k, v in kw.items()})
        except Exception as e: key = 'EXC ' + repr(e)
        finally: patch(False)
        out.append({'key': key, 'rec': [(h, p.hex()) for h, p in rec]})
    shutil.rmtree(d, ignore_errors=True)
    json.dump(out, sys.stdout)

# ---------------------------------------------------------------- in the driver
def nbytes(l):
    import numpy as np
    if l.kind == 'csr': return 24
    n = np.dtype(l.dtype).itemsize
    for s in l.shape: n *= s
    return n
def marker(l, k):
    """k-th marker value of a leaf"""
    if l.kind == 'int': return 7001003 + 1009 * l.slot + 100003 * k
    if l.kind == 'float': return 0.3141592653 + 0.0123456789 * l.slot + 0.777 * k
    if l.kind in ('str', 'sym', 'ext'): return 'mk%s%dx%dq' % (l.kind, l.slot, k)
    import random, struct
    r = random.Random('%s%d%d' % (l.kind, l.slot, k))
    n = nbytes(l)
    if l.kind == 'csr' or l.dtype == '<f8': return b''.join(struct.pack('<d', r.uniform(-1, 1)) for _ in range(n // 8)).hex()
    if l.dtype == '<f4': return b''.join(struct.pack('<f', r.uniform(-1, 1)) for _ in range(n // 4)).hex()
    if l.dtype == '<i8': return b''.join(struct.pack('<q', r.randrange(10 ** 6)) for _ in range(n // 8)).hex()
    return b''.join(struct.pack('<i', r.randrange(10 ** 6)) for _ in range(n // 4)).hex()
def renderings(l, v):
    """(name, bytes) by which a leaf value may enter a digest"""
    if l.kind == 'int':
        return [('dec', str(v).encode()), ('hash', str(hash(v)).encode()), ('hex', hex(v).encode()), ('le8', v.to_bytes(8, 'little')), ('be8', v.to_bytes(8, 'big'))]
    if l.kind == 'float':
        return [('inj', float(v).hex().encode()), ('inj', repr(float(v)).encode()), ('inj', struct.pack('<d', v)), ('inj', struct.pack('>d', v)), ('hash', str(hash(float(v))).encode()), ('inj', struct.pack('<d', v).hex().encode())]
    if l.kind in ('str', 'sym', 'ext'): return [('raw', v.encode())]
    b = bytes.fromhex(v)
    import numpy as np
    r = [('raw', b), ('raw', b.hex().encode())]
    if l.kind in ('arr', 'farr', 'sarr') and b:
        r.append(('raw', np.frombuffer(b, dtype=l.dtype).reshape(l.shape).tobytes('F')))
    return r

def parse(rec, key, lv, vals):
    """key -> tree of segments"""
    table = {h: bytes.fromhex(p) for h, p in rec}
    stem = re.sub(r'\.np[yz]$', '', key)
    located = set()
    memo = {}
    def seg(b, self_d=None):
        out, i, lit = [], 0, b''
        cands = []
        for h in table:
            if h != self_d: cands.append((h.encode(), ('D', h))); cands.append((bytes.fromhex(h), ('D', h)))
        for l in lv:
            for name, r in renderings(l, vals[l.kind + str(l.slot)]):
                if len(r): cands.append((r, ('L', l, name)))
        cands.sort(key=lambda c: -len(c[0]))
        while i < len(b):
            for pat, what in cands:
                if b.startswith(pat, i):
                    if lit: out.append(('C', lit)); lit = b''
                    out.append(what); i += len(pat)
                    if what[0] == 'L': located.add(what[1])
                    break
            else: lit += b[i:i + 1]; i += 1
        if lit: out.append(('C', lit))
        return out
    nodes = {}
    def walk(h):
        if h in nodes: return
        nodes[h] = None
        nodes[h] = seg(table[h], h)
        for s in nodes[h]:
            if s[0] == 'D': walk(s[1])
    root = seg(stem.encode())
    for s in root:
        if s[0] == 'D': walk(s[1])
    return root, nodes, located

def main(tier):
    import harness, build
    run = harness.Run('C16', tier)
    try: return main_(run, tier, harness, build)
    finally: run.cleanup()

def main_(run, tier, harness, build):
    try: import z3
    except ImportError:
        sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages'); import z3
    from concurrent.futures import ProcessPoolExecutor
    native = run.plain()
    home = run.scratch('h')
    def real(jobs):
        env = dict(os.environ, HOME=home, LD_PRELOAD=run.out + '/libredir.so', SYMRT_SCRATCH=home, PYTHONDONTWRITEBYTECODE='1')
        p = subprocess.run(['/usr/bin/python3', '-c', 'import sys; sys.path.insert(0, %r); import c16; c16.worker()' % os.path.dirname(os.path.abspath(__file__))],
                           input=json.dumps({'native': native, 'repo': build.REPO, 'tier': tier, 'jobs': jobs}).encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, cwd=home, timeout=600)
        if p.returncode: raise RuntimeError(p.stderr.decode()[-2000:])
        return json.loads(p.stdout.decode().splitlines()[-1])
    T = templates(tier)
    names = list(T)
    LV = {}
    for n in names:
        args, kw = T[n]
        l = []
        for a in args: leaves(a, l)
        for a in kw.values(): leaves(a, l)
        LV[n] = l
    mv = lambda n, k: {l.kind + str(l.slot): marker(l, k) for l in LV[n]}
    jobs = [{'t': n, 'vals': mv(n, k), 'rec': True} for n in names for k in (0, 1)]
    res = real(jobs)
    trees, problems = {}, []
    for i, n in enumerate(names):
        t = []
        for k in (0, 1):
            r = res[2 * i + k]
            if r['key'].startswith('EXC'):
                problems.append((n, r['key'])); t = None; break
            t.append(parse(r['rec'], r['key'], LV[n], jobs[2 * i + k]['vals']))
        trees[n] = t
    # a template whose call fails outright is a violation of its own (arguments of the documented kinds)
    for n, e in problems:
        run.report({'template': n}, {'detail': 'the cached call itself fails: ' + e, 'inputs': mv(n, 0)}, 'execution')
    st = {'queries': 0, 'sat': 0, 'unsat': 0, 'unknown': 0, 'solver_s': 0.0}
    cands = []
    pairs = [(a, b) for i, a in enumerate(names) for b in names[i:] if trees[a] and trees[b]]
    same_args = {frozenset(p) for p in (('F23', 'm23'), ('S23', 'm23'), ('F23', 'S23'))}
    groups = [pairs[k::8] for k in range(8)]
    # solve in forked processes
    import multiprocessing as mp
    ctx = mp.get_context('fork')
    q = ctx.Queue()
    def work(g):
        out, s = [], {'queries': 0, 'sat': 0, 'unsat': 0, 'unknown': 0, 'solver_s': 0.0}
        t0 = time.time()
        for a, b in g:
            if time.time() - t0 > (150 if tier == 'quick' else 1200): out.append((a, b, None, 'time budget')); continue
            try: out += decide(z3, a, b, trees, LV, s, frozenset((a, b)) in same_args, T)
            except Exception as e:
                import traceback
                out.append((a, b, None, 'encoding error: ' + traceback.format_exc()[-600:]))
        q.put((out, s))
    ps = [ctx.Process(target=work, args=(g,)) for g in groups]
    for p in ps: p.start()
    for _ in ps:
        o, s = q.get()
        cands += o
        for k in s: st[k] += s[k]
    for p in ps: p.join()
    # replay
    inconcl = []
    for a, b, vals, why in sorted(cands, key=lambda c: str(c[:2])):
        if len(run.violations) >= 5: break
        tries = []
        if vals is not None: tries.append(vals)
        if vals is None or a == b: tries += variations(LV, a, b)
        hit = None
        if tries:
            rs = real([j for va, vb in tries for j in ({'t': a, 'vals': va}, {'t': b, 'vals': vb})])
            for k, (va, vb) in enumerate(tries):
                ka, kb = rs[2 * k]['key'], rs[2 * k + 1]['key']
                if ka == kb and not ka.startswith('EXC'): hit = (va, vb, ka); break
        if hit: run.report({'template_1': a, 'template_2': b}, {'detail': 'the calls f(%s) and f(%s) share the entry %s' % (a, b, hit[2]), 'inputs': {'first': hit[0], 'second': hit[1]}}, why)
        else: inconcl.append((a, b, why))
    cov = {'explanation': 'The real cache wrapper is executed on %d argument templates; the digest inputs it produces are turned into string terms over the leaf values, and z3 decides for each of the %d pairs whether different arguments can give equal keys (digest injective).' % (len(names), len(pairs)),
           'functions_encoded_python': ['cache.gen_hash.the_hash', 'cache.cache.wrapper (key construction)'], 'bounds': {'templates': names, 'leaves': 'ints unbounded, floats all, strings all, array contents all, for the listed shapes and nestings'},
           'pairs': len(pairs), **st, 'leaves_located': sum(len(t[0][2]) for t in trees.values() if t), 'leaves_total': sum(len(v) for v in LV.values()),
           'inconclusive': [str(x)[:300] for x in inconcl[:20]], 'inconclusive_count': len(inconcl), 'samples': [str(pairs[k]) for k in (0, len(pairs) // 2)]}
    if os.environ.get('VERIF_DEBUG'): print(json.dumps(cov, indent=1)[:5000])
    return run.finish(cov, ['the digest function is injective on the inputs that occur', 'Python int hash modelled as reduction modulo 2^61-1'])

def variations(LV, a, b):
    out = []
    base = {l.kind + str(l.slot): marker(l, 0) for l in LV[a]}
    if a != b:
        return [(base, dict({l.kind + str(l.slot): marker(l, 0) for l in LV[b]}, **{k: v for k, v in base.items() if k in {l.kind + str(l.slot) for l in LV[b]}}))]
    for l in LV[a]:
        k = l.kind + str(l.slot); v = base[k]
        if l.kind == 'int': alt = [(v, v + 1), (v, -v), (v, v + M61), (-1, -2), (v, v + 2 ** 32), (v, v + 2 ** 64), (0, 1)]
        elif l.kind == 'float': alt = [(v, v * (1 + 2 ** -50)), (v, v + 1e-9), (v, -v), (0.5, float(2 ** 60)), (v, v + 1e-6), (1e300, 2e300), (1e-300, 2e-300)]
        elif l.kind in ('str', 'sym', 'ext'): alt = [(v, v + 'x'), (v, v.upper()), (v, v[:-1]), (v, ' ' + v), (v, v + ' '), (v, v[::-1])]
        else:
            import struct
            bts = bytes.fromhex(v); alt = []
            n = len(bts) // 8
            if l.kind == 'csr' or l.dtype == '<f8':
                for p in sorted({0, 1, n // 2, n - 2, n - 1} & set(range(n))):
                    x, = struct.unpack('<d', bts[8 * p:8 * p + 8])
                    for y in (x * (1 + 2 ** -50), x + 1e-9, -x, x + 1e-4, x + 1): alt.append((v, (bts[:8 * p] + struct.pack('<d', y) + bts[8 * p + 8:]).hex()))
                if n > 1: alt.append((v, (bts[8:16] + bts[:8] + bts[16:]).hex()))
            elif bts: alt.append((v, (bytes([bts[0] ^ 1]) + bts[1:]).hex())); alt.append((v, (bts[:-8] + bytes([bts[-8] ^ 1]) + bts[-7:]).hex()))
        for x, y in alt: out.append((dict(base, **{k: x}), dict(base, **{k: y})))
    # exchanged leaves
    for l, m in itertools.combinations(LV[a], 2):
        if l.kind == m.kind and l.shape == m.shape:
            kl, km = l.kind + str(l.slot), m.kind + str(m.slot)
            out.append((base, dict(base, **{kl: base[km], km: base[kl]})))
    return out

def decide(z3, a, b, trees, LV, st, same, full):
    """one query: leaf values for which the arguments differ and the keys agree"""
    ta, tb = trees[a][0], trees[b][1] if a == b else trees[b][0]
    V = {}
    cons = []
    def to_s(n): return z3.If(n < 0, z3.Concat(z3.StringVal('-'), z3.IntToStr(-n)), z3.IntToStr(n))
    def pyhash_int(n):
        m = z3.If(n >= 0, n % M61, -((-n) % M61))
        return z3.If(m == -1, z3.IntVal(-2), m)
    def esc(b): return ''.join(chr(c) if 32 <= c < 127 and c != 92 else '\\u{%x}' % c for c in b)
    def var(side, l):
        k = (side, l.kind, l.slot)
        if k not in V:
            nm = '%s_%s%d' % k
            if l.kind == 'int': V[k] = z3.Int(nm)
            elif l.kind == 'float':
                # value p / 2^e with e in {0, 1}, plus an opaque injective rendering
                p, r = z3.Int(nm + '_p'), z3.String(nm)
                h = z3.Bool(nm + '_half')
                V[k] = (p, r, h)
                cons.append(z3.Contains(r, z3.StringVal('.'))); cons.append(z3.Not(z3.And(h, p % 2 == 0)))
            else:
                V[k] = z3.String(nm)
                if l.kind in ('sym', 'ext'): cons.append(z3.Length(V[k]) > 0)
        return V[k]
    def render(side, l, how):
        v = var(side, l)
        if l.kind == 'int':
            if how == 'hash': return to_s(pyhash_int(v))
            if how in ('le8', 'be8'):
                cons.append(z3.And(v >= -2 ** 63, v < 2 ** 63))
                return z3.Concat(z3.StringVal(how), to_s(v))
            return to_s(v)
        if l.kind == 'float':
            if how == 'hash':
                p, r, h = v
                q = z3.If(h, p * 2 ** 60, p)
                return to_s(pyhash_int(q))
            return v[1]
        return v
    D, T = {}, {'a': ta[1], 'b': tb[1]}
    def dig(side, h):
        k = (side, h)
        if k not in D:
            D[k] = z3.String('d%d' % len(D))
            cons.append(z3.Length(D[k]) == len(h))
        return D[k]
    def term(side, segs):
        ps = []
        for s in segs:
            if s[0] == 'C': ps.append(z3.StringVal(esc(s[1])))
            elif s[0] == 'D': ps.append(dig(side, s[1]))
            else:
                if s[1].kind in ('arr', 'farr', 'sarr', 'csr'): cons.append(z3.Length(var(side, s[1])) == nbytes(s[1]))
                ps.append(render(side, s[1], s[2]))
        if not ps: return z3.StringVal('')
        return ps[0] if len(ps) == 1 else z3.Concat(*ps)
    memo = {}
    fixed = lambda l: l.kind in ('arr', 'farr', 'sarr', 'csr')
    def same_form(x, y):
        """renderings of one kind: equality of the rendered values"""
        (_, l, hl), (_, m, hm) = x, y
        if l.kind != m.kind and not (fixed(l) and fixed(m)): return None
        if hl != hm: return None
        if fixed(l): return var('a', l) == var('b', m) if nbytes(l) == nbytes(m) else z3.BoolVal(False)
        if l.kind == 'int': return pyhash_int(var('a', l)) == pyhash_int(var('b', m)) if hl == 'hash' else var('a', l) == var('b', m)
        if l.kind == 'float' and hl == 'inj': return var('a', l)[1] == var('b', m)[1]
        if l.kind == 'float': return render('a', l, hl) == render('b', m, hm)
        return var('a', l) == var('b', m)
    def equal(sa, sb):
        """the two concatenations agree; common prefixes and suffixes are removed, digests of equal length compared by what they digest"""
        sa, sb, conj = list(sa), list(sb), []
        for end in (0, -1):
            while sa and sb:
                x, y = sa[end], sb[end]
                if x[0] == 'C' and y[0] == 'C':
                    n = min(len(x[1]), len(y[1]))
                    cx, cy = (x[1][:n], y[1][:n]) if end == 0 else (x[1][-n:], y[1][-n:])
                    if cx != cy: return z3.BoolVal(False)
                    for q, z in ((sa, x), (sb, y)):
                        rest = z[1][n:] if end == 0 else z[1][:len(z[1]) - n]
                        if rest: q[end] = ('C', rest)
                        else: q.pop(end)
                elif x[0] == 'D' and y[0] == 'D' and len(x[1]) == len(y[1]):
                    conj.append(digests(x[1], y[1])); sa.pop(end); sb.pop(end)
                elif x[0] == 'L' and y[0] == 'L' and (len(sa) == len(sb) == 1 or (fixed(x[1]) and fixed(y[1]) and nbytes(x[1]) == nbytes(y[1]))):
                    e = same_form(x, y)
                    if e is None: break
                    conj.append(e); sa.pop(end); sb.pop(end)
                elif len(sa) == len(sb) == 1 and {x[0], y[0]} == {'C', 'D'}: return z3.BoolVal(False)
                else: break
        if sa or sb:
            if not sa or not sb:
                rest = sa or sb
                if any(s[0] != 'L' or s[1].kind in ('int', 'float') for s in rest): return z3.BoolVal(False)
            conj.append(term('a', sa) == term('b', sb))
        return z3.And(conj) if conj else z3.BoolVal(True)
    def digests(h, k):
        if (h, k) not in memo: memo[(h, k)] = equal(T['a'][h], T['b'][k])
        return memo[(h, k)]
    keys_agree = equal(ta[0], tb[0])
    # the arguments differ
    lit = lambda x: x is None or isinstance(x, (bool, int, float, str))
    def args_equal(x, y):
        """formula: the two templates describe equal arguments (sequences by their elements, numbers by value)"""
        B = z3.BoolVal
        if isinstance(x, frozenset): x = sorted(x)
        if isinstance(y, frozenset): y = sorted(y)
        if isinstance(x, (list, tuple)) or isinstance(y, (list, tuple)):
            if not (isinstance(x, (list, tuple)) and isinstance(y, (list, tuple))) or len(x) != len(y): return B(False)
            return z3.And([args_equal(p, q) for p, q in zip(x, y)] + [B(True)])
        if isinstance(x, dict) or isinstance(y, dict):
            if not (isinstance(x, dict) and isinstance(y, dict)) or len(x) != len(y): return B(False)
            ks, kt = list(x), list(y)
            return z3.Or([z3.And([z3.And(args_equal(ks[i], kt[p[i]]), args_equal(x[ks[i]], y[kt[p[i]]])) for i in range(len(ks))] + [B(True)])
                          for p in itertools.permutations(range(len(kt)))])
        if not isinstance(x, Leaf) and not isinstance(y, Leaf): return B(x is y or (type(x) == type(y) and x == y) or (lit(x) and lit(y) and not isinstance(x, str) and x == y))
        if isinstance(x, Leaf) and isinstance(y, Leaf):
            u, v = var('a', x), var('b', y)
            if fixed(x) and fixed(y):
                if x.shape != y.shape or x.dtype != y.dtype or (x.kind == 'csr') != (y.kind == 'csr'): return B(False)
                return u == v if nbytes(x) else B(True)
            num = lambda l, w: (2 * w, None) if l.kind == 'int' else (z3.If(w[2], w[0], 2 * w[0]), w[1])
            if {x.kind, y.kind} <= {'int', 'float'}:
                (p, r), (q, t) = num(x, u), num(y, v)
                if r is not None and t is not None: cons.append((p == q) == (r == t))
                return p == q
            if x.kind == y.kind: return u == v
            return B(False)
        side, l, c = ('a', x, y) if isinstance(x, Leaf) else ('b', y, x)
        w = var(side, l)
        if l.kind == 'int' and isinstance(c, (bool, int)): return w == int(c)
        if l.kind == 'float' and isinstance(c, (bool, int)): return z3.And(z3.Not(w[2]), w[0] == int(c)) if True else None
        if l.kind in ('str',) and isinstance(c, str): return w == z3.StringVal(esc(c.encode()))
        return B(False)
    fixed = lambda l: l.kind in ('arr', 'farr', 'sarr', 'csr')
    if a == b:
        if not LV[a]: return []
        blind = [l for l in LV[a] if l not in ta[2] and not (fixed(l) and not nbytes(l))]
        if blind: return [(a, b, None, 'the key does not contain %s' % blind)]
    elif same: return []
    (aa, ka), (ab, kb) = full[a], full[b]
    diff = [z3.Not(z3.And(args_equal(aa, ab), args_equal(ka, kb)))]
    s = z3.Solver(); s.set('timeout', 5000)
    done = set()
    while True:     # digests that remain inside string equations are injective
        todo = [(p, q) for p in D for q in D if p < q and (p, q) not in done]
        if not todo or len(done) > 200: break
        for p, q in todo:
            done.add((p, q))
            if p[0] != q[0]: s.add((D[p] == D[q]) == (digests(p[1], q[1]) if p[0] == 'a' else digests(q[1], p[1])))
    s.add(cons); s.add(keys_agree); s.add(z3.Or(diff))
    t0 = time.time(); r = s.check(); st['solver_s'] += time.time() - t0; st['queries'] += 1; st[str(r)] += 1
    if r == z3.unsat: return []
    if r == z3.unknown: return [(a, b, None, 'solver gave up')]
    m = s.model()
    def vals(side, n):
        out = {}
        for l in LV[n]:
            k = l.kind + str(l.slot)
            v = var(side, l)
            if l.kind == 'int': out[k] = m.eval(v, model_completion=True).as_long()
            elif l.kind == 'float':
                p, h = m.eval(v[0], model_completion=True).as_long(), z3.is_true(m.eval(v[2], model_completion=True))
                out[k] = float(p) / 2 if h else float(p)
            elif l.kind in ('str', 'sym', 'ext'):
                x = m.eval(v, model_completion=True).as_string()
                x = re.sub(r'\\u\{([0-9a-f]+)\}', lambda q: chr(int(q.group(1), 16)), x)
                # inner digests of the model are replaced by the real ones
                for (sd, h), dv in D.items():
                    dm = m.eval(dv, model_completion=True).as_string()
                    dm = re.sub(r'\\u\{([0-9a-f]+)\}', lambda q: chr(int(q.group(1), 16)), dm)
                    if dm and dm in x: x = x.replace(dm, real_digest(sd, h))
                out[k] = x if x else ('' if l.kind == 'str' else 'q')
            else:
                x = re.sub(r'\\u\{([0-9a-f]+)\}', lambda q: chr(int(q.group(1), 16)), m.eval(v, model_completion=True).as_string())
                bts = bytes(ord(c) & 255 for c in x)[:nbytes(l)]
                out[k] = bts.ljust(nbytes(l), b'\0').hex()
        return out
    def real_digest(side, h):
        t = ta if side == 'a' else tb
        n = a if side == 'a' else b
        vs = {l.kind + str(l.slot): m.eval(var(side, l), model_completion=True) for l in LV[n] if l.kind == 'int'}
        def pre(h):
            out = b''
            for s_ in t[1][h]:
                if s_[0] == 'C': out += s_[1]
                elif s_[0] == 'D': out += real_digest(side, s_[1]).encode()
                else:
                    l, how = s_[1], s_[2]
                    if l.kind == 'int':
                        v_ = vs[l.kind + str(l.slot)].as_long()
                        out += str(hash(v_) if how == 'hash' else v_).encode()
                    elif l.kind in ('str', 'sym', 'ext'): out += m.eval(var(side, l), model_completion=True).as_string().encode()
            return out
        return hashlib.md5(pre(h)).hexdigest()
    return [(a, b, (vals('a', a), vals('b', b)), 'solver model: equal keys')]

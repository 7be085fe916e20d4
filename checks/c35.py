"""C35: concurrent or interrupted compilation of integrands never yields a wrong function, or a failure.

The file operations of the real code (every open, write, close, rename, unlink, compiler run and dlopen
below /tmp, with the branches taken on their outcomes) are obtained by running it under a controller
(engine/fsstep.c) and form one tree per sequence of discretisations.  z3 then gets a transition system of
two or three such processes over a symbolic file system, the schedule being symbolic: which process takes
the next step, at every step; a process that is never scheduled again has crashed.  Steps of the compiler
(read the source, replace the output by a partial one, complete it) are interleaved too.  Whenever the
solver reaches an outcome the tree does not know yet, that schedule is executed with real processes and the
tree extended; when it reaches a wrong result, the schedule is executed with real processes to confirm."""
import os, sys, json, time, subprocess, hashlib, shutil, select, multiprocessing, re, signal, shlex
import harness, build
HERE = os.path.dirname(os.path.abspath(__file__))
EXPR = {'f': 'x*x + 1/2', 'g': 'cos(x) - x', 'h': 'x*x + 1/3', 'b': 'x*undeclared'}
CONF = [('f', 'f'), ('f', 'g'), ('f', 'h'), ('b', 'b'), ('b', 'f'), ('ff', 'f'), ('fg', 'gf'), ('f', 'f', 'f'), ('f', 'f', 'g'), ('bf', 'f'), ('b', 'b', 'b')]
CONF_T = [('f', 'f', 'f', 'f'), ('fg', 'gf', 'f'), ('ff', 'ff', 'f'), ('fb', 'bf', 'f'), ('fhg', 'ghf')]
MAXR = {'quick': 60, 'thorough': 200}

WORKER = r'''
import os, sys, ctypes
sys.path[:0] = [%(native)r, %(repo)r]
import numpy as np, hermipy as hm
fin, fout = int(os.environ['FS_IN']), int(os.environ['FS_OUT'])
lib = ctypes.CDLL(None); step = lib.fsstep
def ask(s):
    os.write(fout, (s + '\n').encode())
    while os.read(fin, 1) not in (b'\n', b''): pass
q = hm.Quad.gauss_hermite(3, dirs=[0])
x = np.ravel(q.nodes[0])
E = %(expr)r
V = {'f': x*x + .5, 'g': np.cos(x) - x, 'h': x*x + 1/3}
ask('ready\t\t')
res = 'right'
for c in sys.argv[1]:
    ask('call\t' + c + '\t')
    step(1)
    try:
        r = hm.core.discretize(%(call)s)
        ok = c != 'b' and np.shape(r) == np.shape(V[c]) and np.allclose(r, V[c], rtol=1e-12, atol=1e-12)
        k = 'right' if ok else 'wrong'
    except Exception as e: k = 'right' if c == 'b' else 'raised ' + type(e).__name__ + ' ' + str(e).replace('\n', ' ').replace('\t', ' ')[:80]
    step(0)
    if k != 'right': res = k; break
ask('result\t' + res + '\t')
''' % {'native': '@NATIVE@', 'repo': '@REPO@', 'expr': {'f': 'v[0]*v[0] + 0.5', 'g': 'cos(v[0]) - v[0]', 'h': 'v[0]*v[0] + 1.0/3', 'b': 'v[0]*undeclared'}, 'call': 'E[c], q.nodes, np.zeros(1), np.eye(1)'}

class Unsupported(Exception): pass

class Proc:
    """a real process, stopped before each of its file operations"""
    def __init__(self, env, role):
        self.env, self.role = env, role
        ri, wi = os.pipe(); ro, wo = os.pipe()
        e = dict(os.environ, LD_PRELOAD=env.so, FS_IN=str(ri), FS_OUT=str(wo), SYMRT_SCRATCH=env.dir, HOME=env.dir, PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg', OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1')
        e.pop('TMPDIR', None)
        self.p = subprocess.Popen(['/usr/bin/python3', '-c', env.script, role], env=e, pass_fds=(ri, wo), stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, cwd=env.dir, start_new_session=True)
        os.close(ri); os.close(wo)
        self.w, self.r, self.buf = wi, ro, b''
        self.trace = []; self.cur = None; self.result = None; self.sub = None; self.pend = None; self.wrote = False
    def line(self, timeout=60):
        while b'\n' not in self.buf:
            rr, _, _ = select.select([self.r], [], [], timeout)
            if not rr: raise Unsupported('a process does not announce its next operation')
            b = os.read(self.r, 65536)
            if not b: return None
            self.buf += b
        l, self.buf = self.buf.split(b'\n', 1)
        return l.decode(errors='replace').split('\t')
    def go(self, s='go'): os.write(self.w, (s + '\n').encode())
    def start(self):
        l = self.line(120)
        if not l or l[0] != 'ready': raise Unsupported('worker failed to start')
        self.go(); self.advance()
    def advance(self):
        """to the next operation"""
        while True:
            l = self.line()
            if l is None: self.result = 'died'; self.pend = None; return
            if l[0] == 'call': self.cur = l[1]; self.go(); continue
            if l[0] == 'result': self.result = l[1]; self.pend = None; self.go(); return
            if l[0] == 'other': raise Unsupported(' '.join(l))
            if l[0] in ('append', 'link'): raise Unsupported(l[0])
            self.pend = l; self.sub = None
            return
    def real(self, n): return self.env.dir + '/' + n[5:]
    def micro(self):
        """one step; returns when the next one is known"""
        op, a, b = (self.pend + ['', ''])[:3]
        if op == 'system':
            if self.sub is None: self.sub = [command(a), 0, None]
            ins, k, st = self.sub
            i = ins[k]; ok = True
            if i[0] == 'c1':
                try: self.sub[2] = open(self.real(i[1]), 'rb').read()
                except OSError: self.sub[2] = None
            elif i[0] == 'c2':
                obj = self.env.compile(st, i[2])
                out = self.real(i[1])
                if os.path.exists(out): os.unlink(out)
                if obj is None: ok = False
                else:
                    self.sub[2] = (os.open(out, os.O_CREAT | os.O_WRONLY | os.O_EXCL, 0o755), obj)
                    os.write(self.sub[2][0], obj[:len(obj) // 2])
            elif i[0] == 'c3': os.write(st[0], st[1][len(st[1]) // 2:]); os.close(st[0])
            elif i[0] == 'mv':
                try: os.rename(self.real(i[1]), self.real(i[2]))
                except OSError: ok = False
            elif i[0] == 'rm':
                try: os.unlink(self.real(i[1]))
                except OSError: ok = i[2]
            self.sub[1] += 1
            if ok and self.sub[1] < len(ins): return
            self.trace.append(('system', a, '', int(ok), self.cur))
            self.go('ret 0' if ok else 'ret 1'); self.advance(); return
        before = set(os.listdir(self.env.dir)) if op == 'mkstemp' else None
        content = None
        if op == 'dlopen':
            try: content = open(self.real(a), 'rb').read()
            except OSError: content = None
        self.go()
        l = self.line()
        if l is None:
            self.trace.append((op, a, b, 0, self.cur)); self.result = 'died'; self.pend = None; return
        out = int(l[1])
        if op == 'mkstemp':
            new = set(os.listdir(self.env.dir)) - before
            if len(new) != 1: raise Unsupported('mkstemp')
            a = '/tmp/' + new.pop()
        if op == 'dlopen' and out: out = 1 if self.env.obj_of.get(hashlib.sha1(content).digest()) == self.cur else 2
        if op == 'openw' and not out: raise Unsupported('a file cannot be opened for writing')
        self.trace.append((op, a, b, out, self.cur))
        self.advance()
    def kill(self):
        try: os.killpg(self.p.pid, signal.SIGKILL)
        except ProcessLookupError: pass
        self.p.wait(); os.close(self.w); os.close(self.r)

def command(c):
    """the steps of a shell command: compiler runs, mv, rm"""
    if re.search(r'[;|`$]|\bif\b', c): raise Unsupported('command: ' + c)
    out = []
    for seg in c.split('&&'):
        w = [x for x in shlex.split(seg) if not re.match(r'\d*[<>]', x)]
        if not w: raise Unsupported('command: ' + c)
        t = os.path.basename(w[0])
        if t in ('c++', 'g++', 'gcc', 'cc', 'clang', 'clang++') or re.match(r'(g\+\+|gcc|clang|clang\+\+)-\d+$', t):
            src = [x for x in w[1:] if x.endswith(('.cpp', '.c', '.cc'))]
            if '-o' not in w or len(src) != 1: raise Unsupported('command: ' + c)
            o = w[w.index('-o') + 1]
            if not (o.startswith('/tmp/') and src[0].startswith('/tmp/')): raise Unsupported('command: ' + c)
            fl = tuple(x for x in w[1:] if x.startswith('-') and x != '-o')
            out += [('c1', src[0]), ('c2', o, fl), ('c3', o)]
        elif t == 'mv': f = [x for x in w[1:] if not x.startswith('-')]; out.append(('mv', f[0], f[1]))
        elif t == 'rm': out += [('rm', x, '-f' in w) for x in w[1:] if not x.startswith('-')]
        else: raise Unsupported('command: ' + c)
    return out

class Env:
    def __init__(self, run, native):
        self.run = run
        self.so = run.out + '/fsstep.so'
        self.script = WORKER.replace('@NATIVE@', native).replace('@REPO@', build.REPO)
        self.cache, self.obj_of, self.n, self.runs = {}, {}, 0, 0
        self.dir = None
    def compile(self, src, fl):
        if src is None: return None
        k = (src, fl)
        if k not in self.cache:
            d = self.run.scratch('cc')
            with open(d + '/a.cpp', 'wb') as f: f.write(src)
            p = subprocess.run(['g++', *fl, d + '/a.cpp', '-o', d + '/a.so'], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            self.cache[k] = open(d + '/a.so', 'rb').read() if p.returncode == 0 and b'toIntegrate' in open(d + '/a.so', 'rb').read() else None
        return self.cache[k]
    def execute(self, roles, schedule, finish=None):
        """runs the schedule with real processes; `finish` then goes on alone.  Returns traces and results."""
        self.n += 1; self.runs += 1
        self.dir = self.run.scratch('x%d' % self.n)
        ps = [Proc(self, r) for r in roles]
        try:
            for p in ps: p.start()
            for w in schedule:
                if ps[w].result is None: ps[w].micro()
            if finish is not None:
                n = 0
                while ps[finish].result is None:
                    n += 1
                    if n > 200: raise Unsupported('a process does not finish')
                    ps[finish].micro()
            return [(p.trace, p.result) for p in ps]
        finally:
            for p in ps: p.kill()
            shutil.rmtree(self.dir, ignore_errors=True)

class Trees:
    """one tree of operations per role"""
    def __init__(self): self.t = {}
    def add(self, role, tr1, res1, tr2, res2):
        """two runs of the same schedule: names that differ between them belong to the process"""
        ops = lambda t: [(x[0], x[3], x[4]) for x in t]
        if ops(tr1) != ops(tr2) or (res1 or '').split(' ')[0] != (res2 or '').split(' ')[0]: raise Unsupported('two runs of one schedule differ: %s %s / %s %s' % (ops(tr1), res1, ops(tr2), res2))
        priv = {}
        def canon(a, b):
            if a == b: return ('S', a)
            return ('P', priv.setdefault(a, len(priv)))
        nodes = self.t.setdefault(role, [])
        prev = None
        for i, ((op, a1, b1, out, cur), (_, a2, b2, _, _)) in enumerate(zip(tr1, tr2)):
            if op == 'system':
                c1, c2 = command(a1), command(a2)
                ins = []
                for u, v in zip(c1, c2):
                    if u[0] in ('mv',): ins.append(('mv', canon(u[1], v[1]), canon(u[2], v[2])))
                    elif u[0] == 'rm': ins.append(('rm', canon(u[1], v[1]), u[2]))
                    else: ins.append((u[0], canon(u[1], v[1])))
            elif op == 'rename': ins = [('rename', canon(a1, a2), canon(b1, b2))]
            elif op == 'write':
                last = i + 1 == len(tr1) or tr1[i + 1][0] != 'write'
                ins = [('write', canon(a1, a2), last)]
            elif op == 'close':
                ins = [('close', canon(a1, a2), tr1[i - 1][0] in ('openw', 'creat', 'mkstemp'))]
            else: ins = [(op, canon(a1, a2))]
            nid = self.child(nodes, prev)
            if nid is None:
                nid = len(nodes); nodes.append({'ins': ins, 'cur': cur, 'ch': {}, 'leaf': None})
                self.link(nodes, prev, nid)
            elif nodes[nid]['ins'] is None or [x[0] for x in nodes[nid]['ins']] != [x[0] for x in ins]: raise Unsupported('the operations depend on more than their outcomes')
            prev = (nid, out)
        if res1 is not None:
            nid = self.child(nodes, prev)
            if nid is None:
                nid = len(nodes); nodes.append({'ins': None, 'cur': None, 'ch': {}, 'leaf': res1.split(' ')[0], 'detail': res1}); self.link(nodes, prev, nid)
    def child(self, nodes, prev):
        if prev is None: return 0 if nodes else None
        return nodes[prev[0]]['ch'].get(prev[1])
    def link(self, nodes, prev, nid):
        if prev is not None: nodes[prev[0]]['ch'][prev[1]] = nid

OUTS = {'test': (0, 1), 'openw': (1,), 'creat': (0, 1), 'mkstemp': (1,), 'mkdtemp': (1,), 'write': (1,), 'close': (0,), 'rename': (0, 1), 'unlink': (0, 1), 'mkdir': (0, 1), 'dlopen': (0, 1, 2), 'c1': (0, 1), 'mv': (0, 1), 'rm': (0, 1)}
FN = 'fghb'

def solve(trees, roles, st, avoid, timeout):
    """a schedule that reaches an unknown outcome or a result that is not right, or None"""
    import z3
    W = 7
    bv = lambda k: z3.BitVecVal(k, W)
    P = range(len(roles))
    # program counters: (node, micro index); leaves; unknown outcomes
    pcs, bad, unk, names, inodes, depth = [], [], [], {}, 0, []
    tmap = [trees.t[r] for r in roles]
    for p in P:
        ids = {}
        for n, nd in enumerate(tmap[p]):
            for k in range(len(nd['ins']) if nd['ins'] is not None else 1): ids[n, k] = len(ids)
        for n, nd in enumerate(tmap[p]):
            if nd['ins'] is None: continue
            for o in (0, 1) if len(nd['ins']) > 1 or nd['ins'][0][0] in ('mv', 'rm') else OUTS[nd['ins'][0][0]]:
                if o not in nd['ch']: ids['unk', n, o] = len(ids)
        pcs.append(ids)
        def dep(n):
            nd = tmap[p][n]
            if nd['ins'] is None: return 0
            return len(nd['ins']) + max([dep(c) for c in nd['ch'].values()] or [0])
        depth.append(dep(0))
        for nd in tmap[p]:
            for i in nd['ins'] or ():
                for x in i[1:]:
                    if isinstance(x, tuple) and len(x) == 2 and x[0] in 'SP': names.setdefault(x if x[0] == 'S' else (p, x[1]), len(names))
    nm = lambda p, x: names[x if x[0] == 'S' else (p, x[1])]
    creators = {}
    for p in P:
        for n, nd in enumerate(tmap[p]):
            for k, i in enumerate(nd['ins'] or ()):
                if i[0] in ('openw', 'creat', 'mkstemp', 'mkdir', 'c2'): creators[p, n, k] = len(creators) + 1
    NI = len(creators) + 1
    if NI > 120 or max(len(x) for x in pcs) > 120: raise Unsupported('too many operations')
    T = sum(depth)
    private = [{(n, k) for n, nd in enumerate(tmap[p]) for k, i in enumerate(nd['ins'] or ()) if all(not (isinstance(x, tuple) and x[0] == 'S') for x in i[1:]) or i[0] == 'close' and not i[2]} for p in P]
    S = {('pc', p): bv(0) for p in P}
    for i in range(len(names)): S['ino', i] = bv(0)
    for i in range(1, NI): S['cont', i] = bv(0); S['own', i] = bv(0)
    for p in P: S['latch', p] = bv(0); S['fd', p] = bv(0)
    A = []                                                  # assertions
    def look(st_, what, ix):
        r = bv(0)
        for i in range(1, NI): r = z3.If(ix == i, st_[what, i], r)
        return r
    src = lambda c: bv(1 + FN.index(c)); obj = lambda c: bv(11 + FN.index(c))
    whos = []
    for t in range(T):
        who = z3.BitVec('who%d' % t, W); whos.append(who)
        A.append(z3.ULE(who, len(roles)))                  # len(roles): nobody, from here on
        if t:
            A.append(z3.Implies(whos[t - 1] == len(roles), who == len(roles)))
            for p in P:
                # operations on names of the process itself commute with everything others do: they follow at once
                own = [i for key, i in pcs[p].items() if key in private[p]]
                if own: A.append(z3.Implies(z3.And(whos[t - 1] == p, z3.Or([S['pc', p] == i for i in own])), z3.Or(who == p, who == len(roles))))
        for p in P:
            if p and roles[p] == roles[p - 1]: A.append(z3.Implies(who == p, z3.Or([w == p - 1 for w in whos[:t]] or [False])))
        N = dict(S)
        def setv(v, cond, val): N[v] = z3.If(cond, val, N[v])
        for p in P:
            ids = pcs[p]
            for n, nd in enumerate(tmap[p]):
                if nd['ins'] is None: continue
                L = len(nd['ins'])
                tgt = lambda o: bv(ids[(nd['ch'][o], 0)] if o in nd['ch'] else ids['unk', n, o])
                for k, i in enumerate(nd['ins']):
                    g = z3.And(who == p, S['pc', p] == ids[n, k])
                    op = i[0]; multi = L > 1 or op in ('mv', 'rm', 'c1')
                    a = nm(p, i[1])
                    ino = S['ino', a]
                    nxt = (bv(ids[n, k + 1]) if k + 1 < L else tgt(1)) if multi else None
                    def create(cond):
                        c = creators[p, n, k]
                        setv(('ino', a), cond, bv(c)); setv(('cont', c), cond, bv(0)); setv(('own', c), cond, bv(p))
                        return bv(c)
                    if op in ('test',): npc = z3.If(ino != 0, tgt(1), tgt(0))
                    elif op in ('openw', 'creat', 'mkstemp', 'mkdir'):
                        fresh = z3.And(g, ino == 0) if op != 'mkstemp' else g
                        c = create(fresh)
                        if op == 'openw':
                            old = z3.And(g, ino != 0)
                            for q in range(1, NI):
                                setv(('cont', q), z3.And(old, ino == q), bv(0)); setv(('own', q), z3.And(old, ino == q), bv(p))
                            setv(('fd', p), g, z3.If(ino == 0, c, ino)); npc = tgt(1)
                        elif op == 'mkstemp': setv(('fd', p), g, c); npc = tgt(1)
                        else: setv(('fd', p), fresh, c); npc = z3.If(ino == 0, tgt(1), tgt(0))
                    elif op == 'mkdtemp': npc = tgt(1)
                    elif op == 'write' or op == 'close':
                        if op == 'write' or i[2]:
                            fd = S['fd', p]
                            for q in range(1, NI):
                                if op == 'close' or i[2]: setv(('cont', q), z3.And(g, fd == q), z3.If(S['own', q] == p, src(nd['cur']), bv(0)))
                                else: setv(('cont', q), z3.And(g, fd == q), bv(0))
                        npc = tgt(1) if op == 'write' else tgt(0)
                    elif op in ('rename', 'mv'):
                        b = nm(p, i[2])
                        ok = z3.And(g, ino != 0)
                        setv(('ino', b), ok, ino)
                        if a != b: setv(('ino', a), ok, bv(0))
                        npc = z3.If(ino != 0, nxt if multi else tgt(1), tgt(0))
                    elif op in ('unlink', 'rm'):
                        setv(('ino', a), g, bv(0))
                        npc = z3.If(ino != 0, tgt(1), tgt(0)) if op == 'unlink' else (nxt if i[2] else z3.If(ino != 0, nxt, tgt(0)))
                    elif op == 'c1':
                        setv(('latch', p), g, z3.If(ino == 0, bv(0), look(S, 'cont', ino))); npc = nxt
                    elif op == 'c2':
                        l = S['latch', p]
                        good = z3.Or([l == src(c) for c in FN if c != 'b'])
                        setv(('ino', a), z3.And(g, z3.Not(good)), bv(0))
                        c = create(z3.And(g, good)); setv(('fd', p), z3.And(g, good), c)
                        npc = z3.If(good, nxt, tgt(0))
                    elif op == 'c3':
                        fd = S['fd', p]
                        for q in range(1, NI): setv(('cont', q), z3.And(g, fd == q), S['latch', p] + bv(10))
                        npc = nxt
                    elif op == 'dlopen':
                        c = z3.If(ino == 0, bv(0), look(S, 'cont', ino))
                        npc = z3.If(c == obj(nd['cur']), tgt(1), z3.If(z3.UGE(c, bv(11)), tgt(2), tgt(0)))
                    else: raise Unsupported(op)
                    setv(('pc', p), g, npc)
        S2 = {}
        for v in N:
            if N[v] is S[v]: S2[v] = S[v]; continue
            x = z3.BitVec('%s_%s_%d' % (v[0], v[1], t + 1), W)
            A.append(x == N[v]); S2[v] = x
        S = S2
    goals = []
    for p in P:
        for key, i in pcs[p].items():
            if key[0] == 'unk': goals.append((p, i, ('unknown',) + key[1:]))
            elif tmap[p][key[0]]['ins'] is None and tmap[p][key[0]]['leaf'] != 'right': goals.append((p, i, ('bad', tmap[p][key[0]]['detail'])))
    goals = [x for x in goals if (roles[x[0]], x[2]) not in avoid]
    t0 = time.time()
    st['steps'] = max(st['steps'], T); st['obligations'] += len(goals)
    found = None
    for kind in ('bad', 'unknown'):
        gs = [x for x in goals if x[2][0] == kind]
        if not gs: continue
        s = z3.SolverFor('QF_BV'); s.set('timeout', 1000 * timeout); s.add(*A); s.add(z3.Or([S['pc', p] == i for p, i, _ in gs]))
        st['queries'] += 1
        r = s.check(); st[str(r)] += 1
        if r == z3.unknown: raise TimeoutError
        if r == z3.sat:
            m = s.model()
            sch = [m.eval(w, model_completion=True).as_long() for w in whos]
            for p, i, what in gs:
                if m.eval(S['pc', p], model_completion=True).as_long() == i: found = (p, what, [w for w in sch if w < len(roles)]); break
        if found: break
    # the system can run at all: every process finishes
    if not found:
        s = z3.SolverFor('QF_BV'); s.set('timeout', 1000 * timeout); s.add(*A); s.add(*[z3.Or([S['pc', p] == i for k, i in pcs[p].items() if k[0] != 'unk' and tmap[p][k[0]]['ins'] is None]) for p in P])
        st['queries'] += 1; r = s.check(); st[str(r)] += 1; st['witness'] += r == z3.sat
    st['solver_s'] += time.time() - t0
    return found

def main(tier):
    run = harness.Run('C35', tier)
    try: return main_(run, tier)
    finally: run.cleanup()

def setup(run):
    native = run.plain()
    build.run(['gcc', '-O2', '-fPIC', '-shared', '-w', os.path.dirname(HERE) + '/engine/fsstep.c', '-o', run.out + '/fsstep.so', '-ldl'])
    return Env(run, native)

def main_(run, tier):
    sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
    env = setup(run)
    st = {'queries': 0, 'sat': 0, 'unsat': 0, 'unknown': 0, 'solver_s': 0.0, 'obligations': 0, 'witness': 0, 'steps': 0}
    confs = CONF + (CONF_T if tier != 'quick' else [])
    trees = Trees(); rounds = 0; decided = []; avoid = set()
    try:
        # the object each function compiles to, alone
        for c in 'fgh':
            env.dir = None
            r = probe(env, c)
            if r != 'right': raise Unsupported('a single undisturbed discretisation does not succeed under control: %s' % r)
        for r in sorted({r for c in confs for r in c}):
            x, y = env.execute([r], [], 0), env.execute([r], [], 0)
            trees.add(r, *x[0], *y[0])
        todo = list(confs); limit = 500 if tier == 'quick' else 2400
        ctx = multiprocessing.get_context('fork')
        while todo and len(run.violations) < 3:
            left = limit - (time.time() - run.t0)
            if left < 10:
                for roles in todo: run.inconcl.append({'case': {'roles': roles}, 'why': 'time'})
                break
            jobs = []
            for roles in sorted(todo, key=lambda c: -len(''.join(c))):
                q = ctx.SimpleQueue()
                pr = ctx.Process(target=one, args=(trees, roles, avoid, q, 240 if tier == 'quick' else 900), daemon=True)
                jobs.append([roles, q, pr, None])
            running, wait, done = [], jobs[:], []
            while wait or running:
                while wait and len(running) < 8: wait[0][2].start(); running.append(wait.pop(0))
                for j in running[:]:
                    if not j[1].empty(): j[3] = j[1].get()
                    elif j[2].is_alive() and time.time() - run.t0 < limit + 60: continue
                    else: j[3] = j[3] or ('gave up', None, {})
                    if j[2].is_alive(): j[2].kill()
                    j[2].join(); running.remove(j); done.append(j)
                time.sleep(.02)
            nxt, seen = [], set()
            for roles, _, _, (status, f, s1) in done:
                for k, v in s1.items(): st[k] = max(st[k], v) if k == 'steps' else st[k] + v
                if status != 'ok': run.inconcl.append({'case': {'roles': roles}, 'why': 'solver: ' + status}); continue
                if f is None: decided.append(roles); continue
                nxt.append(roles)
                p, what, sch = f
                if (roles[p], what) in seen or what[0] == 'unknown' and known(trees.t[roles[p]], what) or len(run.violations) >= 3: continue
                seen.add((roles[p], what))
                rounds += 1
                if rounds > MAXR[tier]: raise Unsupported('too many outcomes to explore')
                x, y = env.execute(roles, sch, p), env.execute(roles, sch, p)
                for k, r in enumerate(roles): trees.add(r, *x[k], *y[k])
                res = x[p][1]
                case = {'roles': list(roles), 'schedule': sch, 'process': p}
                if res != 'right' and y[p][1] != 'right':
                    run.report({'roles': list(roles), 'what': res.split(' ')[0]}, {'detail': '%s: process %d ends with: %s' % (show(roles, sch), p, res), 'inputs': case}, 'solver model: a schedule that ends badly')
                    nxt.remove(roles)
                elif what[0] == 'bad' or not known(trees.t[roles[p]], what):
                    run.inconcl.append({'case': case, 'why': 'model and real processes differ at ' + str(what)})
                    avoid.add((roles[p], what))
            todo = nxt
    except Unsupported as e: run.inconcl.append({'case': {}, 'why': 'unsupported: ' + str(e)})
    cov = {'explanation': 'The tree of file operations of intern_function / discretize_from_string (with the branches on every outcome) is taken from controlled runs of the real code; '
           'z3 decides over all schedules of the processes, crashes at every step included, whether any of them ends with a function that is not the requested one or fails; counterexamples and unknown outcomes are executed with real processes.',
           'functions_encoded_native': ['intern_function', 'discretize_from_string'], 'functions_encoded_python': ['core.discretize'],
           'bounds': {'processes': '2..%d' % max(map(len, confs)), 'calls per process': '1..%d' % max(len(r) for c in confs for r in c), 'schedules': 'all, up to %d steps; a process may stop for good after any step' % st['steps'],
                      'compiler': 'contract: reads the source at one moment, unlinks the output, writes a partial one, completes it; fails on an incomplete source and then removes the output', 'outside': 'collisions of the 64-bit hash, threads of one process, file systems without atomic rename, the cache of hermipy.cache (C17)'},
           'configurations': len(confs), 'configurations_executed': len(decided), 'decided': decided, 'operations': {r: [show_node(n) for n in t] for r, t in trees.t.items()},
           'real_runs': env.runs, 'exploration_rounds': rounds, 'queries': st['queries'], 'queries_unsat': st['unsat'], 'queries_sat': st['sat'], 'queries_unknown': st['unknown'], 'solver_s': round(st['solver_s'], 2),
           'obligations': st['obligations'], 'reachability_witnesses_sat': st['witness'], 'inconclusive': run.inconcl[:20], 'inconclusive_count': len(run.inconcl)}
    if os.environ.get('VERIF_DEBUG'): print(json.dumps(cov, indent=1, default=str))
    return run.finish(cov, ['the compiler behaves as stated under bounds', 'operations on files below /tmp are those intercepted by engine/fsstep.c'] )

def probe(env, c):
    """runs one discretisation alone and remembers the object"""
    env.n += 1; env.dir = env.run.scratch('x%d' % env.n)
    p = Proc(env, c)
    try:
        p.start(); n = 0
        while p.result is None and n < 200:
            n += 1
            known_ = set(env.cache)
            p.micro()
            for k in set(env.cache) - known_:
                if env.cache[k] is not None: env.obj_of[hashlib.sha1(env.cache[k]).digest()] = c
        return p.result
    finally: p.kill(); shutil.rmtree(env.dir, ignore_errors=True)
def known(nodes, what): return what[2] in nodes[what[1]]['ch'] if what[0] == 'unknown' else True
def one(trees, roles, avoid, q, timeout):
    st = {'queries': 0, 'sat': 0, 'unsat': 0, 'unknown': 0, 'solver_s': 0.0, 'obligations': 0, 'witness': 0, 'steps': 0}
    try: q.put(('ok', solve(trees, roles, st, avoid, timeout), st))
    except TimeoutError: q.put(('gave up', None, st))
    except Unsupported as e: q.put(('unsupported: ' + str(e), None, st))
def show(roles, sch):
    return 'processes %s, steps in the order %s' % (', '.join('%d discretises %s' % (i, ' then '.join(EXPR[c] for c in r)) for i, r in enumerate(roles)), ' '.join(map(str, sch)))
def show_node(n): return n['leaf'] if n['ins'] is None else {'steps': [[str(x) for x in i] for i in n['ins']], 'outcomes': n['ch']}
def replay(run, f):
    env = setup(run); i = f['inputs']
    for c in 'fgh': probe(env, c)
    r = env.execute(i['roles'], i['schedule'], i['process'])[i['process']][1]
    return None if r == 'right' else {'detail': r}

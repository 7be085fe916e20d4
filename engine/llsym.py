"""Symbolic execution of LLVM IR text: integers are Python ints or z3 bit-vectors, pointers are
(object, offset), memory is a map of cells, doubles are Python floats or integer-valued bit-vectors.
Branches on symbolic conditions are decided by z3; a run follows one path, `explore` follows them all
(depth first, by re-execution)."""
import re, math, struct, time, subprocess
import z3

class Unsupported(Exception): pass
class Throw(Exception): pass
class Exit(Exception): pass
class UB(Exception): pass
class Undef:
    def __repr__(self): return 'undef'
UNDEF = Undef()
class Choice:
    """a pointer that depends on the input: [(condition, pointer)]"""
    __slots__ = ('alts',)
    def __init__(self, alts): self.alts = alts
class SD:
    """integer-valued double, as a 64-bit value"""
    __slots__ = ('b',)
    def __init__(self, b): self.b = b

TOK = re.compile(r'[%@]"[^"]*"|[%@][\w.$-]+|c?"[^"]*"|0x[KHLMR]?[0-9A-Fa-f]+|-?\d+\.\d+(?:e[+-]?\d+)?|-?\d+|[A-Za-z_][\w.]*|\.\.\.|[()\[\]{}<>,=*]|![\w.]*|#\d+|\|')
INT = re.compile(r'i(\d+)$')
BINOPS = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr'}
FBIN = {'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
CASTS = {'zext', 'sext', 'trunc', 'uitofp', 'sitofp', 'fptoui', 'fptosi', 'ptrtoint', 'inttoptr', 'bitcast', 'fpext', 'fptrunc', 'freeze'}
FLAGS = {'nuw', 'nsw', 'exact', 'inbounds', 'disjoint', 'nneg', 'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'volatile', 'samesign', 'nusw', 'inrange'}

class P:
    """token stream"""
    def __init__(self, mod, s): self.t = TOK.findall(s); self.i = 0; self.mod = mod
    def peek(self): return self.t[self.i] if self.i < len(self.t) else None
    def next(self): self.i += 1; return self.t[self.i - 1]
    def eat(self, x):
        if self.peek() == x: self.i += 1; return True
        return False
    def want(self, x):
        if not self.eat(x): raise Unsupported('parse: wanted %s in %s' % (x, self.t))
    def type(self):
        t = self.next()
        if t == '{' or (t == '<' and self.peek() == '{'):
            packed = t == '<'
            if packed: self.next()
            fs = []
            while not self.eat('}'):
                fs.append(self.type()); self.eat(',')
            if packed: self.want('>')
            r = ('struct', tuple(fs), packed)
        elif t in '[<':
            n = int(self.next()); self.want('x'); e = self.type(); self.next()
            r = ('arr' if t == '[' else 'vec', n, e)
        elif t[0] == '%': r = ('named', t)
        else:
            m = INT.match(t)
            r = ('int', int(m.group(1))) if m else (t,)
        if self.peek() == '(' and r[0] in ('void', 'int', 'ptr', 'named', 'double'):      # function type
            d = 0
            while True:
                x = self.next(); d += (x == '(') - (x == ')')
                if d == 0: break
        return r
    def skip_attrs(self):
        while self.i < len(self.t):
            t = self.t[self.i]
            if t[0] in '%@"{[<-' or t[0].isdigit() or t in ('true', 'false', 'null', 'undef', 'poison', 'zeroinitializer', 'getelementptr', 'inttoptr', 'ptrtoint', 'none', 'c', ',', ')') or t.startswith('c"'): return
            self.i += 1
            if t == 'align' and self.peek() and self.peek().isdigit(): self.i += 1
            if self.peek() == '(':
                d = 0
                while True:
                    x = self.next(); d += (x == '(') - (x == ')')
                    if d == 0: break
    def value(self, ty):
        """('r', name) or ('k', constant)"""
        t = self.next()
        if t[0] == '%': return ('r', t)
        if t[0] == '@': return ('k', self.mod.addr(t))
        if t == 'true': return ('k', 1)
        if t == 'false': return ('k', 0)
        if t in ('null', 'none'): return ('k', (0, 0))
        if t in ('undef', 'poison'): return ('k', UNDEF)
        if t == 'zeroinitializer': return ('k', self.mod.zero(ty))
        if t == 'getelementptr':
            while self.peek() in FLAGS:
                if self.next() == 'inrange' and self.peek() == '(':
                    while self.next() != ')': pass
            self.want('(')
            base = self.type(); self.want(',')
            vs = []
            while True:
                self.eat('inrange')
                ty2 = self.type(); vs.append((ty2, self.value(ty2)))
                if not self.eat(','): break
            self.want(')')
            obj, off = vs[0][1][1]
            st, terms = self.mod.gep(base, [(a, b[1]) for a, b in vs[1:]])
            for v, scale in terms: st += v * scale
            return ('k', (obj, off + st))
        if t in ('inttoptr', 'ptrtoint', 'bitcast', 'trunc', 'zext'):
            self.want('('); a = self.type(); v = self.value(a); self.want('to'); self.type(); self.want(')')
            return v
        if t in '{[<':
            close = {'{': '}', '[': ']', '<': '>'}[t]
            out = []
            if t == '<' and self.peek() == '{': self.next(); close = '}'
            while not self.eat(close):
                ty2 = self.type(); out.append(self.value(ty2)[1]); self.eat(',')
            if t == '<' and close == '}': self.want('>')
            return ('k', out)
        if t.startswith('c"'): return ('k', [b for b in cstr(t[2:-1])])
        if t.startswith('0x'):
            h = t[2:]
            if h[0] in 'KHLMR': return ('k', UNDEF)
            v = struct.unpack('>d', bytes.fromhex(h.zfill(16)))[0]
            return ('k', v)
        if ty[0] == 'int': return ('k', int(t) & ((1 << ty[1]) - 1))
        if ty[0] in ('double', 'float'): return ('k', float(t))
        if ty[0] == 'ptr' and re.match(r'-?\d+$', t): return ('k', (0, int(t)))
        raise Unsupported('value %s of type %s' % (t, ty))

def cstr(s):
    out, i = [], 0
    while i < len(s):
        if s[i] == '\\': out.append(int(s[i + 1:i + 3], 16)); i += 3
        else: out.append(ord(s[i])); i += 1
    return out

class Fn:
    __slots__ = ('name', 'args', 'blocks', 'order', 'nregs', 'template', 'instrs')

class Module:
    def __init__(self, text):
        self.types, self.gtext, self.ftext, self.decl = {}, {}, {}, set()
        self.names, self.layouts, self.fns, self.gobj = {}, {}, {}, {}
        cur = None
        for line in text.split('\n'):
            if cur is not None:
                if line == '}': cur = None
                else: self.ftext[cur][1].append(line)
            elif line.startswith('define'):
                m = re.search(r'(@"[^"]+"|@[\w.$-]+)\(', line)
                cur = m.group(1); self.ftext[cur] = (line, [])
            elif line.startswith('%'):
                k, v = line.split(' = type ', 1)
                self.types[k] = v
            elif line.startswith('@'):
                m = re.match(r'(@"[^"]+"|@[\w.$-]+) = (.*)', line)
                if m: self.gtext[m.group(1)] = m.group(2)
            elif line.startswith('declare'):
                m = re.search(r'(@"[^"]+"|@[\w.$-]+)\(', line)
                if m: self.decl.add(m.group(1))
        self.tcache = {}
        self.alias = {}
        for g, t in self.gtext.items():
            m = re.search(r'\balias\b.*?, ptr (@"[^"]+"|@[\w.$-]+)', t)
            if m: self.alias[g] = m.group(1)
        syms = sorted(set(self.ftext) | self.decl)
        p = subprocess.run(['c++filt'], input='\n'.join(s[1:].strip('"') for s in syms).encode(), stdout=subprocess.PIPE)
        self.dem = dict(zip(syms, p.stdout.decode().split('\n')))
        self.by_dem = {}
        for k, v in self.dem.items():
            if k in self.ftext: self.by_dem.setdefault(v, k)
        self.gid = {}
    def addr(self, g):
        g = self.alias.get(g, g)
        if g not in self.gid: self.gid[g] = 'G' + g
        return (self.gid[g], 0)
    def resolve(self, ty):
        if ty[0] == 'named':
            if ty not in self.tcache:
                s = self.types[ty[1]]
                self.tcache[ty] = ('opaque',) if s == 'opaque' else P(self, s).type()
            return self.tcache[ty]
        return ty
    def size(self, ty):
        """(size, align)"""
        if ty in self.layouts: return self.layouts[ty]
        t = self.resolve(ty)
        if t[0] == 'int':
            b = (t[1] + 7) // 8; s = 1
            while s < b: s *= 2
            r = (s, min(s, 8) if s < 16 else 16)
        elif t[0] in ('ptr', 'double'): r = (8, 8)
        elif t[0] == 'float': r = (4, 4)
        elif t[0] == 'x86_fp80': r = (16, 16)
        elif t[0] in ('arr', 'vec'):
            s, a = self.size(t[2]); r = (s * t[1], a)
        elif t[0] == 'struct':
            off, al = 0, 1
            for f in t[1]:
                s, a = self.size(f)
                if t[2]: a = 1
                off = (off + a - 1) // a * a + s; al = max(al, a)
            r = ((off + al - 1) // al * al, al)
        else: r = (0, 1)
        self.layouts[ty] = r
        return r
    def field(self, t, k):
        off = 0
        for i, f in enumerate(t[1]):
            s, a = self.size(f)
            if t[2]: a = 1
            off = (off + a - 1) // a * a
            if i == k: return off, f
            off += s
        raise Unsupported('field')
    def gep(self, base, idx):
        """constant offset, [(index, scale)] ; idx: (type, constant or register)"""
        off, terms, ty = 0, [], None
        for n, (it, v) in enumerate(idx):
            if n == 0: ty = base; scale = self.size(base)[0]
            else:
                t = self.resolve(ty)
                if t[0] == 'struct':
                    o, ty = self.field(t, v); off += o; continue
                ty = t[2]; scale = self.size(ty)[0]
            if isinstance(v, int):
                w = it[1]
                if v >> (w - 1): v -= 1 << w
                off += v * scale
            else: terms.append((v, scale))
        return off, terms
    def zero(self, ty):
        t = self.resolve(ty)
        if t[0] == 'int': return 0
        if t[0] == 'ptr': return (0, 0)
        if t[0] in ('double', 'float'): return 0.0
        if t[0] in ('arr', 'vec'): return [self.zero(t[2])] * t[1]
        if t[0] == 'struct': return [self.zero(f) for f in t[1]]
        raise Unsupported('zero')
    def store_const(self, mem, off, ty, v):
        t = self.resolve(ty)
        if t[0] in ('arr', 'vec'):
            s = self.size(t[2])[0]
            for i in range(t[1]): self.store_const(mem, off + i * s, t[2], v[i])
        elif t[0] == 'struct':
            for i, f in enumerate(t[1]):
                o, ft = self.field(t, i); self.store_const(mem, off + o, ft, v[i])
        elif v is not UNDEF: mem[off] = (self.size(t)[0], v)
    def global_mem(self, gid):
        """cells of a global's initialiser"""
        g = gid[1:]
        s = self.gtext.get(g)
        if s is None: raise Unsupported('global %s' % g)
        m = re.search(r'\b(constant|global)\b', s)
        if not m or re.search(r'\bexternal\b', s[:m.start()]): raise Unsupported('external global %s' % g)
        p = P(self, s[m.end():])
        ty = p.type(); v = p.value(ty)[1]
        mem = {}
        self.store_const(mem, 0, ty, v)
        return mem
    # ---- functions
    def fn(self, name):
        if name in self.fns: return self.fns[name]
        head, body = self.ftext[name]
        f = Fn(); f.name = name
        regs, tmpl = {}, []
        def reg(n):
            if n not in regs: regs[n] = len(tmpl); tmpl.append(None)
            return regs[n]
        def opnd(v):
            if v[0] == 'r': return reg(v[1])
            tmpl.append(v[1]); return len(tmpl) - 1
        i = head.index(name + '(') + len(name)
        p = P(self, head[i:]); p.want('(')
        f.args = []; byval = []
        n = 0
        while not p.eat(')'):
            if p.eat('...'): continue
            ty = p.type()
            p.skip_attrs()
            t = p.peek()
            if t and t[0] == '%': p.next(); f.args.append(reg(t))
            else: f.args.append(reg('%%%d' % n))
            n += 1
            p.eat(',')
        # first block label
        blocks, order = {}, []
        first = None
        for l in body:
            m = re.match(r'("[^"]+"|[\w.$-]+):', l)
            if m: first = first or '%' + m.group(1); break
            if l.strip(): break
        label = None
        joined = []
        buf = ''
        depth_sw = False
        for l in body:
            s = l.split(' ; ')[0].rstrip() if ';' in l and '"' not in l else l.rstrip()
            if not s.strip(): continue
            m = re.match(r'("[^"]+"|[\w.$-]+):', s)
            if m: joined.append(('L', '%' + m.group(1))); continue
            st = s.strip()
            if buf:
                buf += ' ' + st
                if depth_sw and st == ']' or (depth_sw and st.startswith(']')): joined.append(('I', buf)); buf = ''; depth_sw = False
                elif not depth_sw and st.startswith('to label'): joined.append(('I', buf)); buf = ''
                continue
            if re.match(r'(%\S+ = )?invoke ', st): buf = st; depth_sw = False; continue
            if st.startswith('switch ') and ']' not in st: buf = st; depth_sw = True; continue
            if st.startswith(('cleanup', 'catch ', 'filter ')):
                joined[-1] = ('I', joined[-1][1] + ' ' + st); continue
            joined.append(('I', st))
        cur = None
        for k, s in joined:
            if k == 'L': cur = s; blocks[cur] = []; order.append(cur); continue
            if cur is None: cur = '%entry0'; blocks[cur] = []; order.append(cur)
            blocks[cur].append(s)
        if order[0] == '%entry0':
            # implicit label: the number after the arguments
            first = '%%%d' % n
            blocks[first] = blocks.pop('%entry0'); order[0] = first
        idx = {b: i for i, b in enumerate(order)}
        f.blocks = []
        for b in order: f.blocks.append([self.decode(s, reg, opnd, idx) for s in blocks[b]])
        f.template = tmpl
        self.fns[name] = f
        return f
    def decode(self, s, reg, opnd, idx):
        dest = None
        m = re.match(r'(%"[^"]+"|%[\w.$-]+) = (.*)', s)
        if m: dest = reg(m.group(1)); s = m.group(2)
        try: return self.decode1(s, dest, reg, opnd, idx)
        except (Unsupported, KeyError, IndexError, ValueError) as e: return ('bad', '%s: %r' % (s[:200], e))
    def decode1(self, s, dest, reg, opnd, idx):
        p = P(self, s)
        op = p.next()
        while op in ('tail', 'musttail', 'notail'): op = p.next()
        lab = lambda t: idx[t]
        if op in BINOPS or op in FBIN:
            while p.peek() in FLAGS: p.next()
            ty = p.type(); a = opnd(p.value(ty)); p.want(','); b = opnd(p.value(ty))
            if ty[0] == 'vec': raise Unsupported('vector')
            return ('bin', dest, op, a, b, ty[1] if ty[0] == 'int' else 0) if op in BINOPS else ('fbin', dest, op, a, b)
        if op == 'fneg':
            while p.peek() in FLAGS: p.next()
            ty = p.type(); return ('fneg', dest, opnd(p.value(ty)))
        if op in ('icmp', 'fcmp'):
            while p.peek() in FLAGS: p.next()
            pr = p.next(); ty = p.type(); a = opnd(p.value(ty)); p.want(','); b = opnd(p.value(ty))
            return (op, dest, pr, a, b, ty[1] if ty[0] == 'int' else 64)
        if op in CASTS:
            while p.peek() in FLAGS: p.next()
            ty = p.type(); a = opnd(p.value(ty))
            if op == 'freeze': return ('mov', dest, a)
            p.want('to'); t2 = p.type()
            return ('cast', dest, op, a, ty, t2)
        if op == 'br':
            if p.eat('label'): return ('jmp', lab(p.next()))
            ty = p.type(); c = opnd(p.value(ty)); p.want(','); p.want('label'); a = lab(p.next()); p.want(','); p.want('label')
            return ('br', c, a, lab(p.next()))
        if op == 'switch':
            ty = p.type(); v = opnd(p.value(ty)); p.want(','); p.want('label'); d = lab(p.next()); p.want('[')
            cs = []
            while not p.eat(']'):
                t = p.type(); k = p.value(t)[1]; p.want(','); p.want('label'); cs.append((k, lab(p.next())))
            return ('switch', v, d, cs, ty[1])
        if op == 'phi':
            ty = p.type(); d = {}
            while True:
                p.want('['); v = opnd(p.value(ty)); p.want(','); d[lab(p.next())] = v; p.want(']')
                if not p.eat(','): break
            return ('phi', dest, d)
        if op == 'ret':
            if p.peek() == 'void': return ('ret', None)
            ty = p.type(); return ('ret', opnd(p.value(ty)))
        if op == 'alloca':
            ty = p.type(); return ('alloca', dest)
        if op == 'load':
            while p.peek() in FLAGS or p.peek() == 'atomic': p.next()
            ty = p.type(); p.want(','); p.type(); a = opnd(p.value(('ptr',)))
            return ('load', dest, a, self.size(ty)[0], ty)
        if op == 'store':
            while p.peek() in FLAGS or p.peek() == 'atomic': p.next()
            ty = p.type(); v = opnd(p.value(ty)); p.want(','); p.type(); a = opnd(p.value(('ptr',)))
            return ('store', v, a, self.size(ty)[0], ty)
        if op == 'getelementptr':
            while p.peek() in FLAGS:
                p.next()
            base = p.type(); p.want(','); p.type(); b = opnd(p.value(('ptr',)))
            ix = []
            while p.eat(','):
                if p.peek() and p.peek().startswith('!'): break
                ty = p.type(); v = p.value(ty)
                ix.append((ty, v[1] if v[0] == 'k' else (v, ty)))
            off, terms = self.gep(base, ix)
            return ('gep', dest, b, off, [(opnd(v[0]), sc, v[1][1]) for v, sc in terms])
        if op == 'select':
            while p.peek() in FLAGS: p.next()
            ct = p.type(); c = opnd(p.value(ct)); p.want(','); t = p.type(); a = opnd(p.value(t)); p.want(','); t = p.type(); b = opnd(p.value(t))
            return ('select', dest, c, a, b)
        if op in ('call', 'invoke'):
            m = re.search(r'(@"[^"]+"|@[\w.$-]+|%"[^"]+"|%[\w.$-]+)\(', s)
            if not m: raise Unsupported('call')
            callee = m.group(1)
            pre = P(self, s[:m.start()]); pre.next()
            while pre.peek() in ('tail', 'call', 'invoke'): pre.next()
            q = P(self, s[m.end():])
            args = []
            while not q.eat(')'):
                ty = q.type()
                if ty == ('metadata',): 
                    while q.peek() not in (',', ')'): q.next()
                    q.eat(','); continue
                q.skip_attrs(); args.append(opnd(q.value(ty))); q.eat(',')
            nb = ub = None
            if op == 'invoke':
                mm = re.search(r'to label (%"[^"]+"|%[\w.$-]+) unwind label (%"[^"]+"|%[\w.$-]+)', s)
                nb, ub = lab(mm.group(1)), lab(mm.group(2))
            if callee[0] == '@': return ('call', dest, callee, None, args, nb, ub)
            return ('call', dest, None, opnd(('r', callee)), args, nb, ub)
        if op == 'landingpad': return ('landingpad', dest, ' catch ' in ' ' + s or ' filter ' in ' ' + s)
        if op == 'unreachable': return ('unreachable',)
        if op == 'resume': return ('unreachable',)
        if op == 'extractvalue':
            ty = p.type(); a = opnd(p.value(ty)); ks = []
            while p.eat(','):
                if p.peek().startswith('!'): break
                ks.append(int(p.next()))
            return ('extractvalue', dest, a, ks)
        if op == 'insertvalue':
            ty = p.type(); a = opnd(p.value(ty)); p.want(','); t2 = p.type(); b = opnd(p.value(t2)); p.want(','); k = int(p.next())
            n = len(self.resolve(ty)[1]) if self.resolve(ty)[0] == 'struct' else self.resolve(ty)[1]
            return ('insertvalue', dest, a, b, k, n)
        raise Unsupported('instruction ' + op)

STUB = re.compile(r'unordered_map|_Hashtable|basic_string|basic_ostream|ios_base|hermite::hash_print|std::hash<|std::__detail::|std::to_string|std::__cxx11::to_string|std::allocator<char>|__new_allocator<char>')

def mask(w): return (1 << w) - 1
def sgn(v, w): return v - (1 << w) if v >> (w - 1) & 1 else v
def isz(v): return isinstance(v, z3.ExprRef)
def tobv(v, w):
    if isinstance(v, int): return z3.BitVecVal(v, w)
    if z3.is_bool(v): return z3.If(v, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
    return v

class State:
    """one path: memory, decisions"""
    def __init__(self, ex): self.ex = ex; self.mem = {}; self.n = 0; self.steps = 0
    def new(self): self.n += 1; self.mem[self.n] = {}; return (self.n, 0)
    def cells(self, o, m):
        if o in self.mem: return self.mem[o]
        if isinstance(o, str):
            self.mem[o] = m.global_mem(o); return self.mem[o]
        raise UB('access to %r' % (o,))

class Executor:
    def __init__(self, mod, max_steps=40_000_000):
        self.mod = mod; self.max_steps = max_steps
        self.s = None; self.trail = []; self.pos = 0
        self.queries = self.sat = self.unsat = 0; self.solver_s = 0.0; self.paths = 0; self.instructions = 0
        self.funcs = set(); self.memo = None; self.logic = None
    # ---- solver
    def check(self, *a):
        t = time.time(); r = self.s.check(*a); self.solver_s += time.time() - t; self.queries += 1
        if r == z3.unknown: raise Unsupported('solver gave up')
        if r == z3.sat: self.sat += 1
        else: self.unsat += 1
        return r == z3.sat
    def fork(self, c):
        c = z3.simplify(c)
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        if self.pos < len(self.trail): v = self.trail[self.pos][0]
        else:
            t = self.check(c); f = self.check(z3.Not(c)) if t else True
            v = t; self.trail.append([v, t and f])
        self.pos += 1
        self.s.add(c if v else z3.Not(c))
        return v
    def concretize(self, e):
        """a concrete value of a bit-vector, forking over the feasible ones"""
        e = z3.simplify(e)
        if z3.is_bv_value(e): return e.as_long()
        for _ in range(4096):
            if self.pos < len(self.trail): v = self.trail[self.pos][2]
            else:
                if not self.check(): raise Unsupported('infeasible path')
                v = self.s.model().eval(e, model_completion=True).as_long()
                self.trail.append([True, self.check(e != v), v])
            d = self.trail[self.pos][0]; self.pos += 1
            self.s.add(e == v if d else e != v)
            if d: return v
        raise Unsupported('too many values')
    def explore(self, run, constraints, deadline):
        """run(state) on every feasible path; yields what it returns"""
        self.trail = []
        while True:
            self.s = z3.SolverFor(self.logic) if self.logic else z3.Solver(); self.s.set('timeout', 30000); self.s.add(constraints); self.pos = 0
            st = State(self)
            self.paths += 1
            yield run(st)
            self.instructions += st.steps
            while self.trail and not self.trail[-1][1]: self.trail.pop()
            if not self.trail: return
            self.trail[-1][0] = not self.trail[-1][0]; self.trail[-1][1] = False
            if time.time() > deadline: raise Unsupported('time')
    # ---- memory
    def load(self, st, p, size, ty):
        if isinstance(p, Choice):
            alts = [(c, self.load(st, q, size, ty)) for c, q in p.alts]
            und = [c for c, v in alts if v is UNDEF]
            if und:
                if self.check(z3.Or(und)): raise Unsupported('unknown value')
                alts = [(c, v) for c, v in alts if v is not UNDEF]
            return self.merge(alts, size)
        if p is UNDEF or not isinstance(p, tuple): raise Unsupported('load from %r' % (p,))
        o, off = p
        c = st.cells(o, self.mod)
        if isz(off):
            off = z3.simplify(off)
            ks = [k for k in c if c[k][0] == size]
            if z3.is_bv_value(off): off = sgn(off.as_long(), 64)
            elif len(ks) < 64 or len(ks) > 20000: off = sgn(self.concretize(off), 64)
            else:
                if not self.fork(z3.Or([off == k for k in ks])): raise UB('access out of bounds')
                return self.merge([(off == k, c[k][1]) for k in ks], size)
        e = c.get(off)
        if e is not None and e[0] == size: return e[1]
        if e is not None and e[0] > size and isinstance(e[1], int): return e[1] & mask(8 * size)
        out, k = 0, 0
        while k < size:
            e = c.get(off + k)
            if e is None or not isinstance(e[1], int) or k + e[0] > size: return UNDEF
            out |= e[1] << (8 * k); k += e[0]
        return (0, 0) if ty[0] == 'ptr' and out == 0 else out
    def merge(self, alts, size):
        vals = [v for _, v in alts]
        if all(isinstance(v, tuple) for v in vals): return Choice(alts)
        if all(isinstance(v, int) or (isz(v) and z3.is_bv(v)) for v in vals):
            r = tobv(vals[-1], 8 * size)
            for c, v in alts[:-1]: r = z3.If(c, tobv(v, 8 * size), r)
            return r
        raise Unsupported('choice of values')
    def store(self, st, p, size, v):
        if p is UNDEF or not isinstance(p, tuple): raise Unsupported('store to %r' % (p,))
        o, off = p
        if isz(off): off = sgn(self.concretize(off), 64)
        c = st.cells(o, self.mod)
        e = c.get(off)
        if e is None or e[0] != size: self.clear(c, off, size)
        c[off] = (size, v)
    def clear(self, c, off, size):
        for k in range(off - 15, off + size):
            e = c.get(k)
            if e is None: continue
            if k + e[0] <= off: continue
            del c[k]
            if isinstance(e[1], int):      # keep the bytes outside
                for b in range(e[0]):
                    if not off <= k + b < off + size: c[k + b] = (1, e[1] >> (8 * b) & 255)
    def num(self, v):
        if isz(v): return self.concretize(v)
        if not isinstance(v, int): raise Unsupported('count %r' % (v,))
        return v
    def memcpy(self, st, d, s, n):
        n = self.num(n)
        if n == 0: return
        cs, cd = st.cells(s[0], self.mod), st.cells(d[0], self.mod)
        items = [(k, cs[k]) for k in (range(s[1], s[1] + n) if n < len(cs) else sorted(cs)) if k in cs and s[1] <= k and k + cs[k][0] <= s[1] + n]
        for k in list(range(d[1], d[1] + n)) if n < len(cd) else sorted(cd):
            if d[1] <= k < d[1] + n and k in cd: del cd[k]
        for k, e in items: cd[k - s[1] + d[1]] = e
    # ---- execution
    def call(self, st, name, args, depth=0):
        name = self.mod.alias.get(name, name)
        dem = self.mod.dem.get(name, name)
        if self.memo is not None and '::s_size(' in dem and all(isinstance(x, int) for x in args):      # a function of its arguments
            k = (name, *args)
            if k not in self.memo: self.memo[k] = self.run(st, self.mod.fn(name), args, depth + 1)
            return self.memo[k]
        if name in self.mod.ftext and not (STUB.search(dem) and not re.match(r'[^(]*hermite::\w+_iterator', dem)) and 'binomial_coefficient' not in dem:
            return self.run(st, self.mod.fn(name), args, depth + 1)
        return self.external(st, name, dem, args)
    def external(self, st, name, dem, a):
        n = name[1:]
        if n in ('_Znwm', '_Znam', 'malloc'): return st.new()
        if n.startswith(('_ZdlPv', '_ZdaPv')) or n == 'free':
            if isinstance(a[0], tuple) and a[0][0] in st.mem and a[0][0] != 0: del st.mem[a[0][0]]
            return None
        if n.startswith(('llvm.memcpy', 'llvm.memmove')) or n in ('memcpy', 'memmove'):
            self.memcpy(st, a[0], a[1], a[2]); return a[0]
        if n.startswith('llvm.memset') or n == 'memset':
            k = self.num(a[2]); c = st.cells(a[0][0], self.mod); v = a[1]
            if k:
                self.clear(c, a[0][1], k)
                o = a[0][1]; e = o + k
                while o < e:
                    s = 4 if e - o >= 4 and o % 4 == 0 else 1
                    c[o] = (s, v * (0x01010101 if s == 4 else 1)); o += s
            return a[0]
        if n.startswith(('llvm.lifetime', 'llvm.dbg', 'llvm.assume', 'llvm.experimental.noalias', 'llvm.invariant', 'llvm.donothing')): return None
        if n.startswith('llvm.expect'): return a[0]
        if n.startswith(('llvm.umax', 'llvm.umin', 'llvm.smax', 'llvm.smin')):
            x, y = a; w = int(n.rsplit('.i', 1)[1])
            big, sg = n[6:9] == 'max', n[5] == 's'
            if isinstance(x, int) and isinstance(y, int):
                f = (lambda v: sgn(v, w)) if sg else (lambda v: v)
                return (max if big else min)(x, y, key=f)
            x, y = tobv(x, w), tobv(y, w)
            gt = (x > y) if sg else z3.UGT(x, y)
            return z3.If(gt, x, y) if big else z3.If(gt, y, x)
        if n.startswith('llvm.usub.sat'):
            x, y = a; w = int(n.rsplit('.i', 1)[1])
            if isinstance(x, int) and isinstance(y, int): return max(0, x - y)
            x, y = tobv(x, w), tobv(y, w); return z3.If(z3.UGT(x, y), x - y, z3.BitVecVal(0, w))
        if n in ('pow', 'llvm.pow.f64', 'llvm.powi.f64.i32', 'ldexp'): return self.pow(a[0], a[1], n)
        if n in ('floor', 'llvm.floor.f64', 'ceil', 'llvm.ceil.f64', 'llvm.fabs.f64', 'fabs', 'round', 'llvm.round.f64', 'llvm.rint.f64'):
            if isinstance(a[0], SD): return a[0]
            if isinstance(a[0], float): return float(math.floor(a[0]) if 'floor' in n else math.ceil(a[0]) if 'ceil' in n else abs(a[0]) if 'fabs' in n else math.floor(a[0] + .5))
        if n in ('sqrt', 'llvm.sqrt.f64', 'log', 'exp', 'log2', 'cbrt', 'llvm.log.f64', 'llvm.exp.f64') and isinstance(a[0], float):
            return {'sqrt': math.sqrt, 'log': math.log, 'exp': math.exp, 'log2': math.log2, 'cbrt': lambda x: x ** (1 / 3.)}[n.replace('llvm.', '').replace('.f64', '')](a[0])
        if n.startswith('llvm.fmuladd') or n in ('fma', 'llvm.fma.f64'): return self.fbin('fadd', self.fbin('fmul', a[0], a[1]), a[2])
        if 'binomial_coefficient' in dem: return self.binomial(a[0], a[1], 'binomial_coefficient<float' in dem)
        if n == '__cxa_allocate_exception': return st.new()
        if n == '__cxa_throw' or re.match(r'_ZSt\d+__throw_', n): raise Throw(dem)
        if n in ('exit', '_exit', 'abort', '_ZSt9terminatev', '__assert_fail'): raise Exit(n)
        if n == '__clang_call_terminate': raise Exit(n)
        if n == '__gxx_personality_v0': return None
        if STUB.search(dem): return UNDEF
        if re.match(r'std::(invalid_argument|runtime_error|out_of_range|logic_error|domain_error|length_error)::', dem): return None
        raise Unsupported('external ' + dem)
    def pow(self, x, e, n):
        if isinstance(x, int) or x is UNDEF: raise Unsupported('pow')
        if isinstance(x, float) and isinstance(e, (float, int)):
            try: return math.pow(x, e if isinstance(e, float) else sgn(e, 32)) if n != 'ldexp' else math.ldexp(x, sgn(e, 32))
            except OverflowError: return math.inf
        if isinstance(e, SD): e = float(self.concretize(e.b))
        if isz(e): e = float(sgn(self.concretize(e), 32))
        if isinstance(e, int): e = float(sgn(e, 32))
        if isinstance(e, float) and e >= 0 and e == int(e) and n != 'ldexp':
            r = z3.BitVecVal(1, 64)
            for _ in range(int(e)): r = r * self.sd(x)
            return SD(r)
        raise Unsupported('pow of symbols')
    def sd(self, x):
        if isinstance(x, SD): return x.b
        if isinstance(x, float) and x == int(x) and abs(x) < 2 ** 62: return z3.BitVecVal(int(x), 64)
        raise Unsupported('non-integer double %r' % (x,))
    def binomial(self, n, k, single=False):
        rnd = (lambda v: struct.unpack('f', struct.pack('f', v))[0]) if single else (lambda v: v)
        if isinstance(n, int) and isinstance(k, int):
            try: return rnd(float(math.comb(n, k)))
            except OverflowError: return math.inf
        if isz(k): k = self.concretize(k)
        if k <= 1 and not single: return SD(z3.ZeroExt(32, n) if k else z3.BitVecVal(1, 64))
        # table over the feasible values
        rs = getattr(self, 'bin_ranges', None) or [(0, getattr(self, 'bin_max', 64))]
        if self.check(z3.And([z3.Or(z3.ULT(n, a), z3.UGT(n, b)) for a, b in rs])): raise Unsupported('binomial beyond the table')
        r = z3.BitVecVal(0, 64)
        for a, b in rs:
            for v in range(a, b + 1):
                c = math.comb(v, k)
                if c < 2 ** 63: r = z3.If(n == v, z3.BitVecVal(int(rnd(float(c))) if c < 2 ** 52 or single else c, 64), r)
        return SD(r)
    def run(self, st, f, args, depth):
        if depth > 200: raise Unsupported('recursion')
        self.funcs.add(f.name)
        R = f.template[:]
        if len(args) != len(f.args): raise Unsupported('arguments of ' + f.name)
        for r, v in zip(f.args, args): R[r] = v
        blocks = f.blocks
        b, prev = 0, -1
        allocas = []
        while True:
            code = blocks[b]
            i = 0
            # phis together
            if code[0][0] == 'phi':
                vals = []
                while code[i][0] == 'phi': vals.append((code[i][1], R[code[i][2][prev]])); i += 1
                for d, v in vals: R[d] = v
            nxt = None
            n = len(code)
            st.steps += n
            if st.steps > self.max_steps: raise Unsupported('step limit')
            while i < n:
                I = code[i]; i += 1
                op = I[0]
                if op == 'bin':
                    x, y, w = R[I[3]], R[I[4]], I[5]
                    if type(x) is int and type(y) is int: R[I[1]] = ibin(I[2], x, y, w)
                    else: R[I[1]] = self.sbin(I[2], x, y, w)
                elif op == 'load': R[I[1]] = self.load(st, R[I[2]], I[3], I[4])
                elif op == 'store': self.store(st, R[I[2]], I[3], R[I[1]])
                elif op == 'gep':
                    p = R[I[2]]
                    if isinstance(p, Choice) and all(isinstance(R[r], int) for r, _, _ in I[4]):
                        k = I[3] + sum(sgn(R[r], w) * sc for r, sc, w in I[4])
                        R[I[1]] = Choice([(c, (q[0], q[1] + k)) for c, q in p.alts]); continue
                    if not isinstance(p, tuple): raise Unsupported('pointer %r' % (p,))
                    o, off = p
                    off = off + I[3] if not isz(off) else off + z3.BitVecVal(I[3], 64)
                    for r, sc, w in I[4]:
                        v = R[r]
                        if isinstance(v, int): off = off + sgn(v, w) * sc
                        elif isz(v):
                            if w < 64: v = z3.SignExt(64 - w, v)
                            off = (off if isz(off) else z3.BitVecVal(off, 64)) + v * sc
                        else: raise Unsupported('index %r' % (v,))
                    R[I[1]] = (o, off)
                elif op == 'icmp': R[I[1]] = self.icmp(I[2], R[I[3]], R[I[4]], I[5])
                elif op == 'br':
                    c = R[I[1]]
                    if c is UNDEF: raise Unsupported('branch on an unknown value')
                    if not isinstance(c, int):
                        c = self.fork(c if z3.is_bool(c) else c == 1)
                    nxt = I[2] if c else I[3]
                elif op == 'jmp': nxt = I[1]
                elif op == 'cast': R[I[1]] = self.cast(I[2], R[I[3]], I[4], I[5])
                elif op == 'mov': R[I[1]] = R[I[2]]
                elif op == 'call':
                    callee = I[2]
                    if callee is None:
                        p = R[I[3]]
                        if not isinstance(p, tuple) or not isinstance(p[0], str): raise Unsupported('indirect call')
                        callee = p[0][1:]
                    try: r = self.call(st, callee, [R[k] for k in I[4]], depth)
                    except Throw:
                        if I[6] is not None:
                            lp = next((x for x in blocks[I[6]] if x[0] == 'landingpad'), None)
                            if lp and lp[2]: raise Unsupported('handler')
                        raise
                    if I[1] is not None: R[I[1]] = r
                    if I[5] is not None: nxt = I[5]
                elif op == 'ret':
                    for a in allocas: st.mem.pop(a, None)
                    return None if I[1] is None else R[I[1]]
                elif op == 'alloca':
                    p = st.new(); allocas.append(p[0]); R[I[1]] = p
                elif op == 'select':
                    c, x, y = R[I[2]], R[I[3]], R[I[4]]
                    if c is UNDEF: raise Unsupported('select on an unknown value')
                    if isinstance(c, int): R[I[1]] = x if c else y
                    else:
                        c = c if z3.is_bool(c) else c == 1
                        w = x.size() if isz(x) and z3.is_bv(x) else y.size() if isz(y) and z3.is_bv(y) else None
                        if isinstance(x, int) and isinstance(y, int): R[I[1]] = z3.If(c, z3.BitVecVal(x, 64), z3.BitVecVal(y, 64)) if False else (x if self.fork(c) else y)
                        elif w and (isz(x) or isinstance(x, int)) and (isz(y) or isinstance(y, int)): R[I[1]] = z3.If(c, tobv(x, w), tobv(y, w))
                        else: R[I[1]] = x if self.fork(c) else y
                elif op == 'fbin': R[I[1]] = self.fbin(I[2], R[I[3]], R[I[4]])
                elif op == 'fneg':
                    if not isinstance(R[I[2]], float): raise Unsupported('fneg')
                    R[I[1]] = -R[I[2]]
                elif op == 'fcmp': R[I[1]] = self.fcmp(I[2], R[I[3]], R[I[4]])
                elif op == 'extractvalue':
                    v = R[I[2]]
                    for k in I[3]: v = v[k] if isinstance(v, list) else UNDEF
                    R[I[1]] = v
                elif op == 'insertvalue':
                    v = R[I[2]]; v = list(v) if isinstance(v, list) else [UNDEF] * I[5]
                    v[I[4]] = R[I[3]]; R[I[1]] = v
                elif op == 'switch':
                    v = R[I[1]]
                    if isinstance(v, int): nxt = next((l for k, l in I[3] if k == v), I[2])
                    elif isz(v):
                        nxt = I[2]
                        for k, l in I[3]:
                            if self.fork(v == k): nxt = l; break
                    else: raise Unsupported('switch')
                elif op == 'unreachable': raise UB('unreachable')
                elif op == 'landingpad': raise Unsupported('landing pad')
                else: raise Unsupported(I[1])
            prev, b = b, nxt
    def sbin(self, op, x, y, w):
        if x is UNDEF or y is UNDEF: return UNDEF
        if isinstance(x, tuple) or isinstance(y, tuple):
            if isinstance(x, tuple) and isinstance(y, tuple) and op == 'sub':
                if x[0] != y[0]: raise Unsupported('difference of objects')
                d = x[1] - y[1]
                return d & mask(w) if isinstance(d, int) else d
            if isinstance(x, tuple) and isinstance(y, int) and op in ('add', 'sub') and isinstance(x[1], int): return (x[0], x[1] + (sgn(y, w) if op == 'add' else -sgn(y, w)))
            if isinstance(x, tuple) and isinstance(y, int) and op == 'and' and isinstance(x[0], int): return 0 if y < 8 else UNDEF
            return UNDEF
        if isinstance(x, float) or isinstance(y, float): raise Unsupported('float bits')
        if w == 1:
            bx = [bool(v) if isinstance(v, int) else (v if z3.is_bool(v) else v == 1) for v in (x, y)]
            if op == 'and': return z3.And(*bx)
            if op == 'or': return z3.Or(*bx)
            if op in ('xor', 'add', 'sub'): return z3.Xor(*bx)
            raise Unsupported(op)
        x, y = tobv(x, w), tobv(y, w)
        if op in ('udiv', 'urem', 'sdiv', 'srem') and self.fork(y == 0): raise UB('division by zero')
        return {'add': lambda: x + y, 'sub': lambda: x - y, 'mul': lambda: x * y, 'udiv': lambda: z3.UDiv(x, y), 'urem': lambda: z3.URem(x, y), 'sdiv': lambda: x / y, 'srem': lambda: z3.SRem(x, y),
                'and': lambda: x & y, 'or': lambda: x | y, 'xor': lambda: x ^ y, 'shl': lambda: x << y, 'lshr': lambda: z3.LShR(x, y), 'ashr': lambda: x >> y}[op]()
    def icmp(self, pr, x, y, w):
        if type(x) is int and type(y) is int: return icmp(pr, x, y, w)
        if x is UNDEF or y is UNDEF: return UNDEF
        if isinstance(x, tuple) or isinstance(y, tuple):
            if isinstance(x, int): x = (0, x)
            if isinstance(y, int): y = (0, y)
            if not (isinstance(x, tuple) and isinstance(y, tuple)): return UNDEF
            if isz(x[1]) or isz(y[1]):
                if x[0] != y[0]: return {'eq': 0, 'ne': 1}.get(pr, UNDEF)
                return self.icmp(pr, x[1] & mask(64) if isinstance(x[1], int) else x[1], y[1] & mask(64) if isinstance(y[1], int) else y[1], 64)
            if pr == 'eq': return int(x == y)
            if pr == 'ne': return int(x != y)
            if x[0] == y[0]: return icmp(pr, x[1] & mask(64), y[1] & mask(64), 64)
            if (0, 0) in (x, y): return icmp(pr, 0 if x == (0, 0) else 1, 0 if y == (0, 0) else 1, 64)
            return UNDEF
        if w == 1:
            x, y = tobv(x, 1), tobv(y, 1)
        else: x, y = tobv(x, w), tobv(y, w)
        return {'eq': lambda: x == y, 'ne': lambda: x != y, 'ult': lambda: z3.ULT(x, y), 'ule': lambda: z3.ULE(x, y), 'ugt': lambda: z3.UGT(x, y), 'uge': lambda: z3.UGE(x, y),
                'slt': lambda: x < y, 'sle': lambda: x <= y, 'sgt': lambda: x > y, 'sge': lambda: x >= y}[pr]()
    def cast(self, op, v, t1, t2):
        if v is UNDEF: return UNDEF
        if op in ('ptrtoint', 'inttoptr', 'bitcast'):
            if op == 'inttoptr' and isinstance(v, int): return (0, v)
            if op == 'bitcast' and t1[0] != t2[0]: raise Unsupported('bitcast')
            return v
        if op in ('fpext', 'fptrunc'):
            if op == 'fptrunc' and isinstance(v, float): return struct.unpack('f', struct.pack('f', v))[0] if abs(v) < 3e38 else math.copysign(math.inf, v)
            if op == 'fptrunc' and self.check(z3.UGT(v.b, 2 ** 24)): raise Unsupported('rounding to single precision')
            return v
        if isinstance(v, tuple):
            if op == 'trunc': raise Unsupported('pointer bits')
            return v
        if op in ('zext', 'sext', 'trunc'):
            a, b = t1[1], t2[1]
            if isinstance(v, int): return v if op == 'zext' else v & mask(b) if op == 'trunc' else sgn(v, a) & mask(b)
            if op == 'trunc':
                if b == 1: return z3.Extract(0, 0, v) == 1
                return z3.Extract(b - 1, 0, v)
            if a == 1:
                c = v if z3.is_bool(v) else v == 1
                return z3.If(c, z3.BitVecVal(1 if op == 'zext' else mask(b), b), z3.BitVecVal(0, b))
            return z3.ZeroExt(b - a, v) if op == 'zext' else z3.SignExt(b - a, v)
        if op in ('uitofp', 'sitofp'):
            a = t1[1]
            if isinstance(v, int): return float(v if op == 'uitofp' else sgn(v, a))
            v = tobv(v, a)
            if a >= 64: return SD(v)
            return SD(z3.ZeroExt(64 - a, v) if op == 'uitofp' else z3.SignExt(64 - a, v))
        if op in ('fptoui', 'fptosi'):
            b = t2[1]
            if isinstance(v, float):
                if math.isinf(v) or math.isnan(v) or abs(v) >= 2 ** 63: return UNDEF
                return int(v) & mask(b)
            return z3.Extract(b - 1, 0, v.b) if b < 64 else v.b
        raise Unsupported(op)
    def fbin(self, op, x, y):
        if x is UNDEF or y is UNDEF: return UNDEF
        if isinstance(x, float) and isinstance(y, float):
            try: return {'fadd': lambda: x + y, 'fsub': lambda: x - y, 'fmul': lambda: x * y, 'fdiv': lambda: x / y if y else math.copysign(math.inf, x), 'frem': lambda: math.fmod(x, y)}[op]()
            except OverflowError: return math.inf
        x, y = self.sd(x), self.sd(y)
        if op == 'fadd': return SD(x + y)
        if op == 'fsub': return SD(x - y)
        if op == 'fmul': return SD(x * y)
        if op == 'fdiv':
            if self.check(z3.Or(y == 0, z3.SRem(x, y) != 0)): raise Unsupported('inexact division')
            return SD(x / y)
        raise Unsupported(op)
    def fcmp(self, pr, x, y):
        if x is UNDEF or y is UNDEF: return UNDEF
        k = pr[1:] if pr not in ('ord', 'uno', 'true', 'false') else pr
        if isinstance(x, float) and isinstance(y, float):
            if pr == 'ord': return int(not (math.isnan(x) or math.isnan(y)))
            if pr == 'uno': return int(math.isnan(x) or math.isnan(y))
            return int({'eq': x == y, 'ne': x != y, 'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[k])
        if pr == 'ord': return 1
        if pr == 'uno': return 0
        x, y = self.sd(x), self.sd(y)
        return {'eq': x == y, 'ne': x != y, 'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[k]

def ibin(op, x, y, w):
    m = (1 << w) - 1
    if op == 'add': return (x + y) & m
    if op == 'sub': return (x - y) & m
    if op == 'mul': return (x * y) & m
    if op == 'and': return x & y
    if op == 'or': return x | y
    if op == 'xor': return x ^ y
    if op == 'shl': return (x << y) & m if y < w else 0
    if op == 'lshr': return x >> y
    if op == 'ashr': return (sgn(x, w) >> y) & m
    if y == 0: raise UB('division by zero')
    if op == 'udiv': return x // y
    if op == 'urem': return x % y
    a, b = sgn(x, w), sgn(y, w)
    q = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
    return (q if op == 'sdiv' else a - q * b) & m
def icmp(pr, x, y, w):
    if pr == 'eq': return int(x == y)
    if pr == 'ne': return int(x != y)
    if pr[0] == 's': x, y = sgn(x, w), sgn(y, w)
    k = pr[1:]
    return int(x < y if k == 'lt' else x <= y if k == 'le' else x > y if k == 'gt' else x >= y)

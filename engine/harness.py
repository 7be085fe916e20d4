"""Driver of a check: builds from the current tree, runs every case symbolically
in worker processes, replays candidates against the plain build, reports."""
import os, sys, json, time, subprocess, tempfile, shutil, threading, queue, importlib, hashlib, traceback, select, signal
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE); sys.path.insert(0, ROOT + '/checks')
import build

class Worker:
    def __init__(self, mode, pid, out, native, tier, scratch):
        self.args = (mode, pid, out, native, tier, scratch)
        self.start()
    def start(self):
        mode, pid, out, native, tier, scratch = self.args
        self.dead = False
        ri, wi = os.pipe(); ro, wo = os.pipe()
        env = {k: v for k, v in os.environ.items() if k != 'LD_PRELOAD'}
        env.update(W_IN=str(ri), W_OUT=str(wo), W_MODE=mode, W_PID=pid, W_OUTDIR=out, W_REPO=build.REPO, W_TIER=tier, W_NATIVE=native,
                   PYTHONDONTWRITEBYTECODE='1', OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1', PYTHONHASHSEED='0', MPLBACKEND='Agg',
                   HOME=scratch, TMPDIR=scratch, SYMRT_SCRATCH=scratch)
        if mode == 'sym':
            env.update(LD_PRELOAD=out + '/libsymrt.so', SYMRT_INTEGRAND_CC=out + '/integrand_cc')
        else:
            env.update(LD_PRELOAD=out + '/libredir.so')
        if native.endswith(('symdbg', 'asan')):
            env['LD_PRELOAD'] = (build.ASAN_LIB if mode == 'sym' else build.gcc_asan()) + ':libstdc++.so.6:' + env['LD_PRELOAD']   # the exception hooks need libstdc++ at start
            env['ASAN_OPTIONS'] = 'detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:new_delete_type_mismatch=0:alloc_dealloc_mismatch=0'
            env['PYTHONMALLOC'] = 'malloc'
        self.log = open(scratch + '/log.%s.%d' % (mode, id(self)), 'wb')
        self.p = subprocess.Popen(['/usr/bin/python3', HERE + '/worker.py'], env=env, pass_fds=(ri, wo), stdin=subprocess.DEVNULL,
                                  stdout=self.log, stderr=subprocess.STDOUT, cwd=scratch, start_new_session=True)
        os.close(ri); os.close(wo)
        self.w = os.fdopen(wi, 'w'); self.r = os.fdopen(ro, 'rb', buffering=0); self.buf = b''
        m = self.recv(120)
        if not (m and m.get('ready')):
            self.log.flush()
            self.kill()
            raise RuntimeError('worker failed to start: ' + open(self.log.name).read()[-3000:])
    def recv(self, timeout):
        end = time.time() + timeout
        while b'\n' not in self.buf:
            left = end - time.time()
            if left <= 0: return {'hang': True}
            rr, _, _ = select.select([self.r], [], [], left)
            if not rr: return {'hang': True}
            b = os.read(self.r.fileno(), 1 << 20)
            if not b: return None
            self.buf += b
        line, self.buf = self.buf.split(b'\n', 1)
        return json.loads(line)
    def job(self, job, timeout):
        if self.dead: self.start()
        try:
            self.w.write(json.dumps(job) + '\n'); self.w.flush()
            r = self.recv(timeout)
        except BrokenPipeError: r = None
        if r is None or r.get('hang'):
            hang = bool(r)
            self.kill()
            self.log.flush()
            tail = open(self.log.name, 'rb').read().decode(errors='replace')
            i = max(tail.rfind('ERROR: AddressSanitizer'), tail.rfind('AddressSanitizer: CHECK'), tail.rfind('Assertion'))
            tail = tail[i:i + 2500] if i >= 0 else tail[-4000:]
            return {'id': job['id'], 'status': 'died', 'hang': hang, 'rc': self.p.returncode, 'detail': tail}
        return r
    def kill(self):
        self.dead = True
        try: os.killpg(self.p.pid, signal.SIGKILL)
        except ProcessLookupError: pass
        self.p.wait()
        for f in (self.w, self.r):
            try: f.close()
            except OSError: pass

class Run:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.t0 = time.time()
        self.out = tempfile.mkdtemp(prefix='vf-%s-' % pid, dir=os.environ.get('VERIF_SCRATCH', '/var/tmp'))
        self.violations, self.known_hit, self.inconcl = [], [], []
        self.plain_native = None
        self.ev = {}
        self.lock = threading.Lock()
        self.conc = {}
        try: self.known = [k for k in json.load(open(ROOT + '/known_findings.json'))['findings'] if k['property'] == pid and k.get('status') == 'open']
        except FileNotFoundError: self.known = []

    def scratch(self, name):
        d = self.out + '/' + name
        os.makedirs(d, exist_ok=True)
        return d

    # ---- replay on the real build
    def plain(self):
        with self.lock:
            if self.plain_native is None:
                build.build_redir(self.out)
                if getattr(importlib.import_module(self.pid.lower()), 'ASAN', False):
                    self.plain_native = build.build_plain(self.out, 'asan', ('-O1', '-g', '-D_GLIBCXX_ASSERTIONS', '-fsanitize=address'), ('-fsanitize=address',))
                else:
                    self.plain_native = build.build_plain(self.out)
            return self.plain_native
    def concrete_worker(self, slot):
        if slot not in self.conc:
            self.conc[slot] = Worker('conc', self.pid, self.out, self.plain(), self.tier, self.scratch('c%s' % slot))
        return self.conc[slot]
    def replay(self, case, inputs, slot=0, tries=4):
        """returns a confirmed failure (dict) or None"""
        w = self.concrete_worker(slot)
        for k in range(tries):
            r = w.job({'id': 0, 'case': case, 'inputs': inputs if k == 0 else {}, 'salt': k}, float(case.get('timeout', 60)) + 20)
            if r['status'] == 'died':
                return {'detail': 'the process died (return code %s)' % r.get('rc') if not r['hang'] else 'no termination', 'inputs': inputs if k == 0 else {'salt': k}, 'salt': k, 'tail': r['detail']}
            if r['status'] == 'infra':
                raise RuntimeError('replay infrastructure: ' + r['detail'])
            if r['status'] == 'bad':
                return {'detail': r['detail'], 'inputs': r['inputs'], 'salt': k, 'where': r.get('where')}
        return None

    def is_known(self, case, detail):
        for k in self.known:
            if all(case.get(a) == b for a, b in k['case'].items()) and k.get('detail', '') in (detail or ''):
                return k
        return None

    def report(self, case, fail, why):
        k = self.is_known(case, fail['detail'])
        with self.lock:
            if k is not None:
                if k['what'] not in self.known_hit: self.known_hit.append(k['what'])
                return
            rid = hashlib.sha1(json.dumps(case, sort_keys=True, default=str).encode()).hexdigest()[:10]
            d = ROOT + '/replays'
            os.makedirs(d, exist_ok=True)
            path = '%s/%s-%s.json' % (d, self.pid, rid)
            with open(path, 'w') as f:
                json.dump({'property': self.pid, 'case': case, 'found_by': why, **fail,
                           'rerun': 'python3 /verif/checks/run.py %s --replay %s' % (self.pid, path)}, f, indent=1, default=str)
            self.violations.append((path, case, fail))

    # ---- main loop
    def symbolic(self, mod, cases, native, opt, n=8):
        q = queue.Queue()
        for i, c in enumerate(cases): q.put((i, c))
        res = [None] * len(cases)
        errs = []
        stop = threading.Event()
        budget = opt.get('budget', 600)
        def loop(slot):
            try:
                w = Worker('sym', self.pid, self.out, native, self.tier, self.scratch('s%d' % slot))
                while not stop.is_set():
                    try: i, c = q.get_nowait()
                    except queue.Empty: break
                    if time.time() - self.t0 > budget:
                        res[i] = {'status': 'skipped'}; continue
                    r = w.job({'id': i, 'case': c, 'opt': opt}, float(c.get('timeout', opt.get('timeout', 60))) * 2 + 60)
                    res[i] = r
                    cands = r.get('cands', [])
                    if r['status'] == 'infra':
                        errs.append(r['detail'])
                        cands = [{'inputs': {}, 'why': 'infrastructure error: ' + r['detail'][-400:], 'weak': True}]
                    if r['status'] == 'died': cands = [{'inputs': {}, 'why': 'symbolic execution died: ' + r['detail'], 'weak': r['hang']}]
                    done = False
                    for cd in cands[:3]:
                        if done: break
                        f = self.replay(c, cd['inputs'], slot)
                        if f: self.report(c, f, cd['why']); done = True
                    if cands and not done:
                        with self.lock: self.inconcl.append({'case': c, 'why': cands[0]['why'][:600], 'detail': cands[0].get('detail', '')[:1500]})
                    if len(self.violations) >= 5: stop.set()
                w.kill()
            except Exception as e:
                errs.append(''.join(traceback.format_exception(e)))
        ts = [threading.Thread(target=loop, args=(k,)) for k in range(min(n, max(1, len(cases))))]
        for t in ts: t.start()
        for t in ts: t.join()
        for w in self.conc.values(): w.kill()
        self.conc = {}
        return res, errs

    def finish(self, cov, assumptions, level='other'):
        ev = {'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': level, 'coverage': cov, 'assumptions': assumptions,
              'wall_s': round(time.time() - self.t0, 1), 'violations': len(self.violations)}
        os.makedirs(ROOT + '/evidence', exist_ok=True)
        with open(ROOT + '/evidence/%s.json' % self.pid, 'w') as f: json.dump(ev, f, indent=1, default=str)
        for w in self.known_hit: print('KNOWN-FINDING: property=%s %s' % (self.pid, w))
        for path, case, fail in self.violations:
            print('VIOLATION property=%s replay=%s' % (self.pid, path))
            print('  case %s: %s' % (json.dumps(case, default=str)[:300], fail['detail']))
        print('%s %s: %s in %.0f s' % (self.pid, self.tier, 'VIOLATED' if self.violations else 'held on everything explored', time.time() - self.t0))
        return 1 if self.violations else 0

    def cleanup(self):
        for w in self.conc.values(): w.kill()
        shutil.rmtree(self.out, ignore_errors=True)

def summarise(res):
    tot = {}
    for r in res:
        if not r or r.get('status') != 'ok': continue
        for k in ('paths', 'queries', 'unsat', 'sat', 'unknown', 'solver_s', 'obligations', 'conds', 'nodes', 'terms', 'flips_open', 'nontrivial', 'witness', 'rounding_paths'):
            tot[k] = tot.get(k, 0) + (r.get(k) or 0)
    return tot

def standard(pid, tier):
    """a check whose cases all run through the symbolic-real engine"""
    run = Run(pid, tier)
    try:
        mod = importlib.import_module(pid.lower())
        cases = mod.cases(tier)
        opt = {'paths': 6, 'timeout': 60, 'qtime': 20, 'budget': 420 if tier == 'quick' else 3000}
        opt.update(getattr(mod, 'OPT', {}))
        if tier == 'thorough':
            opt.update({'paths': 10 * opt['paths'], 'timeout': 3 * opt['timeout']})
            opt.update(getattr(mod, 'OPT_THOROUGH', {}))
        build.build_runtime(run.out); build.build_npsym(run.out); build.integrand_tool(run.out)
        native, bst = build.build_instrumented(run.out, getattr(mod, 'DEFS', ()))
        extra = None
        if hasattr(mod, 'extra'): extra = mod.extra(run)
        res, errs = run.symbolic(mod, cases, native, opt)
        if errs:
            sys.stderr.write('%d infrastructure errors\n' % len(errs) + '\n'.join(errs)[:3000] + '\n')
            if not any(r and r.get('status') == 'ok' for r in res) and not run.violations: return 2
        tot = summarise(res)
        slow = sorted(((r['t'], i) for i, r in enumerate(res) if r and 't' in r), reverse=True)[:3]
        funcs = sorted({f for r in res if r for f in r.get('funcs', [])})
        cov = {'explanation': 'Bounded symbolic execution of the real code: hermite_cpp compiled from the current tree to LLVM IR with every '
               'floating-point instruction rewritten to a symbolic operation, NumPy loops likewise; every case below is one configuration with '
               'all its numeric inputs symbolic; z3 decides, per path, path condition and (output differs from specification) over the whole box.',
               'functions_encoded_python': funcs, 'native_module': bst, 'functions_encoded_native': getattr(mod, 'NATIVE', []),
               'bounds': getattr(mod, 'BOUNDS', {}), 'configurations': len(cases),
               'configurations_executed': sum(1 for r in res if r and r.get('status') == 'ok'),
               'configurations_skipped_for_time': sum(1 for r in res if r and r.get('status') == 'skipped'),
               'paths': tot.get('paths', 0), 'paths_left_unexplored': tot.get('flips_open', 0), 'paths_taken_by_rounded_inputs_only': tot.get('rounding_paths', 0), 'queries': tot.get('queries', 0),
               'queries_unsat': tot.get('unsat', 0), 'queries_sat': tot.get('sat', 0), 'queries_unknown': tot.get('unknown', 0),
               'solver_s': round(tot.get('solver_s', 0), 2), 'obligations': tot.get('obligations', 0), 'symbolic_branches': tot.get('conds', 0),
               'expression_nodes': tot.get('nodes', 0), 'reachability_witnesses_sat': tot.get('witness', 0),
               'residues_not_syntactically_zero': tot.get('nontrivial', 0),
               'inconclusive': run.inconcl[:20], 'inconclusive_count': len(run.inconcl),
               'samples': [cases[i] for i in range(0, len(cases), max(1, len(cases) // 4))][:5], 'slowest': [(t, cases[i]) for t, i in slow]}
        if extra: cov.update(extra)
        if os.environ.get('VERIF_DEBUG'): 
            print(json.dumps({k: v for k, v in cov.items() if k not in ('functions_encoded_python', 'native_module', 'samples', 'explanation')}, indent=1, default=str)[:6000])
        return run.finish(cov, getattr(mod, 'ASSUMPTIONS', []) + COMMON)
    finally:
        run.cleanup()

COMMON = ['reals stand for doubles: rounding is not modelled; deviations up to 1e-8 of the scale of the result are accepted',
          'the compiler (clang -O1 for the encoding, g++ for the replay), NumPy, SciPy, Boost.Python and sympy are trusted',
          'branches on symbolic values are explored up to the stated number of paths per configuration']

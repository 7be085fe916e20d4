#!/usr/bin/env python3
"""Debug aid: run selected cases of a check in one worker, keeping the build in /var/tmp/dbg.
usage: one.py C25 sym|conc 'substring of the json case' [max]"""
import sys, os, json, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)) + '/../engine'); sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)) + '/../checks')
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import build, harness, importlib
out = '/var/tmp/dbg'
pid, mode, sub = sys.argv[1:4]
n = int(sys.argv[4]) if len(sys.argv) > 4 else 3
if os.environ.get('REBUILD') or not os.path.exists(out + '/sym/hermite_cpp.so'):
    build.build_runtime(out); build.build_npsym(out); build.build_redir(out); build.integrand_tool(out); build.build_instrumented(out)
if os.environ.get('REBUILD') or not os.path.exists(out + '/plain/hermite_cpp.so'): build.build_redir(out); build.build_plain(out)
build.build_runtime(out); build.build_npsym(out); build.integrand_tool(out)
mod = importlib.import_module(pid.lower())
os.makedirs(out + '/s' + mode, exist_ok=True)
w = harness.Worker(mode, pid, out, out + ('/sym' if mode == 'sym' else '/plain'), 'quick', out + '/s' + mode)
for c in [c for c in mod.cases('quick') if sub in json.dumps(c)][:n]:
    t = time.time()
    r = w.job({'id': 0, 'case': c, 'opt': getattr(mod, 'OPT', {}), 'inputs': {}}, 200)
    r.pop('funcs', None)
    print(json.dumps(c)); print('  ', {k: v for k, v in r.items() if k != 'cands'}, '%.1fs' % (time.time() - t))
    for x in r.get('cands', []): x.pop('inputs', None); print('   CAND', x.get('why'), x.get('detail', ''))
w.kill()

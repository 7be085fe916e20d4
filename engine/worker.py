"""Worker process: executes cases of one check, symbolically (LD_PRELOAD of the
symbolic runtime, instrumented hermite_cpp) or concretely (plain build)."""
import sys, os, json, time, random, math, traceback, importlib, signal, faulthandler
faulthandler.enable()

def main():
    cmd_in = os.fdopen(int(os.environ['W_IN']), 'r')
    res_out = os.fdopen(int(os.environ['W_OUT']), 'w')
    mode, pid, out, repo, tier = (os.environ[k] for k in ('W_MODE', 'W_PID', 'W_OUTDIR', 'W_REPO', 'W_TIER'))
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    here = os.path.dirname(os.path.abspath(__file__))
    native = os.environ['W_NATIVE']
    sys.path[:0] = [native, repo, here, here + '/../checks']
    if mode == 'sym': sys.path.insert(0, out)
    sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
    import numpy as np
    import ctxs
    if mode == 'sym':
        import symx
        symx.load_runtime(out + '/libsymrt.so')
        import _npsym
        bad = _npsym.install(np)
        ctxs.patch_sym()
    mod = importlib.import_module(pid.lower())
    if mode == 'sym':
        try:
            import hermipy
            import pybridge
            pybridge.inject()
        except Exception: pass
    funcs = set()
    hdir = os.path.join(repo, 'hermipy') + os.sep
    def prof(frame, event, arg):
        if event == 'call':
            f = frame.f_code.co_filename
            if f.startswith(hdir): funcs.add(os.path.basename(f)[:-3] + '.' + frame.f_code.co_qualname)
    def send(o):
        res_out.write(json.dumps(o) + '\n'); res_out.flush()
    send({'ready': True})
    for line in cmd_in:
        job = json.loads(line)
        t0 = time.time()
        try:
            if mode == 'sym':
                r = ctxs.run_symbolic(mod, job['case'], seed, job.get('opt', {}), prof)
            else:
                r = ctxs.run_concrete(mod, job['case'], seed, job.get('inputs') or {}, job.get('salt', 0))
        except BaseException as e:
            if isinstance(e, (KeyboardInterrupt,)): raise
            r = {'status': 'infra', 'detail': ''.join(traceback.format_exception(e))[-3000:]}
        r['id'] = job['id']; r['t'] = round(time.time() - t0, 3)
        r['funcs'] = sorted(funcs)
        send(r)

if __name__ == '__main__':
    main()

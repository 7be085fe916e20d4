"""Builds, from /repo's current working tree and outside it, what a check needs:
 - the symbolic runtime, the NumPy hook module,
 - hermite_cpp.so instrumented for symbolic execution,
 - hermite_cpp.so as the project builds it (for replay)."""
import os, sys, subprocess, glob, shutil, time, json, tempfile
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import rewrite

REPO = os.environ.get('VERIF_REPO', '/repo')
HERE = os.path.dirname(os.path.abspath(__file__))
CLANG = '/usr/bin/clang++-18' if os.path.exists('/usr/bin/clang++-18') else 'clang++'
LLC = '/usr/bin/llc-18' if os.path.exists('/usr/bin/llc-18') else None
L = '/usr/lib/x86_64-linux-gnu'
PYINC = '/usr/include/python3.12'
LIBS = [L + '/libboost_python312.so', L + '/libboost_numpy312.so', '-lpython3.12', '-ldl', '-lm']
ENV = {k: v for k, v in os.environ.items() if k not in ('LD_PRELOAD',)}

class BuildError(Exception):
    pass

def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=ENV, **kw)
    if p.returncode:
        raise BuildError(' '.join(cmd) + '\n' + p.stdout.decode(errors='replace')[-4000:])
    return p.stdout

def sources():
    return sorted(glob.glob(REPO + '/cpp/src/hermite/**/*.cpp', recursive=True))

def build_runtime(out):
    so = out + '/libsymrt.so'
    run(['gcc', '-O2', '-fPIC', '-shared', HERE + '/symrt.c', '-o', so, '-lm', '-ldl'])
    return so

def build_redir(out):
    run(['gcc', '-O2', '-fPIC', '-shared', HERE + '/redir.c', '-o', out + '/libredir.so', '-ldl'])

def build_npsym(out):
    import sysconfig, importlib.util
    npdir = os.path.dirname(importlib.util.find_spec('numpy').origin)
    so = out + '/_npsym.so'
    run(['gcc', '-O2', '-fPIC', '-shared', '-Wno-deprecated-declarations', HERE + '/npsym.c', '-o', so, '-I' + PYINC,
         '-I' + npdir + '/core/include', '-L' + out, '-lsymrt', '-Wl,-rpath,' + out])
    return so

def _instr_one(args):
    src, out, defs = args
    base = out + '/' + os.path.relpath(src, REPO + '/cpp/src').replace('/', '_')[:-4]
    ll, ll2, o = base + '.ll', base + '.s.ll', base + '.o'
    run([CLANG, '-std=c++14', '-O1', '-DNDEBUG', '-fPIC', '-fno-vectorize', '-fno-slp-vectorize',
         '-ffp-contract=off', '-fno-math-errno', '-w', *defs, '-I' + REPO + '/cpp/src', '-I' + PYINC,
         '-S', '-emit-llvm', src, '-o', ll])
    t, st = rewrite.rewrite(open(ll).read())
    open(ll2, 'w').write(t)
    run([CLANG, '-O1', '-fPIC', '-w', '-c', ll2, '-o', o])
    os.unlink(ll); os.unlink(ll2)
    return o, st

def build_instrumented(out, defs=()):
    """instrumented hermite_cpp.so in out/sym (or out/symdbg with defs)"""
    d = out + '/' + ('symdbg' if defs else 'sym')
    os.makedirs(d, exist_ok=True)
    t0 = time.time()
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(_instr_one, [(s, d, list(defs)) for s in sources()]))
    stats = {}
    for _, st in res:
        for k, v in st.items(): stats[k] = stats.get(k, 0) + v
    run([CLANG, '-shared', '-o', d + '/hermite_cpp.so', *[o for o, _ in res], '-L' + out, '-lsymrt',
         '-Wl,-rpath,' + out, *LIBS, *(['-fsanitize=address', '-shared-libsan'] if '-fsanitize=address' in defs else [])])
    for o, _ in res: os.unlink(o)
    return d, {'translation_units': len(res), 'fp_ops_rewritten': stats, 'build_s': round(time.time() - t0, 1)}

def _plain_one(args):
    src, d, flags = args
    o = d + '/' + os.path.relpath(src, REPO + '/cpp/src').replace('/', '_')[:-4] + '.o'
    run(['g++', '-std=c++14', *flags, '-fPIC', '-w', '-I' + REPO + '/cpp/src', '-I' + PYINC, '-c', src, '-o', o])
    return o

def build_plain(out, name='plain', flags=('-O3', '-DNDEBUG', '-Ofast'), link=()):
    d = out + '/' + name
    os.makedirs(d, exist_ok=True)
    if os.path.exists(d + '/hermite_cpp.so'): return d
    with ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(_plain_one, [(s, d, flags) for s in sources()]))
    run(['g++', '-shared', '-o', d + '/hermite_cpp.so', *objs, *link, *LIBS])
    for o in objs: os.unlink(o)
    return d

def integrand_tool(out):
    p = out + '/integrand_cc'
    with open(p, 'w') as f:
        f.write(f'''#!/bin/sh
set -e
if grep -q 'vfnode[0-9]' "$1"; then
  (echo 'extern "C" double symrt_node(long);'; sed 's/vfnode\\([0-9]*\\)q/symrt_node(\\1)/g' "$1") > "$2.cpp"
  set -- "$2.cpp" "$2"
fi
{CLANG} -O1 -fPIC -fno-vectorize -fno-slp-vectorize -ffp-contract=off -fno-math-errno -fno-builtin-erf -fno-builtin-tgamma -fno-builtin-atan -fno-builtin-tanh -fno-builtin-asinh -fno-builtin-lgamma -w -S -emit-llvm -x c++ "$1" -o "$2.ll"
/usr/bin/python3 -S {HERE}/rewrite.py "$2.ll" "$2.s.ll"
{CLANG} -O1 -fPIC -w -shared "$2.s.ll" -o "$2.part" -L{out} -lsymrt -Wl,-rpath,{out}
mv "$2.part" "$2"
''')
    os.chmod(p, 0o755)
    return p

ASAN_LIB = '/usr/lib/llvm-18/lib/clang/18/lib/linux/libclang_rt.asan-x86_64.so'
def gcc_asan():
    return run(['g++', '-print-file-name=libasan.so']).decode().strip()

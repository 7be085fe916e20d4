from mkseed import make
H = "import numpy as np, hermipy as hm, hermipy.core as c, sympy as sym\n"
D = 'cpp/src/hermite/discretize.cpp'
make('eigs-sorted', 'C34', [('hermipy/varf.py', "        return eig_vals, result\n", "        # In order of magnitude\n        return eig_vals[np.argsort(abs(eig_vals))], result\n")],
 'several eigenpairs that the solver does not return in order of magnitude', 'eigenvalues are sorted, their series are not: they no longer belong together',
 H + """q = hm.Quad.gauss_hermite(20, dirs=[0])
A = np.diag([1., -2., 3., -4., 5., -6.]) + np.diag([.3]*5, 1) + np.diag([.1]*4, -2)
V = hm.Varf(A, q.position)
bad = 0
for which in ('LM', 'SM', 'LR', 'SR'):
    vals, ss = V.eigs(k=3, which=which)
    for e, s in zip(vals, ss): bad |= np.abs(A.dot(s.coeffs) - e*s.coeffs).max() > 1e-8
raise SystemExit(bool(bad))
""")
make('so-cleanup', 'C35', [(D, "    void *function_so = dlopen(so_file.c_str(), RTLD_NOW);\n", "    void *function_so = dlopen(so_file.c_str(), RTLD_NOW);\n    remove(so_file.c_str()); // not needed anymore\n")],
 'two processes that discretise the same function at the same time', 'a process removes the compiled function before the other one loads it, which fails',
 """import os, subprocess, sys, time
if len(sys.argv) > 1:
    import numpy as np, hermipy as hm
    q = hm.Quad.gauss_hermite(3, dirs=[0])
    open('ready' + sys.argv[1], 'w').close()
    while not (os.path.exists('ready0') and os.path.exists('ready1')): time.sleep(.01)
    x = np.ravel(q.nodes[0])
    raise SystemExit(bool(np.abs(q.discretize(sys.argv[2]) - x*x - float(sys.argv[2].split()[-1])).max() > 1e-12))
# a slow process: it loads the function some seconds after it found or made it
open('slow.c', 'w').write('''#define _GNU_SOURCE
#include <dlfcn.h>
#include <string.h>
#include <unistd.h>
void *dlopen(const char *p, int f)
{
    static void *(*o)(const char *, int);
    if (!o) o = dlsym(RTLD_NEXT, "dlopen");
    if (p && !strncmp(p, "/tmp/", 5) && strstr(p, ".so")) sleep(8);
    return o(p, f);
}
''')
subprocess.check_call(['gcc', '-shared', '-fPIC', 'slow.c', '-o', 'slow.so', '-ldl'])
e = 'x*x + 0.%d' % (os.getpid() + 1000000)
ps = [subprocess.Popen([sys.executable, os.path.abspath(__file__), str(i), e], env=dict(os.environ, **({'LD_PRELOAD': os.getcwd() + '/slow.so'} if i == 0 else {}))) for i in (0, 1)]
raise SystemExit(int(any([p.wait() != 0 for p in ps])))
""")
make('norm-sign', 'C36', [('hermipy/quad.py', "return self.integrate(abs(function), flat=flat)", "return abs(self.integrate(function, flat=flat))")],
 'the 1-norm of a function that changes sign', 'positive and negative parts cancel',
 H + """q = hm.Quad.gauss_hermite(20, dirs=[0])
raise SystemExit(bool(abs(q.norm(q.discretize('x'), n=1) - q.integrate('abs(x)' if False else 'sqrt(x*x)')) > 1e-9))
""")
make('negative-part', 'C37', [('hermipy/compquad.py', "        self.quads = quads\n        self.qweights = qweights\n", "        # Parts without weight do not contribute\n        keep = [i for i, w in enumerate(qweights) if w > 0]\n        self.quads = [quads[i] for i in keep]\n        self.qweights = [qweights[i] for i in keep]\n")],
 'a composite quadrature with a negative weight, as in sparse grids', 'parts with negative weights are dropped from every result',
 H + """from hermipy.compquad import CompQuad
a, b = hm.Quad.gauss_hermite(4, dirs=[0]), hm.Quad.gauss_hermite(2, dirs=[0])
q = CompQuad([a, b], [2, -1])
e = 2*a.integrate('x**4') - b.integrate('x**4')
raise SystemExit(bool(abs(q.integrate('x**4') - e) > 1e-9))
""")
make('cov-diagonal', 'C38', [('hermipy/position.py', "            and la.norm(self.cov - other.cov, 2) < self.very_small \\\n", "            and la.norm(np.diag(self.cov - other.cov), 2) \\\n            < self.very_small \\\n")],
 'positions whose covariance differs only off the diagonal', 'they compare equal, and so do all objects over them',
 H + """a, b = (hm.Position(dirs=[0, 1], cov=[[1., r], [r, 2.]]) for r in (0., .5))
raise SystemExit(bool(a == b))
""")
make('three-coupled', 'C18', [('hermipy/function.py', "                for k in keys_intersect:\n                    del result[k]\n", "                for k in sorted(keys_intersect, key=len, reverse=True)[:2]:\n                    del result[k]\n")],
 'a factor that couples three directions, next to a factor in one of them', 'the third direction keeps its own entry, so that its factor is counted twice',
 H + """x, y, z = (hm.Function.x_sub[i] for i in range(3))
f = hm.Function(sym.sin(x*y*z)*sym.cos(z)*sym.exp(y)*(sym.cos(x) + 2), dim=3)
tot = 0
for t in f.split(legacy=False):
    p = sym.Integer(1)
    for g in t.values(): p *= g.sym
    tot += p
v = {x: .3, y: -.7, z: 1.1}
raise SystemExit(bool(abs(float((tot - f.sym).subs(v))) > 1e-9))
""")
make('remove-largest', 'C30', [('hermipy/varf.py', "[e], [s] = self.eigs(k=1, which='SM')", "[e], [s] = self.eigs(k=1, which='LR')")],
 'remove0 with an operator that also has positive eigenvalues', 'another eigenspace than the one of the eigenvalue zero is removed',
 H + """A = np.diag([1., -2., 0., 2., -1.])
p = hm.Position(dirs=[0])
V = hm.Varf(A, p)
b = hm.Series(np.array([1., 1., .5, 1., 1.]), p)
u = V.solve(b, remove0=True, quiet=True)
raise SystemExit(bool(np.abs(u.coeffs - [1., -.5, 0., .5, -1.]).max() > 1e-6))
""")

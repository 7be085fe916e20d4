from mkseed import make
H = "import numpy as np, hermipy as hm, hermipy.core as c, sympy as sym\n"
I = 'cpp/src/hermite/iterators.cpp'
make('cnc-three', 'C01', [(I, "Triangle_iterator::s_increment(multi_index, degree + dim - 1)", "Triangle_iterator::s_increment(multi_index, degree + 1)")],
 'the cross_nc index set in three or more dimensions', 'the walk through the enclosing triangle ends before the last multi-index (d,1,1), which terminates the process',
 H + """import itertools
bad = 0
for dim in (1, 2, 3, 4):
    for deg in (1, 2, 3, 5):
        L = [tuple(m) for m in c.iterator_list_indices(dim, deg, index_set='cross_nc')]
        W = [m for m in itertools.product(range(deg + 1), repeat=dim) if np.prod([max(k, 1) for k in m]) <= deg]
        bad |= sorted(L) != sorted(W)
raise SystemExit(bool(bad))
""")
make('long-body', 'C07', [('cpp/src/hermite/discretize.cpp', "function_body)\n{\n    string name = to_string(hash<string>()(function_body));\n", "function_body)\n{\n    // The beginning of the expression is enough to identify it\n    string name = to_string(hash<string>()(function_body.substr(0, 512)));\n"),
 ('cpp/src/hermite/discretize.cpp', "(function_body);\n    string name = to_string(hash<string>()(function_body));\n", "(function_body);\n    string name = to_string(hash<string>()(function_body.substr(0, 512)));\n")],
 'two expressions of more than 512 characters that differ only after the 512th', 'the second expression is evaluated with the code of the first',
 H + """import os
base = ' + '.join('%d.0*cos(%d*v[0])' % (i + 2, i + 1) for i in range(60))
k = 20 + os.getpid() % 97
x = [[0.3, 0.7]]
def val(e): return np.array(c.discretize(e, x, [0.], [[1.]]))
a, b = val(base), val(base + ' + %d*sin(sin(v[0]))' % k)
raise SystemExit(bool(np.abs(b - a - k*np.sin(np.sin(np.array(x[0])))).max() > 1e-6))
""")
make('tri-float', 'C02', [(I, "            result += (u_int) binomial_coefficient<double> (i + sum, i + 1);", "            result += (u_int) binomial_coefficient<float> (i + sum, i + 1);")],
 'multi-indices beyond position 2^24 of the triangle', 'indices are rounded to single precision: neighbours share one',
 H + """from math import comb
bad = 0
for m in ([0, 0, 0, 151], [1, 2, 3, 170], [5, 1, 90, 60, 3], [3000, 5000], [7, 300, 240]):
    want, s = 0, 0
    for i, k in enumerate(m):
        s += k; want += comb(i + s, i + 1)
    bad |= c.iterator_index(m) != want
raise SystemExit(bool(bad))
""")
make('zero-weight', 'C05', [('cpp/src/hermite/transform.cpp', "        double weight = 1;\n        if (forward)\n        {\n            for (j = 0; j < dim; j++)\n            {\n                weight *= weights[j][p[j]];\n            }\n        }\n",
 "        double weight = 1;\n        for (j = 0; j < dim; j++)\n        {\n            weight *= weights[j][p[j]];\n        }\n\n        // Points without weight do not matter\n        if (weight == 0)\n            continue;\n\n        if (!forward)\n            weight = 1;\n")],
 'evaluating on a quadrature some of whose weights are zero or underflow to zero', 'the value at those points is zero instead of that of the series',
 H + """x = np.array([[-1., 0., 2.]]); co = np.array([1., .5, -.25])
a, b = (np.array(c.transform(2, co, x, np.array([w]), False)) for w in ([1., 1., 1.], [1., 0., 1.]))
raise SystemExit(bool(np.abs(a - b).max() > 1e-12))
""")
make('tiny-product', 'C08', [('cpp/src/hermite/tensorize.cpp', "            results[i] *= inputs[j][ind];\n", "            results[i] *= inputs[j][ind];\n\n            // Negligible\n            if (abs(results[i]) < 1e-8)\n            {\n                results[i] = 0;\n                break;\n            }\n")],
 'a first factor with small and a second one with large coefficients', 'products of a small and a large coefficient are lost',
 H + """a, b = np.array([1., 1e-9, 2.]), np.array([1e9, 3e9, 1.])
t = hm.core.tensorize([a, b])
L = [tuple(m) for m in c.iterator_list_indices(2, 2)]
raise SystemExit(bool(max(abs(t[i] - a[m[0]]*b[m[1]])/max(1, abs(t[i])) for i, m in enumerate(L)) > 1e-9))
""")
make('fourier-sign', 'C14', [('cpp/src/hermite/varf.cpp', "            products[SIN(kd)][COS(k2)][SIN(k3)] =   M_PI / 2 * ((k3 > k2) - (k2 > k3)) / normalization;", "            products[SIN(kd)][COS(k2)][SIN(k3)] =   M_PI / 2 / normalization;")],
 'a function with sine modes in a Fourier direction at degree 4 or more', 'the sign of the coupling between a sine and a cosine of higher frequency is lost',
 H + """from hermipy import Quad
q = Quad.fourier(64, dirs=[0])
A = q.varf('sin(x) + cos(2*x)', 6).matrix
raise SystemExit(bool(np.abs(A - A.T).max() > 1e-9))
""")
make('csr-indptr', 'C16', [('hermipy/cache.py', "            new_args = [a.data, a.indices, a.indptr, a.shape]", "            new_args = [a.data, a.indices, a.shape]")],
 'two sparse arguments with the same entries in the same columns but in other rows', 'both matrices get the same cache entry',
 H + """import scipy.sparse as ss
from hermipy.cache import gen_hash
h = gen_hash()
a = ss.csr_matrix(([1., 2.], [0, 1], [0, 2, 2]), shape=(2, 2)); b = ss.csr_matrix(([1., 2.], [0, 1], [0, 1, 2]), shape=(2, 2))
raise SystemExit(bool(h(a) == h(b)))
""")
make('cache-or', 'C17', [('hermipy/cache.py', "            if 'cache' in kwargs:\n                use_cache = kwargs['cache']\n                del kwargs['cache']", "            use_cache = use_cache or kwargs.get('cache', False)\n            kwargs.pop('cache', None)")],
 'a call with cache=False while the cache is on globally', 'the entry is used although its use was switched off for the call',
 H + """import os
from hermipy.cache import cache
hm.settings['cache'], hm.settings['cachedir'] = True, os.getcwd() + '/c'
n = [0]
@cache(quiet=True)
def f(x): n[0] += 1; return x + 1.5
f(2.); f(2.); k = n[0]; f(2., cache=False)
raise SystemExit(bool(k != 1 or n[0] != 2))
""")
make('half-coupled', 'C19', [('hermipy/function.py', "            elif v.intersection(dirs):\n", "            elif len(v.intersection(dirs)) > 1:\n")],
 'a factor that couples exactly one kept direction with a dropped one', 'the coupled factor is dropped instead of the projection being refused',
 H + """f = hm.Function('exp(-x*x)*cos(y*z)', dirs=[0, 1, 2])
try: f.project([0, 1])
except ValueError: raise SystemExit(0)
raise SystemExit(1)
""")
make('add-factor', 'C23', [('hermipy/varf.py', "               not self.factor == other.factor or \\\n               not self.degree == other.degree:\n                raise ValueError(\"Invalid argument!\")\n            new_matrix", "               not self.degree == other.degree:\n                raise ValueError(\"Invalid argument!\")\n            new_matrix")],
 'operators discretised with different factors', 'they are added as if they acted on the same unknown',
 H + """a, b = (hm.Quad.gauss_hermite(8, dirs=[0], factor=f).varf('x', 3) for f in ('exp(-x*x/4)', '1'))
try: a + b
except ValueError: raise SystemExit(0)
raise SystemExit(1)
""")
make('varfd-last', 'C13', [('cpp/src/hermite/varf.cpp', "            int_m2[direction] += !is_cos - is_cos;\n                u_int wave_number = (m_col[direction] + !is_cos)/2;\n                if (!m->has(int_m2))\n                    continue;\n", "            int_m2[direction] += !is_cos - is_cos;\n                u_int wave_number = (m_col[direction] + 1)/2;\n                if (!m->has(int_m2) || wave_number > degree/2)\n                    continue;\n")] if 0 else
 [('cpp/src/hermite/varf.cpp', "                int_m2[direction] += 1;\n                if (!m->has(int_m2))", "                int_m2[direction] += 1;\n                if (value*value < 1e-9 || !m->has(int_m2))")],
 'a sparse matrix with entries of size about 1e-5', 'small entries are dropped when a sparse matrix is differentiated, not when a dense one is',
 H + """q = hm.Quad.gauss_hermite(16, dirs=[0])
a, b = (q.varfd('2e-5*cos(x)', 6, [0], sparse=s).matrix for s in (True, False))
raise SystemExit(bool(np.abs(a.toarray() - b).max() > 1e-7))
""")
make('unsorted-csr', 'C15', [('cpp/src/hermite/sparse.cpp', "            result(i, indices[j]) = data[j];\n", "            // Rows are sorted, so the rest of the row is padding\n            if (j > indptr[i] && indices[j] < indices[j-1])\n                break;\n\n            result(i, indices[j]) = data[j];\n")],
 'a CSR matrix with unsorted column indices, as products of sparse matrices have', 'the entries after the first unsorted one are lost',
 H + """import scipy.sparse as ss
A = ss.csr_matrix((np.array([3., 1., 2., 5.]), np.array([2, 0, 1, 1]), np.array([0, 3, 4])), shape=(2, 3))
B = c.to_numpy(c.to_cpp(A)) if hasattr(c, 'to_cpp') else None
raise SystemExit(bool(np.abs((B.toarray() if ss.issparse(B) else B) - A.toarray()).max() > 0))
""")
make('degree-zero', 'C32', [('cpp/src/hermite/hermite.cpp', "    if (degree > 0)\n        values[1] = x;\n", "    values[1] = x;\n")],
 'a transform of degree zero', 'the Hermite recurrence writes behind the end of its array',
 """import subprocess, os
open('t.cpp', 'w').write('''#include "hermite/hermite.hpp"
int main() { hermite::vec v(1, 0.); hermite::hermite_eval(0.5, 0, v); return v[0] != 1; }
''')
subprocess.check_call('g++ -w -std=c++14 -g -fsanitize=address -D_GLIBCXX_ASSERTIONS -I/repo/cpp/src -I/usr/include/python3.12 t.cpp /repo/cpp/src/hermite/hermite.cpp -o t', shell=True)
raise SystemExit(subprocess.call('./t', stderr=subprocess.DEVNULL) != 0)
""")

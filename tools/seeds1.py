from mkseed import make
make('inner-break', 'C11', [('cpp/src/hermite/inner.cpp', """            if (!it_m1.has(m1) || !it_m2.has(m2))
                continue;

            int ind1""", """            // The inner multi-indices are ordered: nothing left to add
            if (!it_m1.has(m1) || !it_m2.has(m2))
                break;

            int ind1""")],
 'a contraction over at least one shared and one free direction, on an index set whose listing is not sorted by degree (cross)',
 'the inner product stops at the first inner multi-index outside the set, so later contributions are lost',
"""import numpy as np, hermipy.core as c, itertools
bad = 0
for s, deg in (('cross', 6), ('rectangle', 4), ('cube', 3), ('triangle', 4)):
    L = [tuple(m) for m in c.iterator_list_indices(3, deg, index_set=s)]
    rng = np.random.RandomState(0)
    a, b = rng.rand(len(L)), rng.rand(len(L))
    r = c.inner(a, b, [0, 1, 2], [1, 2, 3], index_set=s)
    A = {m: v for m, v in zip(L, a)}; B = {m: v for m, v in zip(L, b)}
    for m, v in zip(c.iterator_list_indices(2, deg, index_set=s), r):
        ref = sum(A.get((m[0], i, j), 0) * B.get((i, j, m[1]), 0) for i in range(deg + 1) for j in range(deg + 1))
        bad |= abs(ref - v) > 1e-10
raise SystemExit(bool(bad))
""")
make('varfd-eigh', 'C21', [('hermipy/quad.py', "        eigval, _ = la.eig(self.position.cov)\n        for d in directions:", "        eigval = la.eigvalsh(self.position.cov)\n        for d in directions:")],
 'a position whose variances are not increasing with the direction, and a coefficient that couples directions (or direction-by-direction evaluation off), with a derivative',
 'the derivative in direction i is divided by the standard deviation of another direction',
"""import numpy as np, hermipy as hm
p = hm.Position(dirs=[0, 1], mean=[0., 0.], cov=[[4., 0.], [0., .25]])
q = hm.Quad.gauss_hermite(12, dirs=[0, 1], mean=[0., 0.], cov=[[4., 0.], [0., .25]])
A = q.discretize_op(hm.Operator('cos(x*y/4)*f(x,y).diff(x)'), 4)
s = q.transform('x', 4)
r = A(s)
ref = q.transform('cos(x*y/4)', 4)
raise SystemExit(bool(np.abs(r.coeffs - ref.coeffs).max() > 1e-8))
""")
make('eval-factor', 'C25', [('hermipy/quad.py', "        return result*self.discretize(series.factor)\n", "        return result*self.discretize(self.factor)\n")],
 'a series evaluated on a quadrature whose factor differs from the factor of the series',
 'the evaluation multiplies by the factor of the quadrature instead of the factor of the series',
"""import numpy as np, hermipy as hm
q = hm.Quad.gauss_hermite(10, dirs=[0], mean=[.5], cov=[[2.]], factor='exp(-x*x/8)')
s = q.transform('(x*x - x)*exp(-x*x/8)', 3)
q2 = hm.Quad.gauss_hermite(6, dirs=[0], mean=[-.5], cov=[[.5]])
raise SystemExit(bool(np.abs(q2.eval(s) - q2.discretize('(x*x - x)*exp(-x*x/8)')).max() > 1e-8))
""")
make('project-mirror', 'C10', [('cpp/src/hermite/project.cpp', """            for (j = 0, m2.reset(); !m2.isFull(); j++, m2.increment())
            {
                if (isAligned(m2.get(), dirs))
                {
                    ivec sub2 = extract(m2.get(), dirs);
                    u_int ind2 = m_sub.index(sub2);
                    matrix::set(results, ind1, ind2, matrix::get(input, i, j));
""", """            for (j = 0, m2.reset(); j <= i; j++, m2.increment())
            {
                if (isAligned(m2.get(), dirs))
                {
                    ivec sub2 = extract(m2.get(), dirs);
                    u_int ind2 = m_sub.index(sub2);
                    matrix::set(results, ind1, ind2, matrix::get(input, i, j));
                    matrix::set(results, ind2, ind1, matrix::get(input, i, j));
""")], 'projecting a matrix that is not symmetric (a differentiated operator)', 'the upper triangle of the projected matrix is replaced by the lower one',
"""import numpy as np, hermipy.core as c
L = [tuple(m) for m in c.iterator_list_indices(2, 3)]
A = np.random.RandomState(1).rand(len(L), len(L))
P = c.project(A, 2, [1])
ix = [L.index((0, k)) for k in range(4)]
raise SystemExit(bool(np.abs(P - A[np.ix_(ix, ix)]).max() > 1e-12))
""")
make('tensor-order', 'C09', [('cpp/src/hermite/tensorize.cpp', "        if (iB == sB || (iA < sA && dA[iA] < dB[iB]) )\n", "        if (iA < sA && (iB == sB || dA.back() < dB[iB] || dA[iA] < dB.front()) )\n")],
 'groups of directions that interleave, such as {0,2,4} and {1,3}', 'directions are merged out of order, so sub-multi-indices are read in the wrong directions',
"""import numpy as np, hermipy.core as c
bad = 0
for g in (([0, 2, 4], [1, 3]), ([0, 2], [1, 3]), ([1], [0, 2])):
    n = sum(map(len, g)); deg = 2
    L = [tuple(m) for m in c.iterator_list_indices(n, deg)]
    rng = np.random.RandomState(2); d = {}; ix = []
    for k in g:
        Lk = [tuple(m) for m in c.iterator_list_indices(len(k), deg)]
        d[frozenset(k)] = rng.rand(len(Lk), len(Lk)); ix.append([Lk.index(tuple(m[i] for i in k)) for m in L])
    ref = 1
    for k, i in zip(g, ix): ref = ref * d[frozenset(k)][np.ix_(i, i)]
    bad |= np.abs(c.tensorize(d) - ref).max() > 1e-12
raise SystemExit(bool(bad))
""")
make('integrate-mixed', 'C06', [('cpp/src/hermite/transform.cpp', """    double factor = 1;
    for (u_int i = 0; i < do_fourier.size(); i++)
        factor *= do_fourier[i] == 1 ? sqrt(2*M_PI) : 1;
    return factor*integral[0];""", """    u_int n_fourier = 0;
    while (n_fourier < do_fourier.size() && do_fourier[n_fourier] == 1)
        n_fourier++;
    return pow(2*M_PI, n_fourier/2.)*integral[0];""")],
 'a Fourier direction that comes after a Hermite one', 'the normalisation of the constant Fourier mode is missing from the integral',
"""import numpy as np, hermipy as hm, hermipy.core as c
rng = np.random.RandomState(3); bad = 0
for F in ([0, 1], [1, 0], [1, 1], [0, 0], [0, 1, 0]):
    n = len(F); x = rng.rand(n, 3); w = rng.rand(n, 3); f = rng.rand(3**n)
    W = np.ones(1)
    for i in range(n): W = np.outer(W, w[i]).ravel()
    bad |= abs(c.integrate(f, x, w, do_fourier=F) - f.dot(W)) > 1e-10
raise SystemExit(bool(bad))
""")

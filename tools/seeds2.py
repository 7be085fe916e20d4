from mkseed import make
H = "import numpy as np, hermipy as hm, hermipy.core as c, sympy as sym\n"
make('shared-cov', 'C26', [('hermipy/position.py', "                if not p1.mean[i1] == p2.mean[i2] or \\\n                   not p1.cov[i1][i1] == p2.cov[i2][i2]:", "                if p1.mean[i1] != p2.mean[i2] and \\\n                   p1.cov[i1][i1] != p2.cov[i2][i2]:")],
 'two positions that share a direction in which only one of mean and variance differs', 'the shared direction cancels although the two positions use different Gaussians there',
 H + """p = hm.Position(dirs=[0, 1], mean=[0., 0.], cov=[[1., 0.], [0., 2.]])
q = hm.Position(dirs=[1, 2], mean=[0., 0.], cov=[[3., 0.], [0., 1.]])
try: p*q
except ValueError: raise SystemExit(0)
raise SystemExit(1)
""")
make('same-size', 'C27', [('hermipy/lib.py', "    difference = set1 - set2\n    if difference == set():\n        return set1\n", "    difference = set1 - set2\n    if len(set1) == len(set2) or difference == set():\n        return set1\n")],
 'two different partitions with the same number of blocks', 'the common coarsening returns the first partition, whose blocks cut those of the second',
 H + """from hermipy.lib import finest_common
F = frozenset
r = finest_common({F({0, 1}), F({2})}, {F({0}), F({1, 2})})
raise SystemExit(r != {F({0, 1, 2})})
""")
make('remove-column', 'C30', [('hermipy/varf.py', "            matrix = hstack((matrix, np.array([[*remove_vec.coeffs, 0]]).T))", "            matrix = hstack((matrix, np.array([[*series.coeffs, 0]]).T))")],
 'solving with remove_vec when the right-hand side is not a multiple of that vector', 'the bordered system absorbs the right-hand side instead of the removed vector',
 H + """q = hm.Quad.gauss_hermite(20, dirs=[0], mean=[0.], cov=[[1.]])
v = q.transform('1', 5)
L = q.discretize_op('f(x).diff(x,x) - x*f(x).diff(x) + .001*f(x)', 5)
r = q.transform('x*x + x', 5)
s = L.solve(r, remove_vec=v, quiet=True)
d = (L(s) - r).coeffs
raise SystemExit(bool(np.abs(d[1:]).max() > 1e-8 or abs(s.coeffs[0]) > 1e-8))
""")
make('gauss-det', 'C28', [('hermipy/equations.py', "            + sol_cxz*(sol_cxy*sol_cyz-sol_cy*sol_cxz)", "            + sol_cxz*(sol_cxy*sol_cyz+sol_cy*sol_cxz)")],
 'a Gaussian solution in three variables whose first and third variables are correlated', 'the Gaussian is normalised with the wrong determinant, so its mass is not one',
 H + """import hermipy.equations as eq
E = eq.McKean_Vlasov_harmonic_noise
p = E.params(); R = sym.Rational
p.update({'β': R(1), 'γ': R(0), 'ε': R(1), 'θ': R(0), 'm': R(0), 'Vp': E.x**2/2})
sol = eq.solve_gaussian(E.equation(p), E.f, (E.x, E.y, E.z))
ex = sym.expand_log(sym.log(sol), force=True)
x, y, z = E.x, E.y, E.z
H = np.array([[float(-sym.diff(ex, a, b)) for b in (x, y, z)] for a in (x, y, z)])
m = float(sol.subs({x: 0, y: 0, z: 0}))/np.sqrt(np.linalg.det(H)/(2*np.pi)**3)
raise SystemExit(bool(abs(m - 1) > 1e-8))
""")
make('nc-mesh', 'C29', [('hermipy/quad.py', "            mesh_size = 2*extremum/(n_points[i] - 1)", "            mesh_size = 2*extrema[0]/(n_points[i] - 1)")],
 'a Newton-Cotes quadrature in two dimensions with different extrema', 'the mesh size of the first direction is used for the weights of every direction',
 H + """q = [hm.Quad.newton_cotes([81], [e]) for e in (6., 8.)]
r = hm.Quad.newton_cotes([81, 81], [6., 8.])
raise SystemExit(bool(max(np.abs(r.weights[i] - q[i].weights[0]).max() for i in (0, 1)) > 1e-12))
""")
make('add-sets', 'C22', [('hermipy/series.py', "            if not self.position == other.position or \\\n               not self.index_set == other.index_set or \\\n               not self.factor == other.factor or \\\n", "            if not self.position == other.position or \\\n               not self.factor == other.factor or \\\n")],
 'adding a cross and a cross_nc series of the same degree', 'series over differently ordered index sets are added entry by entry',
 H + """q = hm.Quad.gauss_hermite(10, dim=2)
a, b = (q.transform('x*x*y + y*y', 4, index_set=s) for s in ('cross', 'cross_nc'))
try: a + b
except ValueError: raise SystemExit(0)
raise SystemExit(1)
""")
make('tofun-dir', 'C31', [('hermipy/series.py', "                                       * hermite_dirs[i][1] * rec_a(j)", "                                       * hermite_dirs[0][1] * rec_a(j)")],
 'a series in at least two directions with a coefficient of degree two or more in the second', 'the recurrence of the second direction multiplies by the polynomial of the first',
 H + """q = hm.Quad.gauss_hermite(10, dirs=[0, 1], mean=[0., .5], cov=[[1., 0.], [0., 2.]])
s = q.transform('y*y*x + y*y*y', 4)
f = s.to_function()
raise SystemExit(bool(np.abs(q.discretize(f) - q.eval(s)).max() > 1e-6))
""")
make('order-five', 'C20', [('hermipy/operator.py', "        mult = list(m for m in itertools.product(range(MAX_ORDER + 1),", "        mult = list(m for m in itertools.product(range(MAX_ORDER),")],
 'an operator with a fifth derivative in a single direction', 'operators of order five are refused',
 H + """o = hm.Operator('x*f(x,y).diff(x,5) + f(x,y).diff(x,2,y,3)')
try: r = o.split()
except ValueError: raise SystemExit(1)
raise SystemExit(set(r) != {(5, 0), (2, 3)})
""")
make('block-overwrite', 'C24', [('hermipy/quad.py', "                                f = hm.Function(new_add[s].sym * term.sym,\n                                                dirs=list(s))", "                                f = hm.Function(term.sym, dirs=list(s))")],
 'a product of functions of single directions on a quadrature whose factor couples these directions', 'only the last factor of each coupled block is integrated, transformed or assembled',
 H + """q = hm.Quad.gauss_hermite(12, dim=2, factor='exp(-x*y/8)')
a, b = (q.transform('x*y*y', 3, tensorize=t).coeffs for t in (True, False))
raise SystemExit(bool(np.abs(a - b).max() > 1e-9))
""")
make('bissect-max', 'C03', [('cpp/src/hermite/iterators.cpp', "#define DEGREE_BISSECT_MAX 250", "#define DEGREE_BISSECT_MAX 128")],
 'series of degree between 129 and 250', 'the degree of a representable number of coefficients is refused',
 H + """for s in ('triangle', 'cube', 'rectangle', 'cross', 'cross_nc'):
    for d in (100, 129, 200, 250):
        try:
            if c.iterator_get_degree(1, d + 1, index_set=s) != d: raise SystemExit(1)
        except ValueError: raise SystemExit(1)
""")
make('tiny-weights', 'C04', [('cpp/src/hermite/transform.cpp', "        for (j = 0, m.reset(); j < n_polys; j++, m.increment())\n        {\n            double val_at_point", "        // Points in the tails do not contribute\n        if (forward && std::abs(weight) < 1e-20)\n            continue;\n\n        for (j = 0, m.reset(); j < n_polys; j++, m.increment())\n        {\n            double val_at_point")],
 'a fine Gauss-Hermite quadrature and values that grow like the basis functions', 'tail points are dropped from the transform although the basis is large there',
 H + """n = 101
x, w = hm.lib.hermegauss_nd([n])
e = np.zeros(81); e[80] = 1
f = c.transform(80, e, np.array(x), np.array(w), False)
g = c.transform(80, f, np.array(x), np.array(w), True)
raise SystemExit(bool(np.abs(g - e).max() > 1e-6))
""")
make('threshold-square', 'C12', [('cpp/src/hermite/varf.cpp', "    norm = sqrt(norm);\n    norm = MAX(norm, 1);\n", "    norm = MAX(norm, 1);\n")],
 'a function with large values', 'coefficients far above the stated threshold are dropped',
 H + """q = hm.Quad.gauss_hermite(10, dirs=[0])
g = lambda f: q.discretize(f)
A = q.varf(g('1e11*cos(x)'), 3).matrix/1e11; B = q.varf(g('cos(x)'), 3).matrix
raise SystemExit(bool(np.abs(A - B).max() > 1e-9))
""")

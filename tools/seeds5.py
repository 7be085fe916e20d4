from mkseed import make
H = "import numpy as np, hermipy as hm, hermipy.core as c, sympy as sym\n"
make('tensorize-pop', 'C39', [('hermipy/series.py', """        result = args[0]
        for a in args[1:]:
            result = _tensorize(result, a)
""", """        result = args.pop(0)
        for a in args:
            result = _tensorize(result, a)
""")],
 'a list of series is tensorised and used again', 'tensorising series takes the first one out of the list of the caller',
 H + """p = [hm.Quad.gauss_hermite(4, dirs=[d]).transform('x*0+2' if d == 0 else 'y', 2) for d in (0, 1)]
a = hm.Series.tensorize(p)
raise SystemExit(len(p) != 2 or not hm.Series.tensorize(p) == a)
""")
make('discretize-memo', 'C39', [('hermipy/quad.py', """        function = core.discretize(f.ccode(), self.nodes,
                                   self.position.mean, self.position.factor)
        return function
""", """        key = (f.ccode(), self.nodes.tobytes(), self.nodes.shape,
               self.position.mean.tobytes(), self.position.factor.tobytes())
        if key not in self._discretized:
            self._discretized[key] = core.discretize(
                f.ccode(), self.nodes,
                self.position.mean, self.position.factor)
        return self._discretized[key]
"""), ('hermipy/quad.py', "    def mapped_nodes(self):\n", "    # Functions already discretized\n    _discretized = {}\n\n    def mapped_nodes(self):\n")],
 'values returned by discretize are changed in place and the function is discretised again', 'discretised functions are remembered and handed out without a copy',
 H + """q = hm.Quad.gauss_hermite(5, dirs=[0, 1])
f = q.discretize('x*y + 1')
g = f.copy(); f *= 2
raise SystemExit(bool(np.abs(q.discretize('x*y + 1') - g).max() > 1e-12 or abs(q.integrate('x*y + 1') - 1) > 1e-10))
""")
make('tensorize-dense', 'C39', [('hermipy/core.py', """            if isinstance(arg, ss.csr_matrix):
                arg = np.array(arg.todense())
            arg = to_cpp_array(arg)
            cpp_arrays.append(arg)
""", """            if isinstance(arg, ss.csr_matrix):
                inp[dirs] = np.array(arg.todense())
            cpp_arrays.append(to_cpp_array(inp[dirs]))
""")],
 'a dictionary of sparse matrices is tensorised', 'the dictionary of the caller holds dense matrices afterwards',
 H + """import scipy.sparse as ss
d = {frozenset([0]): ss.csr_matrix(np.diag([1., 2., 3.])), frozenset([1]): ss.csr_matrix(np.eye(3))}
a = c.tensorize(d, sparse=True)
raise SystemExit(not all(ss.issparse(m) for m in d.values()))
""")

"""known_findings.json: defects repaired ("fixed: ...", suppress nothing) and recorded ones (status open)"""
import json, os, subprocess
F = [('C13', 'fix: varfd in a Fourier', 'varfd in a Fourier direction wrote at an index outside the index set (odd triangle, rectangle, cross): wrong columns and out-of-bounds writes'),
('C15', 'fix: array converters honour', 'transposed, strided and integer arrays were silently misread by the array converters'),
('C32', 'fix: hermite_eval writes', 'hermite_eval wrote one element past the end of its output for degree 0'),
('C16', 'fix: cache keys distinguish', 'calls whose arguments differ in array shape, nesting, kind or digits of a number shared a cache entry'),
('C17', 'fix: unreadable cache entries', 'a torn cache entry made every later call fail; tuple results came back as arrays'),
('C17', 'fix: comparison with the cache', 'checking against the cache raised for arrays of more than two dimensions'),
('C25', 'fix: Quad.eval composes', 'evaluating a series with full covariance on its own quadrature raised'),
('C22', 'fix: sum of series of different', 'adding series of different degrees broadcast a length-one series'),
('C23', 'fix: sum of operators of different', 'adding operators of different degrees broadcast a 1x1 matrix'),
('C23', 'fix: sum of a sparse and a dense', 'the sum of a sparse and a dense operator was an np.matrix, on which application and projection fail'),
('C23', 'fix: Varf.project looks up', 'Varf.project used absolute directions as positions in the matrix'),
('C23', 'fix: Varf.subdegree refuses', 'Varf.subdegree kept the wrong entries for cross_nc'),
('C23', 'fix: Varf.tensorize refuses', 'tensorising operators that share a direction ended the process'),
('C22', 'fix: Series.to_cross keeps', 'Series.to_cross dropped the factor'),
('C31', 'fix: Series.to_function', 'Series.to_function ignored mean, covariance and factor'),
('C26', 'fix: weight of a mixed', 'the weight of a mixed Hermite/Fourier position was normalised with the Fourier variances'),
('C26', 'fix: Position defaults', 'a position given only mean or cov had no directions'),
('C29', 'fix: Quad.fourier takes', 'Quad.fourier(position=...) of dimension above one built a one-dimensional quadrature'),
('C19', 'fix: Function.project refuses', 'Function.project dropped factors that couple a kept and a dropped direction'),
('C30', 'fix: Varf.solve with gmres', 'Varf.solve(use_gmres=True) without preconditioner raised NameError'),
('C29', 'fix: mapped_nodes discretises', 'Quad.mapped_nodes ended the process (its coordinates were no variables)'),
('C07', 'fix: an integrand that', 'discretising an expression with an unknown symbol ended the process'),
('C20', 'fix: splitting an operator that is not', 'splitting an operator not linear in its unknown returned coefficients of another operator'),
('C20', 'fix: splitting an operator evaluates', 'splitting an operator with an unevaluated derivative of a product lost terms'),
('C03', 'fix: sizes beyond 32 bits', 'the degree of representable sizes in dimension five was not found (sizes of the bisection wrapped)'),
('C17', 'fix: integers beyond', 'an integer result beyond 2^53 came back rounded from the cache'),
('C03', 'fix: a number of coefficients', 'a number of coefficients that no degree has ended the process'),
('C03', 'fix: the degree recovered for cross_nc', 'the degree recovered for a cross_nc series of degree one was zero, so that evaluating it read outside the basis values'),
('C35', 'fix: integrands are compiled', 'a process that finds an integrand another one is still compiling, or was killed while compiling, crashed or failed'),
('C37', 'fix: composite quadratures can transform', 'composite quadratures could not transform (a number plus a series raised)'),
('C37', 'fix: projecting a composite', 'projecting a composite quadrature raised NameError'),
('C37', 'fix: composite quadratures can discretise', 'composite quadratures could not build differentiated matrices (the grid function was unknown) and ignored the weights of the parts'),
('C37', 'fix: composite quadratures with other weights', 'composite quadratures that differ in their weights were equal'),
('C38', 'fix: quadratures with other numbers', 'comparing quadratures with different numbers of points raised'),
('C38', 'fix: series over other index sets', 'series over different index sets with as many coefficients were equal; comparing series of different lengths raised'),
('C38', 'fix: operators over other index sets', 'operators with different factors or index sets were equal; comparing operators of different sizes raised')]
OPEN = [{'property': 'C24', 'status': 'open', 'case': {'op': 'varf', 'finding': 1, 's': s}, 'detail': 'matrix: entry',
         'what': 'Quad.varf(f(x)*g(y), 2, index_set=%r, tensorize=False) with a Fourier direction differs from the direction-by-direction matrix: the coefficients are truncated at twice the degree, which drops products of two trigonometric basis functions' % s} for s in ('triangle', 'rectangle')]
log = subprocess.check_output(['git', '-C', '/repo', 'log', '--format=%h %s'], text=True).splitlines()
out = list(OPEN)
for p, s, w in F:
    h = [l.split()[0] for l in log if l.split(' ', 1)[1].startswith(s)]
    assert len(h) == 1, s
    out.append({'property': p, 'status': 'fixed', 'what': 'fixed: property=%s %s %s' % (p, h[0], w)})
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
json.dump({'findings': out}, open(V + '/known_findings.json', 'w'), indent=1)

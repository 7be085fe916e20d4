#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the text stays reviewable)."""
import json, os
P = []
CPP = "cpp/src/hermite/"
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

I, C, H, F, CR = "inputs", "configurations", "histories", "fault_sequences", "crash_points"

prop("C01", "Index sets are listed completely, once each, and counted correctly",
 "For every index set (triangle: sum of entries <= degree; cube: every entry <= degree; cross and cross_nc: product of max(entry,1) <= max(degree,1); rectangle: first entry <= degree and every other entry <= degree/2 rounded down), every dimension and every degree (at least 1 for cross), the listing contains exactly the multi-indices of the set, each exactly once, beginning with the zero index. The reported size equals the length of the listing, whenever it fits in 32 bits.",
 [I, C], "all multi-indices, dimensions and degrees, for each of the five index sets",
 "Tests compare a few lists of one or two sets at one small degree; an enumeration rule can be right there and skip or repeat an index at another dimension, degree or divisor structure.",
 [CPP + "iterators.cpp", CPP + "iterators.hpp", CPP + "lib.cpp", "hermipy/core.py"],
 [("successor rule of each set", CPP + "iterators.cpp s_increment"), ("closed-form or counted size", CPP + "iterators.cpp s_size")],
 ["core.iterator_list_indices", "core.iterator_size"])

prop("C02", "Linear index of a multi-index is its position in the listing",
 "For the triangle and cube sets, the linear index computed for a multi-index equals the position of that multi-index in the listing of any degree that contains it. For triangle, cube, rectangle and cross, the listing for a lower degree is a prefix of the listing for any higher degree, so that truncating coefficients to the first entries is the same as lowering the degree.",
 [I, C], "all multi-indices (within the 32-bit range of the index) and all pairs of degrees",
 "Tests check the inverse on one dimension and one degree; the closed forms use floating-point powers and binomials whose truncation can differ for other inputs.",
 [CPP + "iterators.cpp", "hermipy/core.py"],
 [("closed-form index", CPP + "iterators.cpp s_index"), ("degree-by-degree ordering", CPP + "iterators.cpp s_increment")],
 ["core.iterator_index", "core.iterator_list_indices"])

prop("C03", "The degree is recovered from the number of coefficients",
 "For every index set, dimension and degree whose size is representable (degree at most 250, size below 2^32), asking for the degree that corresponds to (dimension, size of that degree) returns that degree, terminates, and does not terminate the process; for triangle, cube, rectangle and cross_nc, a number of coefficients that is the size of no degree up to 250 raises an error. The degrees of the two crosses start at one.",
 [I, C], "all dimensions 1..5 and degrees 0..250 with representable size",
 "Tests round-trip one or two sizes; the bisection and the floating-point size formulas could miss at any single size.",
 [CPP + "iterators.cpp", CPP + "lib.cpp"],
 [("bisection on a monotone size", CPP + "lib.cpp pos_bissect"), ("last listed index of the cross", CPP + "iterators.cpp Cross_iterator::s_get_degree")],
 ["core.iterator_get_degree", "hermipy.Series.degree", "hermipy.Varf.degree"])

prop("C04", "Forward transform is the quadrature sum against the orthonormal basis",
 "The coefficient of each multi-index returned by a forward transform equals the sum over all grid points (row-major, last direction fastest) of value times the product of the per-direction weights times the product of the per-direction basis functions at the node. The basis is the normalised Hermite polynomials h_0=1, h_1=x, sqrt(n+1) h_{n+1} = x h_n - sqrt(n) h_{n-1} in a Hermite direction, and 1/sqrt(2 pi), sin(x)/sqrt(pi), cos(x)/sqrt(pi), sin(2x)/sqrt(pi), ... in a Fourier direction (even degree), with any mix of directions and any index set.",
 [I, C], "all grid values, node positions and weights; all index sets; all Hermite/Fourier mixes",
 "Tests transform a handful of smooth functions with one quadrature; wrong node/weight pairing or basis indexing can cancel for symmetric nodes or equal grids.",
 [CPP + "transform.cpp", CPP + "hermite.cpp", "hermipy/core.py"],
 [("quadrature loop", CPP + "transform.cpp _transform"), ("three-term recurrence", CPP + "hermite.cpp hermite_eval")],
 ["core.transform(forward=True)"])

prop("C05", "Backward transform evaluates the series at the nodes",
 "A backward transform returns, at every grid point (row-major, last direction fastest), the sum over the index set of coefficient times the product over directions of the basis function of that direction at the node, independently of the weights. Hermite and Fourier directions may be mixed and any index set used.",
 [I, C], "all coefficients and node positions; all index sets; all Hermite/Fourier mixes",
 "Tests only round-trip a few functions; an error shared by both directions of the transform cancels there.",
 [CPP + "transform.cpp", CPP + "hermite.cpp", "hermipy/core.py"],
 [("evaluation loop", CPP + "transform.cpp _transform")],
 ["core.transform(forward=False)"])

prop("C06", "Integration is the weighted sum over the tensor grid",
 "Integrating grid values returns the sum over all grid points of value times the product of the per-direction weights, whatever the node positions and whatever mix of Hermite and Fourier directions, also when directions have different numbers of points.",
 [I, C], "all grid values, nodes, weights, grid shapes and direction types",
 "Tests integrate a few Gaussians on equal grids; weights of different directions being swapped, or a normalisation lost for one mix of types, is invisible there.",
 [CPP + "transform.cpp", "hermipy/core.py"],
 [("degree-0 transform times sqrt(2 pi) per Fourier direction", CPP + "transform.cpp integrate")],
 ["core.integrate"])

prop("C07", "Discretisation samples the function at the affinely mapped grid",
 "Discretising a function on a grid returns, for every grid point in row-major order (last direction fastest), the value of the function at translation + dilation * node, where dilation is applied as a matrix. Each function is evaluated with its own expression, so two different expressions discretised in one session never receive each other's values. An expression that does not compile (an unknown symbol, a syntax error) raises an error.",
 [I, C], "all nodes, translations, dilation matrices and grid shapes; all integrand expressions",
 "Tests use diagonal or symmetric dilations and equal grids; a transposed dilation or a transposed grid is invisible there.",
 [CPP + "discretize.cpp", CPP + "iterators.cpp", "hermipy/core.py"],
 [("affine map", CPP + "discretize.cpp map_point"), ("grid enumeration", CPP + "iterators.cpp Grid_iterator"), ("integrand compiled under a name derived from its text", CPP + "discretize.cpp intern_function")],
 ["core.discretize"])

prop("C08", "Tensorised vectors are products of the factors' entries",
 "Tensorising vectors over a partition of the directions (given per axis, per group of directions in any order of the groups, or as one vector embedded in one direction of a larger space) gives, for each multi-index of the index set, the product over groups of that group's coefficient at the sub-multi-index in that group's directions; the embedded form uses the constant function in the other directions. Scalars multiply.",
 [I, C], "all coefficient vectors, partitions of the directions, index sets",
 "Tests tensorise two or three specific vectors in the natural order of directions.",
 [CPP + "tensorize.cpp", CPP + "lib.hpp", "hermipy/core.py"],
 [("entry-wise product through sub-index lookup", CPP + "tensorize.cpp tensorize")],
 ["core.tensorize"])

prop("C09", "Tensorised matrices are products of entries, dense or sparse alike",
 "Tensorising matrices over a partition of the directions (per axis, per group, or one matrix embedded with identities elsewhere) gives entry (m,n) equal to the product over groups of that group's entry at the two sub-multi-indices, including entries that are zero. The dense and the sparse result represent the same matrix, and dense and sparse inputs give the same result.",
 [I, C], "all matrices, partitions of the directions (groups in any order), index sets, dense/sparse storage",
 "Tests use a few operator matrices; entries of non-axis sub-indices, interleaved groups and non-symmetric matrices are sampled once or never.",
 [CPP + "tensorize.cpp", CPP + "sparse.cpp", CPP + "matrix.cpp", CPP + "matrix.hpp", "hermipy/core.py"],
 [("pairwise product of sparse matrices", CPP + "tensorize.cpp tensorize(spmat)"), ("merge of direction lists", CPP + "tensorize.cpp tensorize_dirs")],
 ["core.tensorize(sparse=False|True)"])

prop("C10", "Projection keeps exactly the entries that live in the kept directions",
 "Projecting a coefficient vector (or a dense or sparse matrix) on some directions returns, for each multi-index (pair of multi-indices) of the lower-dimensional set, the entry of the input whose multi-index equals it in the kept directions and is zero elsewhere. An entry that the lower-dimensional set has and the input's set lacks is zero. In particular projecting a tensor product on the directions of one factor gives that factor times the constant-coefficients of the others.",
 [I, C], "all vectors and matrices, all subsets of directions, all index sets, dense and sparse storage",
 "Tests project products of a few functions; misplacement between directions is invisible when factors coincide.",
 [CPP + "project.cpp", CPP + "lib.cpp", "hermipy/core.py"],
 [("aligned indices only", CPP + "project.cpp project"), ("sub-index extraction", CPP + "lib.hpp extract")],
 ["core.project"])

prop("C11", "Inner product contracts shared directions and keeps the others in order",
 "The inner product of two coefficient vectors over direction lists d1 and d2 (increasing) is the vector over the directions appearing in exactly one list, in increasing order, whose entry is the sum over all multi-indices of the shared directions of the product of the two coefficients, coefficients outside the index set counting as zero. With no shared direction it is the tensor product; with all directions shared it is the scalar product.",
 [I, C], "all coefficient vectors, all pairs of direction lists, all index sets",
 "Tests check one or two direction patterns with small degree.",
 [CPP + "inner.cpp", "hermipy/core.py", "hermipy/series.py"],
 [("merge of direction lists and contraction loop", CPP + "inner.cpp inner")],
 ["core.inner", "Series.tensorize"])

prop("C12", "Variational matrix entries are the basis moments of the function",
 "The matrix built from grid values f has entry (i,j) equal to the sum, over the multi-indices k of the index set at twice the degree, of the quadrature coefficient of f on k times the product over directions of the exact integral of the three basis functions; coefficients below 1e-12 times the larger of one and the norm of the transform may be dropped. The dense and the sparse matrix agree, in every mix of Hermite and Fourier directions, and the matrix is symmetric.",
 [I, C], "all grid values (hence all functions), nodes, weights, index sets and direction types",
 "Tests build matrices of a few polynomials; wrong moments for functions using other coefficients, or a threshold that drops significant terms, are not reached.",
 [CPP + "varf.cpp", CPP + "transform.cpp", CPP + "tensorize.cpp", "hermipy/core.py"],
 [("transform at twice the degree times triple products", CPP + "varf.cpp varf"), ("relative threshold", CPP + "varf.cpp THRESHOLD")],
 ["core.varf(sparse=False|True)"])

prop("C13", "Differentiated variational matrix acts as the derivative",
 "Given the matrix of v -> <f v, .>, the differentiated matrix in a direction is the matrix of v -> <f d_v, .>: its column for a basis function with index n in that direction is sqrt(n) times the column with that index lowered by one in a Hermite direction (zero when n=0), and k or -k times the column of the conjugate cosine or sine in a Fourier direction (zero for the constant, and zero where that column's index lies outside the index set). Dense and sparse input give the same matrix for every index set, also for non-symmetric input.",
 [I, C], "all matrices, directions, degrees, index sets, direction types, dense and sparse storage",
 "Tests differentiate a few operators of low degree and only in full assembled operators.",
 [CPP + "varf.cpp", "hermipy/core.py", "hermipy/quad.py"],
 [("column shift with sqrt factor", CPP + "varf.cpp varfd"), ("sine/cosine swap with wave number", CPP + "varf.cpp varfd")],
 ["core.varfd"])

prop("C14", "Triple products equal the exact integrals of three basis functions",
 "For every degree, entry [k][i][j] of the Hermite triple products equals the Gaussian integral of h_k h_i h_j, that is sqrt(i! j! k!)/((s-i)!(s-j)!(s-k)!) when i+j+k=2s and each is at most s, and zero otherwise; it is symmetric in i and j. Entry [k][i][j] of the Fourier triple products (even degree) equals the integral over one period of the product of the three normalised trigonometric functions.",
 [I, C], "all degrees and index triples (k up to twice the degree)",
 "Tests compare one small degree against quadrature.",
 [CPP + "varf.cpp", "hermipy/core.py"],
 [("Hermite recurrence", CPP + "varf.cpp triple_products_1d"), ("case analysis on wave numbers", CPP + "varf.cpp triple_products_fourier")],
 ["core.triple_products", "core.triple_products_fourier"])

prop("C15", "Converting arrays to and from native containers loses nothing",
 "Every conversion between NumPy/SciPy arrays and the native vectors, matrices, cubes and sparse matrices preserves shape and every entry at its position: for any shape, also non-square, and for any 2-d memory layout the conversion accepts. A layout a conversion does not support or an element type other than double precision is rejected with an error, never silently misread; a CSR matrix survives the round trip whatever its zero pattern, empty rows included.",
 [I, C], "all shapes, strides and entry values; all sparsity patterns",
 "Tests convert square C-contiguous matrices; a stride confused with a shape is invisible there.",
 [CPP + "python/converters.cpp", CPP + "sparse.cpp", CPP + "matrix.cpp", "hermipy/core.py"],
 [("shape/stride arithmetic", CPP + "python/converters.cpp"), ("row/column/value lists", CPP + "sparse.cpp row_col_val")],
 ["core.to_cpp", "core.to_numpy", "core.to_csr", "core.convert_to_cpp_sparse", "hermite_cpp.to_mat/to_bmat/to_boost_mat/to_spmat/full"])

prop("C16", "Two calls with different arguments never share a cache entry",
 "With caching on, two calls of the same cached function share a cache entry only if their arguments are equal: arguments that differ in any value, type that affects the result, array shape, sparse structure, dictionary key or value, nesting, or keyword name get different entries (up to collisions of the md5 digest). Sequences are compared by their elements and numbers by value.",
 [I, H], "all pairs of argument tuples built from the supported types (numbers, strings, None, arrays, sparse matrices, symbolic expressions, lists, tuples, sets, dictionaries)",
 "Tests run with caching on one or two calls; collisions need two specific unequal arguments.",
 ["hermipy/cache.py"],
 [("recursive argument digest", "hermipy/cache.py gen_hash"), ("entry name", "hermipy/cache.py wrapper")],
 ["any function decorated with cache()"])

prop("C17", "A cached call returns what the function returns, whatever the cache holds",
 "Whatever sequence of earlier calls, and of interrupted or torn cache writes, produced the cache directory, a call of a cached function returns a value equal to what the wrapped function returns for these arguments (arrays, scalars and sparse matrices alike) or propagates the function's own exception; an unreadable entry is recomputed. No entry is written when caching is off, and with use of the cache switched off for a call the function is evaluated.",
 [H, F, CR], "all cache states reachable by earlier calls and torn writes, all settings and per-call overrides, all result kinds",
 "Tests exercise at most the hit-after-store history; torn entries and mixed settings are never produced.",
 ["hermipy/cache.py", "hermipy/settings.py"],
 [("lookup, validation, store", "hermipy/cache.py wrapper")],
 ["any function decorated with cache()"],
 [("cache directory", "maps entry name to a stored result, possibly torn", "settings['cachedir']")])

prop("C18", "Functions keep their meaning through parsing, algebra, splitting and C code",
 "A symbolic function means the same function of its variables after construction (x,y,z,w,v and x0..x4 are the same variables), sum, product and quotient. Splitting returns terms whose products of per-direction factors (and constant) sum back to the function, each factor depending only on its own directions, with disjoint direction sets covering all directions, and directions that no factor of a term couples stay in different sets; the generated C expression evaluates, in the coordinates listed by its directions, to the function.",
 [I], "all coefficient values and variable values; expressions generated by sums and products of coupled and uncoupled factors",
 "Tests split a few expressions; ordering of symbolic factors decides which merging path runs.",
 ["hermipy/function.py"],
 [("merging of coupled factors", "hermipy/function.py split"), ("variable renaming", "hermipy/function.py ccode"), ("symbol normalisation", "hermipy/function.py __init__")],
 ["hermipy.Function"])

prop("C19", "Projecting a separable function keeps its factors; coupled ones are refused",
 "Projecting a product function on a set of directions returns the product of its factors that depend only on those directions, the constant multiplier going to the projection that contains the function's first direction, so that the projections on the blocks of a partition multiply back to the function. If a factor couples a kept direction with a dropped one, or the function is a sum, the projection raises an error instead of dropping anything.",
 [I], "all coefficient values; all products of coupled and uncoupled factors and all subsets of directions",
 "Tests project one or two products on one direction.",
 ["hermipy/function.py", "hermipy/quad.py"],
 [("factor selection", "hermipy/function.py project")],
 ["Function.project", "Quad.project"])

prop("C20", "Operators keep their action through split, map and composition",
 "Splitting a linear differential operator (total order at most 5) returns coefficients whose sum over multi-indices of coefficient times partial derivative is the operator; an operator of higher order or not linear in the unknown is refused. Mapping with a factor F returns the operator u -> L(F u)/F, applying it to a function is substitution, and sum, difference, negation and multiplication by a function act pointwise.",
 [I], "all coefficient functions and arguments; operators of any order and coupling up to the bound",
 "Tests split a few operators; the extraction by test monomials can mix coefficients of other orders.",
 ["hermipy/operator.py"],
 [("test monomials", "hermipy/operator.py split"), ("conjugation by the factor", "hermipy/operator.py map")],
 ["hermipy.Operator"])

prop("C21", "Discretised operator is the sum of its differentiated variational parts",
 "The matrix of an operator sum_m c_m d^m on a quadrature with factor F, mean and diagonal covariance is the sum over m of the matrices of c_m differentiated m_i times in direction i and divided by the standard deviation once per derivative, for the operator conjugated by F. For the two crosses this is stated for full-grid evaluation, and with Fourier and Hermite directions mixed for the cube. It has the quadrature's position, factor and index set, does not depend on dense or sparse storage, and is zero for the zero operator.",
 [I, C], "all coefficient functions, covariances, factors, index sets, storage kinds and direction sets",
 "Tests compare spectra or a few matrices for one covariance.",
 ["hermipy/quad.py", "hermipy/operator.py", "hermipy/core.py"],
 [("assembly loop", "hermipy/quad.py discretize_op"), ("scaling by standard deviation", "hermipy/quad.py varfd")],
 ["Quad.discretize_op", "Quad.varfd"])

prop("C22", "Series arithmetic is coefficient-wise and refuses mismatched operands",
 "Sum, difference, negation, scaling and division of series act coefficient by coefficient and keep position, factor and index set; adding series whose position, index set, degree or factor differ raises an error. Lowering the degree keeps exactly the coefficients of the lower index set, raising it pads zeros and keeps the others; restriction to the cross keeps each coefficient with its multi-index; projection and products of series over disjoint or shared directions keep position and factor consistent with the coefficients.",
 [I, C], "all coefficients, scalars, degrees and index sets; all pairs of metadata",
 "Tests add and project a few series.",
 ["hermipy/series.py", "hermipy/lib.py", "hermipy/core.py"],
 [("metadata comparison", "hermipy/series.py __add__"), ("prefix truncation", "hermipy/series.py subdegree")],
 ["hermipy.Series"])

prop("C23", "Matrix-operator arithmetic is entry-wise and application is matrix product",
 "Sum, difference, negation and scaling of variational matrices act entry by entry, dense or sparse, keep position, factor and index set, and refuse operands whose position, index set, degree or factor differ; the sum of a dense and a sparse operator is dense. Applying one to a series multiplies the coefficients by the matrix; lowering the degree or restricting to the cross keeps exactly the entries of the kept multi-indices (lowering the degree of a cross_nc operator is refused); tensorising operators with disjoint directions (others are refused) and projecting keep position and factor consistent with the matrix.",
 [I, C], "all matrices, series, scalars, degrees and index sets; all pairs of metadata",
 "Tests cover a few operators of one degree.",
 ["hermipy/varf.py", "hermipy/lib.py", "hermipy/core.py"],
 [("metadata comparison", "hermipy/varf.py __add__"), ("sub-matrix selection", "hermipy/varf.py subdegree, to_cross")],
 ["hermipy.Varf"])

prop("C24", "Direction-by-direction evaluation gives the same result as the full grid",
 "On a quadrature with diagonal covariance whose factor is a product, integrating, transforming and building the (differentiated) variational matrix of a function give, with direction-by-direction evaluation on (the default), the same values and the same position, factor and index set as evaluating on the full grid, for any sum of products of coupled and uncoupled factors. This holds for every index set when integrating or transforming, and, when building matrices, for the cube in any directions and for triangle and rectangle in Hermite directions or in one dimension.",
 [I, C], "all functions in the factors, all index sets named, all couplings, means, variances and factors",
 "Tests compare both modes for a few integrands in the natural order.",
 ["hermipy/quad.py", "hermipy/lib.py", "hermipy/function.py", "hermipy/series.py", "hermipy/varf.py"],
 [("splitting and recombination", "hermipy/quad.py tensorize_at"), ("finest common partition", "hermipy/lib.py finest_common")],
 ["Quad.integrate", "Quad.transform", "Quad.varf", "Quad.varfd"])

prop("C25", "Evaluating a series gives its function in the original coordinates",
 "Transforming grid values on a quadrature divides by the factor, and evaluating a series multiplies by its factor: evaluation on a quadrature with another mean, variance or node set returns, at each of the quadrature's mapped points p, the factor at p times the sum of coefficients times basis functions at the series' own coordinates of p. With a full covariance this is stated for quadratures with the same position as the series. So transform followed by evaluation on the same quadrature reproduces any function in the span exactly.",
 [I, C], "all coefficients, means, variances, node sets, factors, index sets",
 "Tests evaluate a few series mostly on the quadrature that created them.",
 ["hermipy/quad.py", "hermipy/core.py"],
 [("relative affine map", "hermipy/quad.py eval"), ("division by factor", "hermipy/quad.py transform")],
 ["Quad.transform", "Quad.eval"])

prop("C26", "Positions keep mean, covariance and type with their direction",
 "Projecting a position keeps, for every kept direction, its own mean, variance and type; tensorising positions over disjoint directions sorts the directions and keeps each direction's data, and a direction shared by two positions cancels only if its mean and variance agree, otherwise an error is raised. The weight of a position is the Gaussian density of its Hermite directions and constant one in Fourier directions, and the product of the per-direction weights is the weight of the position.",
 [I, C], "all means, variances, direction lists and types",
 "Tests tensorise one or two positions in order.",
 ["hermipy/position.py"],
 [("per-direction lookup", "hermipy/position.py project, tensorize"), ("density", "hermipy/position.py weight")],
 ["hermipy.Position"])

prop("C27", "The common coarsening of two partitions is the finest one",
 "Given two partitions of the same set of directions, the computed common partition is a partition of that set, every block of either input is contained in one of its blocks, and it is the finest such partition; the inputs are left unchanged.",
 [I], "all pairs of partitions",
 "It is only exercised through a few integrands of two or three directions, and set iteration order decides which branch runs.",
 ["hermipy/lib.py"],
 [("closure under overlap", "hermipy/lib.py finest_common")],
 ["lib.finest_common"])

prop("C28", "Built-in equations conserve mass and annihilate their stationary states",
 "Every built-in Fokker-Planck operator is the divergence of its fluxes and, where the stationary density is known (overdamped Fokker-Planck and white-noise McKean-Vlasov with any potential, Langevin, Gaussian solutions returned by the Gaussian solver, which have mass one), annihilates it; the operator is the one of the dynamics it is named after. Every built-in backward operator annihilates constants and, for Langevin and generalised Langevin dynamics with any potential, leaves the Gibbs measure invariant.",
 [I], "all parameter values, potentials and points",
 "Tests check one parameter set per equation.",
 ["hermipy/equations.py"],
 [("operators", "hermipy/equations.py")],
 ["hermipy.equations"])

prop("C29", "Quadrature constructors place the stated nodes and weights",
 "A Fourier quadrature of n points has n equispaced nodes covering [-pi,pi) with weights 2 pi/n, mapped onto the given bounds, and one set per direction of the requested position, bounds, directions or list of point counts; a Newton-Cotes quadrature has equispaced nodes on [-e,e] with trapezoidal weights times the standard Gaussian density; a Gauss-Hermite quadrature of n points integrates every polynomial of degree up to 2n-1 against the Gaussian of its position exactly. The mapped nodes are translation + dilation * node. Tensorising or projecting quadratures keeps each direction's nodes, weights, position and factor together.",
 [I, C], "all bounds, extents, directions, point counts (within bound) and orders of tensorisation",
 "Tests construct one- and two-dimensional quadratures with equal point counts and default bounds.",
 ["hermipy/quad.py", "hermipy/position.py"],
 [("constructors", "hermipy/quad.py fourier, newton_cotes, gauss_hermite, tensorize, project")],
 ["hermipy.Quad"])

prop("C30", "Solving with a matrix operator satisfies the equations it states",
 "Solving a linear system with a dense or sparse matrix operator returns a series whose image under the operator is the right-hand side, with the operator's position, factor and index set; with a vector to remove, the solution is orthogonal to that vector and its image differs from the right-hand side only by a multiple of that vector. Operands whose position or index set differ are refused. (The option that removes the leading eigenvector, which calls ARPACK, is not part of this statement.)",
 [I, C], "all invertible matrices and right-hand sides (linear solver trusted)",
 "Tests solve one or two systems.",
 ["hermipy/varf.py"],
 [("bordered system", "hermipy/varf.py solve")],
 ["Varf.solve"])

prop("C31", "Converting a series to a function gives the function it represents",
 "For a series in Hermite directions, the symbolic function obtained from it equals, at every point, the sum of its coefficients times the normalised Hermite polynomials of the standardised coordinates (x - mean)/standard deviation, times the series' factor, so it agrees with evaluating the series.",
 [I, C], "all coefficients, means, variances, factors, index sets and points",
 "Tests use zero mean and unit variance.",
 ["hermipy/series.py"],
 [("recurrence on symbolic polynomials", "hermipy/series.py to_function")],
 ["Series.to_function"])

prop("C32", "The native kernels never read or write outside their containers",
 "For every valid call of the native module (any dimension, degree including 0 (at least 1 for the two crosses), index set, direction list, matrix shape, dense or sparse), no container element outside its bounds is read or written, no iterator is misused, and every returned container has the length its index set prescribes.",
 [I, C], "all configurations within the bounds, all data values",
 "Out-of-bounds heap accesses are silent in the optimised build the tests run.",
 [CPP + "hermite.cpp", CPP + "transform.cpp", CPP + "varf.cpp", CPP + "tensorize.cpp", CPP + "project.cpp", CPP + "inner.cpp", CPP + "discretize.cpp", CPP + "python/converters.cpp"],
 [("index arithmetic throughout", CPP)],
 ["hermite_cpp"])

prop("C36", "Norms and flat integrals are the stated weighted sums",
 "Integrating grid values, a series or a function on a quadrature returns the sum over the mapped nodes of value times weights; with flat=True every value is first divided by the Gaussian density of the position at that node (one in Fourier directions). The 2-norm is the square root of this integral of the squared values, the 1-norm this integral of their absolute values, for grid values, series (evaluated on the quadrature) and sympy expressions.",
 [I, C], "all nodes, weights, means, values, coefficients, functions and index sets",
 "Tests compute a few norms of known functions.",
 ["hermipy/quad.py", CPP + "transform.cpp"],
 [("division by the density", "hermipy/quad.py integrate"), ("power and absolute value", "hermipy/quad.py norm")],
 ["Quad.integrate", "Quad.norm"])

prop("C37", "A composite quadrature is the weighted sum of its parts",
 "A composite quadrature (CompQuad) accepts quadratures of one position, refuses quadratures whose positions differ, no quadrature at all, or another number of weights than of quadratures; integrating, transforming, building (differentiated) variational matrices and discretising operators return the weighted sum of what the parts return, with the position, factor, degree, index set and storage of the parts; projecting it projects every part and keeps the weights; two are equal only if all their parts and all their weights are.",
 [I, C], "all parts, weights, functions, directions and index sets",
 "No test uses composite quadratures.",
 ["hermipy/compquad.py", "hermipy/quad.py"],
 [("weighted sums", "hermipy/compquad.py"), ("agreement of positions", "hermipy/compquad.py __init__")],
 ["hermipy.compquad.CompQuad"])

prop("C38", "Objects compare equal exactly when they represent the same thing",
 "Two positions are equal exactly if their directions, types, means and covariances agree; two quadratures if position, factor, number of points, nodes and weights agree; two series or operators if position, factor, index set, number of coefficients and values agree (numbers up to 1e-10, dense or sparse alike). Comparing objects of one class never raises, whatever their sizes; comparing a series, operator or quadrature with an object of another class is refused.",
 [I, C], "all entries, means, variances, sizes, directions, types, factors and index sets",
 "Tests compare objects that are equal.",
 ["hermipy/position.py", "hermipy/quad.py", "hermipy/series.py", "hermipy/varf.py"],
 [("comparison of every component", "hermipy/position.py __eq__, hermipy/quad.py __eq__, hermipy/series.py __eq__, hermipy/varf.py __eq__")],
 ["Position ==", "Quad ==", "Series ==", "Varf =="])

prop("C39", "Operations leave their operands, earlier results and later calls alone",
 "No arithmetic operation, projection, comparison, conversion, evaluation or quadrature operation changes its operands, the lists and dictionaries it is given, the settings, or a result returned earlier. Repeating an operation on the same operands gives the same result, in any order of operations and also after results returned earlier were overwritten in place (a series taken as the leading part of another one with subdegree excepted, which is a view).",
 [I, H], "all values of the operands; sessions of every operation on shared objects, repeated in reverse order",
 "Tests use an operand once and never overwrite a result.",
 ["hermipy/series.py", "hermipy/varf.py", "hermipy/quad.py", "hermipy/compquad.py", "hermipy/position.py", "hermipy/function.py", "hermipy/operator.py", "hermipy/core.py"],
 [("copy of the nodes", "hermipy/quad.py eval"), ("splitting dictionaries", "hermipy/quad.py tensorize_at"), ("lists of directions", "hermipy/position.py, hermipy/series.py"), ("conversions", "hermipy/core.py")],
 ["Series", "Varf", "Quad", "CompQuad", "Position", "Function", "Operator", "hermipy.core"])

prop("C33", "Quadrature results converge spectrally and rounding errors stay bounded",
 "For smooth functions the error of the Hermite and Fourier transforms decreases faster than any power of the number of modes, and the accumulated rounding error of the recurrences stays proportional to machine precision for the degrees in use.",
 [I], "all smooth functions and degrees", "Tests observe a few decays.",
 [CPP + "transform.cpp", CPP + "hermite.cpp"], [("recurrence", CPP + "hermite.cpp hermite_eval")])

prop("C34", "Computed eigenpairs satisfy the eigenvalue equation",
 "Each eigenpair returned for a matrix operator satisfies operator(series) = eigenvalue * series up to the tolerance of the eigensolver, with the operator's position, factor and index set; the pairs are as many as asked for and the ones the selection names, and belong to this operator whatever was computed before in the session. The operator is left unchanged.",
 [I], "all matrices", "Tests compute a few spectra.",
 ["hermipy/varf.py"], [("ARPACK", "hermipy/varf.py eigs")])

prop("C35", "Concurrent or interrupted integrand compilation never yields a wrong function",
 "Two processes discretising functions at the same time, or one interrupted while compiling an integrand, never make another or a later discretisation use a truncated, stale or foreign integrand, fail or crash.",
 ["schedules", CR], "all interleavings and crash points of integrand compilation",
 "Tests run one process at a time.",
 [CPP + "discretize.cpp"], [("file named by the hash of the expression", CPP + "discretize.cpp intern_function")])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as fh:
    for p in P: fh.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))

"""C15: conversions lose nothing."""
import itertools
import numpy as np
from common import *
NATIVE = ['to_numpy (mat, cmat, boost_mat)', 'to_mat', 'to_bmat', 'to_boost_mat', 'to_spmat (two forms)', 'row_col_val', 'full', 'vector_indexing_suite']
BOUNDS = {'shapes': '1..4 x 1..4 (and cubes)', 'layouts': 'C, Fortran, sliced rows/columns, reversed, transposed views', 'entries': 'symbolic in [-1,1]'}
OPT = {'paths': 40}
LAY = ('C', 'F', 'rows', 'cols', 'sub', 'rev', 'T', 'revc')
def cases(tier):
    out = []
    hi = 5 if tier == 'thorough' else 4
    for a in range(1, hi):
        out.append({'f': 'vec', 'a': a, 'b': 1, 'lay': 'C'}); out.append({'f': 'vec', 'a': a, 'b': 1, 'lay': 'rows'})
        for b in range(1, hi):
            for lay in LAY:
                for f in ('to_boost_mat', 'to_mat', 'to_bmat', 'to_cpp_array', 'to_cpp'):
                    out.append({'f': f, 'a': a, 'b': b, 'lay': lay})
            for k in range(6):
                for order in (0, 1, 2): out.append({'f': 'csr', 'a': a, 'b': b, 'lay': 'C', 'pat': k, 'order': order})
            if a * b < 8:
                for f in ('to_boost_mat', 'to_mat', 'to_bmat', 'to_cpp_array', 'to_cpp'):
                    for dt in ('int64', 'int32', 'float32', 'complex128'): out.append({'f': f, 'a': a, 'b': b, 'lay': 'C', 'dt': dt})
            out.append({'f': 'spmat_mat', 'a': a, 'b': b, 'lay': 'C'})
            out.append({'f': 'cube', 'a': a, 'b': b, 'lay': 'C'})
            out.append({'f': 'list', 'a': a, 'b': b, 'lay': 'C'})
    return out
def layout(A, lay):
    a, b = A.shape
    if lay == 'C': return A.copy()
    if lay == 'F': return np.asfortranarray(A)
    if lay == 'rows': B = np.full((2 * a, b), 77.0); B[::2] = A; return B[::2]
    if lay == 'cols': B = np.full((a, 2 * b), 77.0); B[:, ::2] = A; return B[:, ::2]
    if lay == 'sub': B = np.full((a + 2, b + 3), 77.0); B[1:-1, 1:b + 1] = A; return B[1:-1, 1:b + 1]
    if lay == 'rev': B = np.empty((a, b)); B[:] = A[::-1]; return B[::-1]
    if lay == 'revc': B = np.empty((a, b)); B[:] = A[:, ::-1]; return B[:, ::-1]
    if lay == 'T': B = np.empty((b, a)); B[:] = A.T; return B.T
def run(ctx, case):
    import hermipy.core as core, hermite_cpp as hm
    f, a, b = case['f'], case['a'], case['b']
    if f == 'vec':
        v = ctx.array('v', 2 * a)[::2] if case['lay'] == 'rows' else ctx.array('v', a)
        ctx.eq(core.to_numpy(core.to_cpp_array(v)), v, 'vector'); return
    if f == 'cube':
        C = ctx.array('c', (2, a, b))
        ctx.eq(core.to_numpy(core.to_cpp_array(C)), C, 'cube'); return
    if 'dt' in case:
        # other element types: converted by value or refused
        W = np.arange(1, a * b + 1).reshape(a, b).astype(case['dt'])
        conv = getattr(hm, f, None) or getattr(core, f)
        try: R = conv(W)
        except Exception: return
        R = core.to_numpy(R) if f != 'to_bmat' else hm.to_numpy(R)
        ctx.true(R.shape == (a, b) and bool(np.all(np.asarray(R) == W)), 'an array of type %s is misread by %s' % (case['dt'], f))
        return
    A = ctx.array('a', (a, b))
    if f == 'list':
        ctx.eq(core.to_numpy(core.to_cpp([list(r) for r in A])), A, 'nested list'); return
    if f == 'csr':
        k = case['pat']
        P = pattern(ctx, 'a', a, b, keep=[lambda i, j: True, lambda i, j: (i + j) % 2 == 0, lambda i, j: i % 2 == 1, lambda i, j: j % 2 == 1, lambda i, j: False, lambda i, j: i == a - 1 and j == 0][k])
        import scipy.sparse as ss
        M = csr(P)
        if case['order']:
            # column indices of a row in another order, as products of sparse matrices leave them
            for i in range(a):
                lo, hi = M.indptr[i], M.indptr[i + 1]
                if hi - lo < 2: continue
                p = list(range(lo, hi)); p = p[::-1] if case['order'] == 1 else p[1:] + p[:1]
                M.data[lo:hi] = M.data[p]; M.indices[lo:hi] = M.indices[p]
            M.has_sorted_indices = False
        S = core.to_cpp(M)
        ctx.true(S.size1() == a and S.size2() == b, 'shape of the native sparse matrix')
        ctx.eq(np.array(hm.full(S)), P, 'sparse to dense')
        R = core.to_numpy(S)
        ctx.true(ss.isspmatrix_csr(R), 'kind of the result')
        ctx.eq(R, P, 'csr round trip')
        return
    if f == 'spmat_mat':
        M = core.to_cpp_array(A)
        S = hm.to_spmat(M)
        ctx.eq(core.to_numpy(S), A, 'dense to sparse'); return
    V = layout(A, case['lay'])
    conv = getattr(hm, f, None) or getattr(core, f)
    try:
        R = conv(V)
        if case['lay'] in ('C',): pass
    except Exception as e:
        ctx.true(case['lay'] not in ('C',), 'a contiguous array was rejected: %r' % e)
        return
    ctx.eq(core.to_numpy(R) if f != 'to_bmat' else hm.to_numpy(R), A, f)

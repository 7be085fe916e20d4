"""C17: a cached call returns what the function returns, whatever the cache holds.

State of the cache before the call (symbolic choice, one case each): absent, complete entry of an
earlier call, entry torn after any number of bytes; settings and the per-call override are choices
too.  The numbers in arguments and results are symbolic; the real wrapper, np.save/np.load and a
scratch directory are used, and the solver decides that what comes back equals what the function
returns for all values."""
import os, shutil, tempfile
import numpy as np
from common import *
NATIVE = []
BOUNDS = {'results': 'vectors, matrices, 3-d arrays, empty arrays, scalars (float, integer-valued float, int, int beyond 2^53, 0-dimensional array; not NaN), csr matrices (also empty), tuples, exceptions',
          'cache states': 'absent, complete, torn at every byte (quick: every byte of the header region boundaries and a grid of the rest), stale temporary, created by a call with other arguments',
          'settings': 'cache on/off at the storing call, at the reading call, override absent/True/False', 'values': 'symbolic in [-1,1]'}
KINDS = ('vec', 'mat', 'cube', 'empty', 'float', 'intfloat', 'int', 'csr', 'csr0', 'tuple', 'raise', 'fort', 'big', 'cplx', 'bigint', 'negint', 'zerod')
def cases(tier):
    out = []
    for k in KINDS:
        for store in (True, False):
            for read in (True, False):
                for ov in (None, True, False):
                    out.append({'k': k, 'store': store, 'read': read, 'ov': ov, 'cut': None})
        out.append({'k': k, 'store': None, 'read': True, 'ov': None, 'cut': None})
        out.append({'k': k, 'store': None, 'read': False, 'ov': True, 'cut': None})
        if k in ('raise', 'tuple'): continue
        cuts = list(range(0, 300 if k in ('vec', 'float', 'int', 'mat') else 400)) + list(range(400, 2400, 50))
        if tier == 'quick': cuts = cuts[:14] + cuts[14:400:9] + cuts[400:] + [127, 128, 129, 135, 136, 137]
        for c in cuts:
            if k not in ('csr', 'csr0') and c > 320: continue
            out.append({'k': k, 'store': True, 'read': True, 'ov': None, 'cut': c})
            if c % 7 == 0: out.append({'k': k, 'store': True, 'read': True, 'ov': False, 'cut': c})
    return out
class Boom(Exception): pass
def run(ctx, case):
    from hermipy.cache import cache as hc_cache
    import scipy.sparse as ss
    from hermipy.settings import settings
    a = ctx.array('a', 3)
    s = ctx.var('s')
    other = np.array([0.5, 0.25, 0.125])
    k = case['k']
    n_calls = [0]
    def compute(v, s, tag=1):
        n_calls[0] += 1
        if k == 'vec': return v * 2 + s
        if k == 'mat': return np.array([[v[0], s], [v[1], v[2]], [s, v[0]]])
        if k == 'fort': return np.asfortranarray(np.array([[v[0], s], [v[1], v[2]], [s, v[0]]]))
        if k == 'cube': return (v[:, None, None] * np.array([[1.0, 2.0]]))
        if k == 'big': return np.array([v[i % 3] * (i + 1) for i in range(24)])
        if k == 'empty': return np.zeros((0, 2))
        if k == 'float': return v[0] * s
        if k == 'intfloat': return 3.0
        if k == 'int': return 7
        if k == 'bigint': return 2 ** 53 + 1
        if k == 'negint': return -(2 ** 62 + 2 ** 9 + 1)
        if k == 'zerod': return np.array(2.5)
        if k == 'csr': return csr(np.array([[v[0], 0.0, s], [0.0, 0.0, 0.0], [0.0, v[1], 0.0]]))
        if k == 'csr0': return ss.csr_matrix((2, 3))
        if k == 'tuple': return (v * s, 3)
        if k == 'cplx': return np.array([1 + 2j, 3 - 1j])
        if k == 'raise': raise Boom('own exception')
    f = hc_cache()(compute)
    d = tempfile.mkdtemp(prefix='c17-', dir=os.environ['HOME'])
    old = dict(settings)
    def files(): return sorted(os.listdir(d)) if os.path.isdir(d) else []
    try:
        settings['cachedir'] = d
        if case['store'] is not None:
            settings['cache'] = case['store']
            try: f(a, s)
            except Boom: pass
            ctx.true(case['store'] or not files(), 'an entry was written although caching is off')
            settings['cache'] = True
            try: f(other, 0.75)             # an unrelated entry
            except Boom: pass
            if not case['store']: pass
        if case['cut'] is not None:
            for fn in files():
                p = os.path.join(d, fn)
                n = os.path.getsize(p)
                ctx.assume(case['cut'] < n)
                with open(p, 'r+b') as fh: fh.truncate(case['cut'])
        settings['cache'] = case['read']
        before = files(); n0 = n_calls[0]
        kw = {} if case['ov'] is None else {'cache': case['ov']}
        if k == 'raise':
            ctx.raises(lambda: f(a, s, **kw), 'the function\'s own exception', Boom); return
        r = f(a, s, **kw)
        use = case['read'] if case['ov'] is None else case['ov']
        if not use: ctx.true(n_calls[0] == n0 + 1, 'the function was not evaluated although the cache is switched off for the call')
        if not case['read']: ctx.true(files() == before, 'an entry was written although caching is off')
        e = compute(a, s)
        if k == 'tuple':
            ctx.true(isinstance(r, tuple) and len(r) == 2 and r[1] == 3, 'tuple'); ctx.eq(r[0], e[0], 'tuple'); return
        if k == 'cplx':
            ctx.true(np.array_equal(r, e), 'complex array'); return
        if k == 'zerod':
            ctx.true(np.ndim(r) == 0 and float(r) == 2.5, 'value of a 0-dimensional array'); return
        if k in ('bigint', 'negint'):
            ctx.true(isinstance(r, (int, np.integer)) and int(r) == e, 'integer beyond 2^53')
            settings['cache'] = True
            ctx.true(f(a, s) == e, 'integer beyond 2^53, second call'); return
        ctx.true(ss.issparse(r) == ss.issparse(e), 'kind of the result (sparse or dense)')
        ctx.true(isinstance(r, np.ndarray) == isinstance(e, np.ndarray), 'kind of the result (array or scalar)')
        if k in ('intfloat', 'int'): ctx.true(r == e, 'scalar value')
        ctx.eq(r, e, 'result', tol=1e-12)
        # and once more, with everything on
        settings['cache'] = True
        ctx.eq(f(a, s), e, 'second call', tol=1e-12)
        ctx.eq(f(other, 0.75), compute(other, 0.75), 'call with other arguments', tol=1e-12)
    finally:
        settings.clear(); settings.update(old)
        shutil.rmtree(d, ignore_errors=True)

"""C11: inner products contract shared directions."""
import itertools
import numpy as np
from common import *
NATIVE = ['inner', 'index-set iterators']
BOUNDS = {'directions': 'all pairs of non-empty increasing lists over up to 4 directions, lists of up to 3; over 5 directions, lists of 3 and 4 at degree 1, 2', 'degree': '1..4', 'entries': 'symbolic in [-1,1]'}
def cases(tier):
    T = tier == 'thorough'
    out = []
    subs = [c for r in (1, 2, 3) for c in itertools.combinations(range(4 if T else 4), r)]
    for s in SETS:
        for a in subs:
            for b in subs:
                u = len(set(a) | set(b)); x = len(set(a) ^ set(b))
                if x > 3 and not T: continue
                degs = (1, 2) if max(len(a), len(b)) > 2 or x > 2 else (1, 2, 3, 4)
                for deg in degs:
                    if not T and deg == 1 and u > 3: continue
                    out.append({'s': s, 'a': list(a), 'b': list(b), 'deg': deg})
    subs = [c for r in (3, 4) for c in itertools.combinations(range(5), r)]
    for a in subs:
        for b in subs:
            if len(a) + len(b) == 6 and not T and (a[0] + b[0]) % 2: continue
            if len(set(a) ^ set(b)) <= 4: out.append({'s': 'triangle' if len(a) < len(b) else 'cross', 'a': list(a), 'b': list(b), 'deg': 2 if len(a) + len(b) < 8 else 1})
    return out
def run(ctx, case):
    import hermipy.core as core
    s, a, b, deg = case['s'], case['a'], case['b'], case['deg']
    LA, LB = listing(core, s, len(a), deg), listing(core, s, len(b), deg)
    u, v = ctx.array('u', len(LA)), ctx.array('v', len(LB))
    r = core.inner(u, v, a, b, index_set=s)
    free = sorted(set(a) ^ set(b))
    shared = [d for d in a if d in b]
    PB = {}
    for j, m in enumerate(LB):
        PB.setdefault(tuple(m[b.index(d)] for d in shared), []).append((j, dict(zip(b, m))))
    acc = {}
    for i, m in enumerate(LA):
        dm = dict(zip(a, m))
        for j, dn in PB.get(tuple(dm[d] for d in shared), []):
            key = tuple(dm[d] if d in dm and d not in shared else dn[d] for d in free)
            acc[key] = acc.get(key, np.float64(0.0)) + u[i] * v[j]
    ref = np.array([acc.get(m, np.float64(0.0)) for m in listing(core, s, len(free), deg)]) if free else np.array([acc[()]])
    ctx.eq(r, ref, 'inner product')

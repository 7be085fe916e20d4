"""C32: memory safety of the native kernels: the instrumented module is built with container
assertions and the address sanitizer, and the configurations of the kernel checks (and the
degree-0 and minimal ones) are executed symbolically."""
import importlib, itertools
import numpy as np
from common import *
NATIVE = ['every function exported by hermite_cpp that takes or returns numeric data']
DEFS = ('-D_GLIBCXX_ASSERTIONS', '-DBOOST_UBLAS_TYPE_CHECK=0', '-UNDEBUG', '-fsanitize=address', '-fno-sanitize-address-use-after-scope')
ASAN = True
OPT = {'paths': 8, 'qtime': 3}
BOUNDS = {'configurations': 'those of C04-C15 thinned, and degree 0 / one-point grids / 1x1 matrices', 'entries': 'symbolic', 'paths': 'two per configuration'}
SUBS = ('C04', 'C05', 'C06', 'C07', 'C08', 'C09', 'C10', 'C11', 'C12', 'C13', 'C14', 'C15')
def cases(tier):
    out = []
    for p in SUBS:
        cs = importlib.import_module(p.lower()).cases('quick')
        step = 1 if tier == 'thorough' else max(1, len(cs) // 60)
        out += [{'sub': p, 'c': c} for c in cs[::step] if p != 'C14' or c['deg'] <= 10]
    for s in SETS:
        for dim in (1, 2, 3):
            d0 = 1 if s in ('cross', 'cross_nc') else 0     # degree 0 of the crosses is outside their precondition
            out += [{'sub': 'C04', 'c': {'s': s, 'four': [0] * dim, 'deg': d0, 'n': [1] * dim, 'sym': 'x'}},
                    {'sub': 'C04', 'c': {'s': s, 'four': [1] * dim, 'deg': d0 * 2, 'n': [2] + [1] * (dim - 1), 'sym': 'fw'}},
                    {'sub': 'C05', 'c': {'s': s, 'four': [0] * dim, 'deg': d0, 'n': [2] * dim, 'sym': 'cw'}},
                    {'sub': 'C12', 'c': {'s': s, 'four': [0] * dim, 'deg': d0, 'n': [2] + [1] * (dim - 1), 'sparse': bool(dim % 2), 'one': False}},
                    {'sub': 'C13', 'c': {'s': s, 'dim': dim, 'deg': d0, 'd': dim - 1, 'four': 0, 'kind': 'dense'}},
                    {'sub': 'C08', 'c': {'form': 'axes', 's': s, 'dim': dim, 'deg': d0}},
                    {'sub': 'C09', 'c': {'form': 'axes', 's': s, 'dim': dim, 'deg': d0, 'pat': 'full', 'spin': 0, 'sparse': bool(dim % 2)}},
                    {'sub': 'C10', 'c': {'kind': 'vec', 's': s, 'dim': dim, 'deg': d0, 'd': [dim - 1]}},
                    {'sub': 'C11', 'c': {'s': s, 'a': [0], 'b': list(range(dim)), 'deg': d0}}]
            for deg in (1, 2, 3): out.append({'sub': 'iter', 'c': {'s': s, 'dim': dim, 'deg': deg}})
    return out
def run(ctx, case):
    if case['sub'] == 'iter':
        import hermipy.core as core
        s, dim, deg = case['c']['s'], case['c']['dim'], case['c']['deg']
        L = core.iterator_list_indices(dim, deg, index_set=s)
        n = core.iterator_size(dim, deg, index_set=s)
        core.iterator_get_degree(dim, n, index_set=s)
        if s in ('triangle', 'cube'):
            for m in L: core.iterator_index([int(v) for v in m], index_set=s)
        ctx.true(len(L) == n, 'length of the listing')
        return
    importlib.import_module(case['sub'].lower()).run(ctx, case['c'])

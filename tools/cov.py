#!/usr/bin/env python3
"""cov.py C36 ...: totals, slowest and inconclusive configurations of the last run"""
import json, sys, os, collections
for c in sys.argv[1:]:
    e = json.load(open(os.path.dirname(os.path.abspath(__file__)) + '/../evidence/%s.json' % c)); v = e['coverage']
    print(c, {k: x for k, x in v.items() if not isinstance(x, (list, dict)) and k != 'explanation'})
    print('  inconclusive', collections.Counter((i.get('why', ''), i.get('detail', '')[:80]) for i in v.get('inconclusive', [])), v.get('inconclusive', [])[:2])
    print('  slowest', v.get('slowest')[:4])

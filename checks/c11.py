"""C11: following references ends at what is meant, or says that there is a cycle"""
from checks.linked import CONST, ROOTS, random_docs, small, trace, trace_up

NOTE = 'random worlds of 2.0 and 3.0.0 documents with chains and loops of references; the end of every chain is compared with the specification'


def run(chk):
    small(chk, 'schemas')
    r = chk.rng
    ts = []
    for i in range(chk.n(450, 6000)):
        v = r.choice(['2.0', '3.0.0'])
        docs = random_docs(chk, v, i % 3 != 0, 0, .3)
        ts.append(trace(chk, '%s/%d' % (v, i), docs, ROOTS[v], v))
    chk.validate('Trace_Links', ts, CONST % 'deref', chunk=110)
    ts = []
    for i in range(chk.n(250, 3000)):
        ts.append(trace_up(chk, 'up/%d' % i, random_docs(chk, '2.0', True, 0, .3), ROOTS['2.0']))
    chk.validate('Trace_LinksUp', ts, CONST % 'deref', chunk=110)

"""C14: 1.2 to 2.0 (and on to 3.0.0)"""
import copy

from vlib.enc import enc
from vlib.gen12 import Gen12
from vlib.gen20 import snap
from vlib.world import World

NOTE = 'random resource listings with resources; the upgraded 2.0 tree and the tree upgraded on to 3.0.0 are compared with the specified documents'


def run(chk):
    r = chk.rng
    ts = []
    for i in range(chk.n(900, 8000)):
        root = r.choice(['http://h/api/resource_list.json', 'http://h/resource_list.json', 'http://h:81/a/b.c/api-docs.json'])
        sep = r.choice(['!##!', '!##!', '.', '::', '/'])
        docs = Gen12(r, root, bad=.4 if i % 5 == 0 else 0, rich=r.choice([.2, .4, .7])).build()
        ev = []
        for op, v in (('up12', '2.0'), ('up30', '3.0.0')):
            w = World(copy.deepcopy(docs))
            got = chk.call(lambda: snap(v, w.load(root, v, sep=sep).root))
            ev.append(dict(op=op, out=['ok', enc(got[1])] if got[0] == 'ok' else got))
        ts.append(dict(name='doc/%d' % i, root=root, sep=sep, docs={u: enc(d) for u, d in docs.items()}, ev=ev))
    chk.validate('Trace_C14', ts, chunk=200)

import copy

from vlib.enc import dec, enc
from vlib.gen20 import Gen20, snap
from vlib.world import World

ROOT = 'http://h/v1/swagger.json'


def observe(chk, docs, root):
    w = World(copy.deepcopy(docs))

    def go():
        return snap('3.0.0', w.load(root, '3.0.0').root)
    got = chk.call(go)
    return ['ok', enc(got[1])] if got[0] == 'ok' else got


def trace(chk, name, docs, root):
    return dict(name=name, root=root, docs={u: enc(d) for u, d in docs.items()},
                ev=[dict(op='up', out=observe(chk, docs, root))])


CFG = '''INIT Init
NEXT Next
CONSTANTS
 Family = "%s"
 MaxOp = %d
 MaxShared = %d
INVARIANTS Placed Apart Links Needed Emit
'''


def small(chk, family):
    """all small documents of a family, as enumerated by TLC"""
    big = not chk.quick
    for op, shared in [(2, 0), (1, 1)] + ([(1, 2), (2, 1)] if big else []) if family == 'req' else [(0, 0)]:
        for st in chk.model('MC_Up20', CFG % (family, op, shared), timeout=800)['U']:
            got = observe(chk, {ROOT: dec(st['doc'])}, ROOT)
            exp = st['up']
            ok = got[0] == 'err' if exp == ['refused'] else got[0] == 'ok' and got[1] == enc(dec(exp))
            chk.expect(ok, 'document', doc=st['doc'], got=got, spec=exp)

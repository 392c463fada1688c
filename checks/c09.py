"""C09: relocation of pointers"""
from vlib.storelib import Run, VERS
from pyopenapi.migration.store import SpecObjStore

NOTE = 'all sequences of up to 3 relocations from a menu of competing and nested ones are enumerated by TLC and replayed; random tables are trace-checked'
CFG = '''INIT Init
NEXT Next
CONSTANTS
 MaxRoutes = %d
INVARIANTS Same Steps Nop Whole Emit
'''


def build(rs, top=False):
    out = {}
    for f, k, x in rs:
        if k == 'nest':
            out[f] = build(x)
        else:
            p = x[0][1]
            out[f] = '#/' + p if k == 'abs' else p
    return out


def run(chk):
    r = chk.rng
    lines = chk.model('MC_Routes', CFG % chk.n(2, 3), timeout=850)['R']
    for st in lines:
        s = SpecObjStore(migratable_spec_versions=list(VERS))
        rs = list(st['routes'] or [])
        r.shuffle(rs)
        for u, v, x in rs:
            items = list(build(x or []).items())
            r.shuffle(items)
            for k, val in items:
                s.update_routes(u, v, {k: val})
        for u, p, a, b, exp in st['cases']:
            got = chk.call(lambda: s.relocate(u, p, a, to_spec=b))
            chk.expect(got == ['ok', exp], 'relocate', routes=rs, at=[u, p, a, b], got=got, spec=exp)
    traces = []
    for i in range(chk.n(300, 3000)):
        t = Run(chk)
        us = r.sample(['http://h/a.json', 'http://h/a.json2', 'file:///x/b.yaml', 'http://h/a.json?x=1', 'http://h/a.json?x=2', 'http://h/', 'http://h'], r.randint(1, 4))
        for _ in range(r.randint(8, chk.n(30, 60))):
            u = r.choice(us)
            if r.random() < .25:
                t.route(u, r.choice(VERS[1:]))
            elif r.random() < .1:
                t.set(u, r.choice(VERS))
            else:
                a, b = sorted(r.choices(range(3), k=2))
                t.reloc(u, VERS[a], VERS[b])
        traces.append(dict(name='routes/%d' % i, ev=t.ev))
    chk.validate('Trace_Store', traces)
    chk.assumptions += ['relative targets are nested below a location; names in top-level relocations are not empty']

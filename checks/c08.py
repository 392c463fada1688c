"""C08: object store"""
from vlib import storelib
from vlib.storelib import Run, Probe, seen, VERS
from pyopenapi.migration.store import SpecObjStore

NOTE = 'all store contents up to 3 objects over hostile pointers are enumerated by TLC and replayed; long random histories are trace-checked'
CFG = '''INIT Init
NEXT Next
CONSTANTS
 Urls = {"u", "w"}
 Vers = {"2.0", "3.0.0"}
 MaxObjs = %d
VIEW View_
INVARIANTS Own Unique Separate Closest Emit
'''


def run(chk):
    r = chk.rng
    for st in chk.model('MC_Store', CFG % chk.n(2, 3), timeout=850)['S']:
        objs = list(st['objs'] or [])
        r.shuffle(objs)

        def fresh():
            s = SpecObjStore(migratable_spec_versions=list(VERS))
            for u, p, v, i in objs:
                s.set(Probe(i), u, p, v)
            return s
        s = fresh()
        for u, p, v, i, rest in st['get']:
            got = chk.call(lambda: seen(s.get(u, p, v)))
            chk.expect(got == ['ok', ['hit', i, list(rest or [])] if i else ['none']], 'get', objs=objs, at=[u, p, v], got=got, spec=[i, rest])
        for u, p, v, exp, left in r.sample(list(st['und']), min(8, len(st['und']))):
            for rm in (False, True):
                s = fresh()
                got = chk.call(lambda: sorted([k, x.oid] for k, x in (s.get_under(u, p, v, remove=rm) or {}).items()))
                now = sorted(i for (a, b, c, i) in objs if (lambda x: x is not None and x[:2] == ['hit', i] and not x[2])(seen(s.get(a, b, c))))
                want = sorted(left or []) if rm else sorted(o[3] for o in objs)
                chk.expect(got == ['ok', sorted([list(x) for x in exp or []])] and now == want, 'get_under', objs=objs, at=[u, p, v, rm],
                           got=got, now=now, spec=[exp, left])
    traces = []
    for i in range(chk.n(250, 2500)):
        t = Run(chk)
        us = r.sample(['http://h/a.json', 'http://h/a.json2', 'file:///x/b.yaml', 'http://h/a.json?x=1', 'http://h/A.json', 'http://h/', 'http://h', 'http://h/a.json/'], r.randint(1, 3))
        for _ in range(r.randint(8, chk.n(30, 60))):
            k, u, v = r.random(), r.choice(us), r.choice(VERS[1:] if r.random() < .8 else VERS)
            if k < .35:
                t.set(u, v)
            elif k < .6:
                t.get(u, v)
            elif k < .75:
                t.under(u, v, r.random() < .5)
            elif k < .85:
                t.route(u, r.choice(VERS[1:]))
            else:
                a, b = sorted(r.choices(range(3), k=2))
                t.until(u, VERS[a], VERS[b])
        traces.append(dict(name='store/%d' % i, ev=t.ev))
    chk.validate('Trace_Store', traces)
    chk.assumptions += ['pointers are absolute ("#...")']

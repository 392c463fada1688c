"""C18: scanning"""
import copy

from pyopenapi.migration.scan import Dispatcher, Scanner, scan
from vlib import docs
from vlib.enc import enc, dec
from checks.c03 import samples

NOTE = 'all pairs of small scanners are enumerated by TLC and replayed; random trees of all types with random scanners are trace-checked'


def classes(v):
    """name -> type, for all types of a version and their base types"""
    m = docs.module(v)
    out = {}
    for n in docs.grammar()[v]:
        for k in getattr(m, n).__mro__:
            if k.__name__ in docs.grammar()[v] or k.__name__ in ('Base2', 'DataTypeObj', 'BaseSchema', 'BaseObj_v1_2', 'BaseObj_v2_0', 'Base2_v3_0_0'):
                out.setdefault(k.__name__, k)
    return out


class Rig(object):
    """scanners made to measure; every call and every result is logged"""

    def __init__(self, chk, cls, specs, app):
        self.log, self.where, self.bad = [], {}, []
        self.route, self.app, self.the_app = [], app, object()
        prev = None
        for i, sp in enumerate(specs):
            bases = (Dispatcher,) if prev is None or chk.rng.random() < .6 else (prev,)
            disp = type(Dispatcher)('Disp', bases, {})
            prev = disp
            for reg in sp['regs']:
                disp.register([cls[c] for c in reg['cls']])(self.handler(i + 1, reg['id'], reg.get('falsy')))
            if sp['res']:
                disp.result(self.result(i + 1))
            k = type('S%d' % i, (object,), {'Disp': disp, 'helper': 1})
            if chk.rng.random() < .2 and self.route:
                # a scanner derived from another one, with handlers of its own
                k = type('S%d' % i, (type(self.route[-1]),), {'Disp': disp})
            self.route.append(k())

    def handler(self, i, hid, falsy):
        def fn(me, path, obj, *app):
            if me is not self.route[i - 1] or app != ((self.the_app,) if self.app else ()):
                self.bad.append((i, hid, path))
            if self.where.setdefault(path, obj) is not obj:
                self.bad.append((i, hid, path, 'object'))
            self.log.append([path, [i, 'call', hid]])
            return [path, hid] if not falsy else None
        return fn

    def result(self, i):
        def fn(me, val):
            path, hid = val if val is not None else (self.log[-1][0], self.log[-1][1][2])
            self.log.append([path, [i, 'result', hid]])
        return fn

    def run(self, root, leaves):
        if self.app:
            Scanner(self.the_app).scan(route=self.route, root=root, leaves=leaves or None)
        else:
            scan(route=self.route, root=root, leaves=leaves)

    def grouped(self):
        out = {}
        for p, x in self.log:
            out.setdefault(p, []).append(x)
        return [[p, q] for p, q in out.items()]


def run(chk):
    r = chk.rng
    cl = classes('3.0.0')
    cases = chk.model('MC_Scan', 'INIT Init\nNEXT Next\nINVARIANTS Once Leafs Served Emit\n')['C']
    obj = None
    for c in cases:
        if obj is None:
            obj = docs.module('3.0.0').OpenApi(dec(c['doc']), '#')
        for app in (False, True):
            specs = [dict(regs=[dict(id=g['id'], cls=list(g['cls'])) for g in x['regs'] or []], res=x['res']) for x in (c['a'], c['b'])]
            rig = Rig(chk, cl, specs, app)
            got = chk.call(lambda: rig.run(obj, [cl[n] for n in c['leaves'] or []]), 5)
            want = sorted([[p, [list(e) for e in q]] for p, q in c['app' if app else 'plain'] or []])
            chk.expect(got[0] == 'ok' and not rig.bad and sorted(rig.grouped()) == want, 'scan', scanners=specs, leaves=c['leaves'], app=app, got=rig.grouped(), spec=want, bad=rig.bad)
    traces = []

    def one(name, v, cls, doc, root):
        kinds = sorted(docs.grammar()[v])
        cl = classes(v)
        at = {id(o): a for a, o in docs.walk(v, root)}
        here = sorted({type(o).__name__ for _, o in docs.walk(v, root) if docs.is_obj(o)} & set(kinds))
        ev = []
        for _ in range(3):
            app = r.random() < .5
            hid = 0
            specs = []
            for _ in range(r.randint(1, 3)):
                regs = []
                for _ in range(r.randint(0, 3)):
                    hid += 1
                    pool = r.choice([here, kinds, sorted(cl)]) or kinds
                    regs.append(dict(id=hid, cls=r.sample(pool, min(len(pool), r.randint(1, 3))), falsy=r.random() < .2))
                specs.append(dict(regs=regs, res=r.random() < .5))
            if r.random() < .3:
                specs.append(dict(regs=[dict(id=90, cls=list(here))], res=True))
            pool = r.choice([here, here, sorted(cl)]) or sorted(cl)
            leaves = r.sample(pool, min(len(pool), r.randint(1, 2))) if r.random() < .4 else []
            rig = Rig(chk, cl, specs, app)
            got = chk.call(lambda: rig.run(root, [cl[n] for n in leaves]), 10)
            same = not rig.bad and all(id(o) in at for o in rig.where.values())
            ev.append(dict(op='scan', app=app, leaves=leaves, scs=specs, log=rig.grouped(), same=same,
                           out=['ok'] if got[0] == 'ok' else got))
        traces.append(dict(name=name, v=v, cls=cls, doc=enc(doc), ev=ev))

    for v in ('1.2', '2.0', '3.0.0'):
        roots = {'1.2': ['ApiDeclaration', 'ResourceListing', 'Model'], '2.0': ['Swagger', 'Swagger', 'Schema', 'PathItem'],
                 '3.0.0': ['OpenApi', 'OpenApi', 'Components', 'Schema']}[v]
        for i in range(chk.n(40, 500)):
            cls = r.choice(roots)
            gen = docs.DocGen(r, v, budget=r.choice([10, 30, 60]), p_child=r.choice([.4, .7]), bools=0 if i % 3 else .4)
            doc = gen.obj(cls, 5)
            klass = getattr(docs.module(v), cls)
            got = chk.call(lambda: klass(copy.deepcopy(doc), '#'))
            if got[0] == 'ok':
                one('%s/%d' % (v, i), v, cls, doc, got[1])
    for path, v, cls, doc in samples(chk):
        klass = getattr(docs.module(v), cls)
        one('sample/' + path, v, cls, doc, klass(copy.deepcopy(doc), '#'))
    chk.validate('Trace_C18', traces, chunk=200)

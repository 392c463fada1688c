"""C03: loading and dumping"""
import copy
import json
import os
import random

from pyopenapi.utils import jp_compose
from vlib import docs
from vlib.enc import enc
from vlib.world import World

NOTE = 'random documents over the complete grammar of the three versions, every object type as root; unbounded shapes sampled'
ROOTS = {'1.2': ['ResourceListing', 'ApiDeclaration', 'ApiDeclaration'], '2.0': ['Swagger'], '3.0.0': ['OpenApi']}
VER = {'1.2': 'swaggerVersion', '2.0': 'swagger', '3.0.0': 'openapi'}


def trace(chk, v, cls, doc, load, name, nattrs):
    r = chk.rng
    src = copy.deepcopy(doc)
    got = chk.call(load)
    if got[0] != 'ok':
        chk.fail('load ' + name, dict(v=v, cls=cls, doc=doc, got=got))
        return None
    obj = got[1]
    ev = [dict(op='kinds', out=[[jp_compose(list(at), base='#'), docs.classname(v, o)]
                                for at, o in docs.walk(v, obj) if docs.is_obj(o)])]
    nodes = [(at, o) for at, o in docs.walk(v, obj) if docs.is_obj(o) and type(o).__name__ in docs.grammar()[v]]
    for at, o in r.sample(nodes, min(nattrs, len(nodes))):
        g = docs.grammar()[v][type(o).__name__]
        names = set(g['f']) | set(g['c']) | set(g['a'])
        ev.append(dict(op='attrs', at=list(at), cls=type(o).__name__, out={n: docs.read(v, o, n) for n in names}))
    out = chk.call(obj.dump)
    ev.append(dict(op='dump', out=[out[0], enc(out[1])] if out[0] == 'ok' else out))
    return dict(name=name, v=v, cls=cls, doc=enc(src), ev=ev)


def run(chk):
    r = chk.rng
    gs = docs.grammar()
    chk.states += 3
    traces = []

    def add(t):
        if t:
            traces.append(t)

    for v in ('1.2', '2.0', '3.0.0'):
        # every type as root: complete, sparse and dense instances
        for cls in sorted(gs[v]):
            klass = getattr(docs.module(v), cls)
            for i in range(chk.n(4, 40)):
                gen = docs.DocGen(r, v, budget=r.choice([3, 10, 30]), p_field=[.9, .5, .2, 1][i % 4], p_child=r.choice([.2, .6]),
                                  bools=r.choice([0, .5]))
                doc = gen.obj(cls, r.choice([1, 2, 3]), full=i == 0)
                add(trace(chk, v, cls, doc, lambda: klass(copy.deepcopy(doc), r.choice(['#', 'http://h/x.json#', None])),
                          '%s/%s/%d' % (v, cls, i), 3))
        # whole documents through the loader
        for i in range(chk.n(12, 150)):
            cls = r.choice(ROOTS[v])
            gen = docs.DocGen(r, v, budget=chk.n(60, 120), p_child=r.choice([.5, .8]), bools=0 if i % 3 else .4)
            doc = gen.obj(cls, 6)
            doc[VER[v]] = v
            if cls == 'ResourceListing':
                doc['apis'] = []
            if cls == 'ApiDeclaration':
                doc['apis'] = doc.get('apis') or []
                w = World({'http://h/api-docs.json': {'swaggerVersion': '1.2', 'apis': [{'path': '/pet'}]}, 'http://h/pet': doc})
                load = lambda: w.app('http://h/api-docs.json').load_obj('http://h/api-docs.json').cached_apis['pet']
            else:
                w = World({'http://h/x.json': doc})
                load = lambda: w.app('http://h/x.json').load_obj('http://h/x.json')
            add(trace(chk, v, cls, doc, load, '%s/doc/%d' % (v, i), 5))
    # the repository's own sample documents
    for path, v, cls, doc in samples(chk):
        klass = getattr(docs.module(v), cls)
        add(trace(chk, v, cls, doc, lambda: klass(copy.deepcopy(doc), '#'), 'sample/' + path, 5))
    chk.validate('Trace_C03', traces)
    chk.assumptions += ['every value under a child position has the JSON type that position needs (objects for objects, ...)']


def samples(chk):
    base = os.path.join(os.environ.get('VERIF_REPO', '/repo'), 'pyopenapi', 'tests', 'data')
    out = []
    for d, _, fs in sorted(os.walk(base)):
        for f in sorted(fs):
            p = os.path.join(d, f)
            try:
                with open(p, encoding='utf-8') as fd:
                    doc = json.load(fd)
            except Exception:  # pylint: disable=broad-except
                continue
            if not isinstance(doc, dict):
                continue
            if doc.get('openapi') == '3.0.0':
                out.append((p[len(base):], '3.0.0', 'OpenApi', doc))
            elif doc.get('swagger') == '2.0':
                out.append((p[len(base):], '2.0', 'Swagger', doc))
            elif doc.get('swaggerVersion') == '1.2':
                out.append((p[len(base):], '1.2', 'ApiDeclaration' if 'basePath' in doc else 'ResourceListing', doc))
    return chk.rng.sample(out, min(len(out), chk.n(12, len(out))))

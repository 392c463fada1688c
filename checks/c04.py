"""C04: every part of a loaded tree is addressable"""
import copy

from vlib import docs, gen
from vlib.enc import enc
from vlib.world import World
from checks.c03 import samples

NOTE = 'every object and collection of random documents of all types and versions is checked for path, parent, children and resolution'


def trace(chk, v, cls, doc, base, obj, name, cap=40):
    r = chk.rng
    src = enc(copy.deepcopy(doc))
    where = {}
    nodes = []
    for at, o in docs.walk(v, obj):
        where[id(o)] = list(at)
        nodes.append((list(at), o))
    ev = []
    pick = nodes if len(nodes) <= cap else r.sample(nodes, cap)
    for at, o in pick:
        par = o.get_parent()
        kids = chk.call(o.get_children)
        res = chk.call(lambda: obj.resolve(list(at)))
        ev.append(dict(
            op='node', at=at,
            kind=docs.classname(v, o) if docs.is_obj(o) else 'list' if docs.is_list(o) else 'map',
            path=o.get_path() or '', parent=['none'] if par is None else ['at', where.get(id(par), ['?'])],
            same=res[0] == 'ok' and res[1] is o,
            kids=[[k, where.get(id(x), ['?'])] for k, x in kids[1].items()] if kids[0] == 'ok' else [['?', ['?']]]))
    # positions: below nodes, existing and not
    bad = {n for c in (docs.Base2Obj(),) for n in dir(c)}
    for _ in range(min(cap, 3 * len(nodes))):
        at, o = r.choice(nodes)
        cur = doc
        for tok in at:
            cur = cur[int(tok)] if isinstance(cur, list) else cur[tok]
        to = list(at)
        for _ in range(r.choice([1, 1, 2, 3])):
            if isinstance(cur, dict) and cur and r.random() < .8:
                k = r.choice(sorted(cur))
                to.append(k)
                cur = cur[k]
            elif isinstance(cur, list) and cur and r.random() < .8:
                i = r.randrange(len(cur))
                to.append(str(i))
                cur = cur[i]
            elif isinstance(cur, list):
                to.append(r.choice(['99', str(len(cur)), 'a']))
                cur = None
            else:
                to.append(r.choice(['a', 'zz', '0', 'x-none', 'type', 'items', 'properties', 'in', gen.name(r)]))
                cur = cur.get(to[-1]) if isinstance(cur, dict) else None
        if any(x in bad or x.startswith('_') or x.endswith('_') for x in to) or any(
                x in docs.ALIASES(v) for x in to) or any(x.lstrip('-').isdigit() and str(int(x)) != x for x in to):
            continue
        got = chk.call(lambda: obj.resolve(list(to)))
        if got[0] == 'ok':
            x = got[1]
            got = ['node', where[id(x)]] if id(x) in where and not isinstance(x, (str, int, float, bool, type(None))) else ['val', enc(x)]
        ev.append(dict(op='follow', at=to, out=got))
    return dict(name=name, v=v, cls=cls, doc=src, base=base or '', ev=ev)


def run(chk):
    r = chk.rng
    gs = docs.grammar()
    chk.states += 3
    traces = []
    for v in ('1.2', '2.0', '3.0.0'):
        for cls in sorted(gs[v]):
            klass = getattr(docs.module(v), cls)
            for i in range(chk.n(3, 30)):
                gen_ = docs.DocGen(r, v, budget=r.choice([5, 15, 40]), p_field=.2, p_child=r.choice([.4, .8]))
                doc = gen_.obj(cls, r.choice([2, 3, 4]), full=i == 0)
                base = r.choice(['#', 'http://h/x.json#', '#/a~1b'])
                got = chk.call(lambda: klass(copy.deepcopy(doc), base))
                if got[0] == 'ok':
                    traces.append(trace(chk, v, cls, doc, base, got[1], '%s/%s/%d' % (v, cls, i), chk.n(15, 30)))
                else:
                    chk.fail('load', dict(doc=doc, got=got))
    for v, cls, key in (('2.0', 'Swagger', 'swagger'), ('3.0.0', 'OpenApi', 'openapi')):
        for i in range(chk.n(8, 80)):
            doc = docs.DocGen(r, v, budget=80, p_field=.2, p_child=.8, bools=.1).obj(cls, 7)
            doc[key] = v
            url = 'http://h/x.json'
            got = chk.call(lambda: World({url: doc}).app(url).load_obj(url))
            if got[0] == 'ok':
                traces.append(trace(chk, v, cls, doc, url, got[1], '%s/doc/%d' % (v, i), chk.n(60, 200)))
            else:
                chk.fail('load', dict(doc=doc, got=got))
    for path, v, cls, doc in samples(chk):
        obj = getattr(docs.module(v), cls)(copy.deepcopy(doc), '#')
        traces.append(trace(chk, v, cls, doc, '#', obj, 'sample/' + path, chk.n(40, 200)))
    chk.validate('Trace_C04', traces)
    chk.assumptions += ['names that are attributes of the Python classes and non-canonical list indices are not followed']

"""C05: modifying a loaded tree"""
import copy

from vlib import docs
from vlib.enc import dec, enc

NOTE = 'all short histories on a small tree are enumerated by TLC and replayed; random histories of modifications and enumerations on random trees of all versions are trace-checked'
CFG = 'INIT Init\nNEXT Next\nCONSTANTS\n Depth = %d\nINVARIANTS Plain Acyclic Named %s\n%s'
SAFE = ['a', 'b', 'c', 'x-y', '200', 'k 1', 'é', 'items']


class Heap(object):
    """objects of loaded trees by number, in the order in which they are met"""

    def __init__(self, v):
        self.v, self.objs, self.num = v, [None], {}

    def id(self, o):
        return self.num.get(id(o), 0 if o is None else -1)

    def parts(self, o):
        if docs.is_obj(o):
            g = docs.grammar()[self.v].get(type(o).__name__)
            return [(c, getattr(o, c)) for c in (g['c'] if g else ()) if getattr(o, c) is not None]
        if docs.is_list(o):
            return [(str(i), e) for i, e in enumerate(o)]
        if docs.is_map(o):
            return [(k, o[k]) for k in list(o.keys())]
        return []

    def load(self, root, doc):
        """event that declares all nodes of a freshly built tree"""
        out = []

        def go(o, raw, par, inobj):
            self.objs.append(o)
            n = len(self.objs) - 1
            plain = not (docs.is_obj(o) or docs.is_list(o) or docs.is_map(o))
            if not plain:
                self.num[id(o)] = n
            kind = 'lit' if plain else 'obj' if docs.is_obj(o) else 'list' if docs.is_list(o) else 'map'
            own = ['o', {}]
            if plain:
                own = enc(o)
            elif kind == 'obj':
                g = docs.grammar()[self.v][type(o).__name__]
                own = enc({k: x for k, x in raw.items() if k in g['f'] and x is not None})
            rec = dict(kind=kind, own=own, kids=[], par=par, inobj=inobj)
            out.append(rec)
            for k, c in self.parts(o):
                rec['kids'].append([k, go(c, raw[int(k)] if kind == 'list' else raw[k], n, kind == 'obj')])
            return n
        go(root, doc, 0, False)
        return dict(op='new', nodes=out)

    def below(self, i, seen=None):
        seen = set() if seen is None else seen
        stack = [self.objs[i]]
        while stack:
            o = stack.pop()
            n = self.id(o)
            if n <= 0 or n in seen:
                continue
            seen.add(n)
            stack += [c for _, c in self.parts(o)]
        return seen


def kids(chk, h, i):
    got = chk.call(h.objs[i].get_children)
    return [[k.replace('~1', '/'), h.id(x)] for k, x in sorted(got[1].items())] if got[0] == 'ok' else [['?', -1]]


def do(chk, h, e):
    """one event on the real objects"""
    o = h.objs[e['at']]
    x = h.objs[e.get('x', 0)]
    op = e['op']
    if op == 'kids':
        e['out'] = kids(chk, h, e['at'])
    elif op == 'parent':
        e['out'] = h.id(o.get_parent())
    elif op == 'dump':
        got = chk.call(o.dump)
        e['out'] = enc(got[1]) if got[0] == 'ok' else ['err']
    else:
        got = chk.call({'attach': lambda: o.attach_child(e['name'], x), 'set': lambda: setattr(o, e['name'], x),
                        'put': lambda: o.__setitem__(e['name'], x), 'append': lambda: o.append(x),
                        'extend': lambda: o.extend(h.objs[e['y']] if e.get('y') else [h.objs[i] for i in e['xs']]),
                        'merge': lambda: o.merge_children(x)}[op])
        e['out'] = got[0]
    e.pop('y', None)
    return e


def replay(chk):
    ts = []
    hs = chk.model('MC_Children', CFG % (chk.n(3, 4), 'Emit', 'PROPERTIES Fills'))['H']
    if chk.quick or len(hs) > 30000:
        hs = chk.rng.sample(hs, min(len(hs), chk.n(1500, 30000)))
    docs_ = [{'allOf': [{'type': 'c'}], 'properties': {'a': {'type': 'e'}}}, {'items': {'type': 'g'}, 'allOf': [], 'type': 'f'}, {'type': 'i'}]
    klass = docs.module('2.0').Schema
    for n, q in enumerate(hs):
        h = Heap('2.0')
        ev = []
        # numbering of the model
        for d in docs_:
            raw = copy.deepcopy(d)
            ev.append(h.load(klass(copy.deepcopy(d), '#'), raw))
        order = number(h)
        for e in q:
            e = dict(e, at=order[e['at']])
            if 'x' in e:
                e['x'] = order[e['x']]
            if 'xs' in e:
                e['xs'] = [order[i] for i in e['xs']]
            ev.append(do(chk, h, e))
        for i in sorted(order.values()):
            ev.append(do(chk, h, dict(op='parent', at=i)))
        for i in (1, 2, 4, 6):
            ev.append(do(chk, h, dict(op='kids', at=order[i])))
        for i in (1, 6):
            ev.append(do(chk, h, dict(op='dump', at=order[i])))
        ts.append(dict(name='model/%d' % n, ev=ev))
    return ts


def number(h):
    """numbers of the model -> numbers of the heap"""
    roots = [i for i in range(1, len(h.objs)) if h.objs[i].get_parent() is None and docs.is_obj(h.objs[i])]
    a, f, g = (h.objs[i] for i in roots)
    al = a.allOf
    return {1: h.id(a), 2: h.id(al), 3: h.id(al[0]), 4: h.id(a.properties), 5: h.id(a.properties['a']),
            6: h.id(f), 7: h.id(f.items), 8: h.id(f.allOf), 9: h.id(g)}


ROOTS = {'1.2': ['ApiDeclaration', 'ResourceListing', 'Operation', 'Model'], '2.0': ['Swagger', 'PathItem', 'Operation', 'Schema', 'Response'],
         '3.0.0': ['OpenApi', 'Components', 'Operation', 'Schema', 'PathItem', 'Response', 'Link']}


def safe(r, x):
    """keys which need no escaping"""
    if isinstance(x, dict):
        return {(k if not set(k) & set('~/') and k else 'k%d' % i): safe(r, y) for i, (k, y) in enumerate(x.items())}
    return [safe(r, y) for y in x] if isinstance(x, list) else x


def make(chk, v, cls):
    r = chk.rng
    g = docs.DocGen(r, v, budget=r.choice([5, 12, 25]), p_field=.15, p_child=r.choice([.4, .7]), unknown=0, bools=0)
    d = safe(r, g.obj(cls, r.choice([1, 2, 3])))
    if not docs.fits(v, [cls], d):
        return None, None
    klass = getattr(docs.module(v), cls)
    got = chk.call(lambda: klass(copy.deepcopy(d), '#'))
    return (got[1], d) if got[0] == 'ok' and docs.is_obj(got[1]) else (None, None)


def history(chk, v, cls, name, steps):
    r = chk.rng
    h, ev = Heap(v), []
    n0 = 1
    for _ in range(r.choice([2, 2, 3])):
        o, d = make(chk, v, cls)
        if o is None:
            return None
        ev.append(h.load(o, d))
    nodes = lambda p: [i for i in range(1, len(h.objs)) if h.num.get(id(h.objs[i])) == i and p(h.objs[i])]
    full = lambda o: any(True for _ in h.parts(o))
    hot = []
    for _ in range(steps):
        if len(h.objs) > 250:
            break
        objs, lists, maps = nodes(docs.is_obj), nodes(docs.is_list), nodes(docs.is_map)
        everything = objs + lists + maps
        k = r.random()
        e = None
        at = r.choice(hot) if hot and r.random() < .5 else r.choice(everything)
        if k < .3:
            e = dict(op='kids', at=at)
        elif k < .4:
            e = dict(op='parent', at=at)
        elif k < .45:
            e = dict(op='dump', at=at)
        elif docs.is_list(h.objs[at]):
            # of the same kind as what the list is made for
            like = [x for x in objs if type(h.objs[x]) in {type(y) for y in h.objs[at]}]
            like = [x for x in like if at not in h.below(x)]
            if like:
                if r.random() < .6:
                    e = dict(op='append', at=at, x=r.choice(like))
                else:
                    e = dict(op='extend', at=at, xs=[r.choice(like) for _ in range(r.choice([0, 1, 2]))])
                    same = [y for y in lists if type(h.objs[y]) is type(h.objs[at]) and y != at and at not in h.below(y)]
                    if same and r.random() < .5:
                        e['y'] = r.choice(same)
                        e['xs'] = [h.id(x) for x in h.objs[e['y']]]
                        if any(x <= 0 for x in e['xs']):
                            e = None
        elif docs.is_map(h.objs[at]):
            m = h.objs[at]
            like = [x for x in everything if type(h.objs[x]) in {type(m[y]) for y in m.keys()} and at not in h.below(x)]
            if like:
                e = dict(op='put', at=at, name=r.choice(sorted(m.keys()) + SAFE), x=r.choice(like))
        else:
            o = h.objs[at]
            same = [x for x in objs if type(h.objs[x]) is type(o) and x != at and at not in h.below(x)]
            if not same:
                continue
            x = r.choice(same)
            if k < .65:
                e = dict(op='merge', at=at, x=x)
            else:
                cs = [(c, y) for c, y in h.parts(h.objs[x]) if h.id(y) > 0 and at not in h.below(h.id(y))]
                if cs:
                    c, y = r.choice(cs)
                    e = dict(op='attach' if r.random() < .6 else 'set', at=at, name=c, x=h.id(y))
        if e is None:
            continue
        ev.append(do(chk, h, e))
        if e['op'] not in ('kids', 'parent', 'dump'):
            hot = [e['at']] + ([e['x']] if 'x' in e else [])
            p = h.id(h.objs[e['at']].get_parent())
            hot += [p] if p > 0 else []
    for i in r.sample(nodes(lambda o: True), min(12, len(nodes(lambda o: True)))):
        ev.append(do(chk, h, dict(op='kids', at=i)))
        ev.append(do(chk, h, dict(op='dump', at=i)))
    return dict(name=name, v=v, ev=ev)


def run(chk):
    ts = replay(chk)
    for v in ('1.2', '2.0', '3.0.0'):
        for i in range(chk.n(150, 2500)):
            cls = chk.rng.choice(ROOTS[v])
            t = history(chk, v, cls, '%s/%s/%d' % (v, cls, i), chk.n(25, 50))
            if t:
                ts.append(t)
    chk.validate('Trace_C05', ts, chunk=400)
    chk.assumptions += ['no object is placed below itself', 'names need no escaping (C04 covers them)']

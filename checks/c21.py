"""C21: object types made from declarations"""
import copy
import types

from pyopenapi.migration.spec import Base2, child, field, internal, list_, map_, rename
from pyopenapi.migration.spec.attr import AttributeGroup
from pyopenapi.utils import jp_compose
from vlib import docs
from vlib.enc import dec, enc

NOTE = 'all declarations of a field with and without redefinition in a derived type are enumerated by TLC and built; random families of types, documents, prepared objects and histories of reads and writes are trace-checked'
CFG = 'INIT Init\nNEXT Next\nINVARIANTS Alike Visible Apart Emit\n'
VALS = [1, 0, '', 'x', None, True, False, [], {}, ['a'], {'k': 1}, 2.5]
BUILDERS = dict(f=field, c=child, i=internal)


class Rig(object):
    """types and objects by number, made for real; every step is an event"""

    def __init__(self, chk):
        self.chk, self.r, self.ev = chk, chk.rng, []
        self.types, self.decl, self.anc = [], [], []
        self.groups, self.gdecl = [], []
        self.objs, self.info, self.where = [], [], []

    # -------------------------------------------------- types
    def builder(self, b):
        if b[0] == 'lit':
            def lit(spec, path=None, override=None):  # pylint: disable=unused-argument
                return spec
            return lit
        if b[0] == 'list':
            return list_(self.builder(b[1:]))
        if b[0] == 'map':
            return map_(self.builder(b[1:]))
        if b[0] == 'ifa':
            one, other = self.types[b[1] - 1], self.builder(b[2:])

            def ifa(spec, path=None, override=None):
                if isinstance(spec, dict) and 'a' in spec:
                    return one(spec, path=path, override=override)
                return other(spec, path=path, override=override)
            return ifa
        return self.types[b[1] - 1]

    def args(self, part, d, name):
        r = self.r
        out = {}
        if part == 'i':
            if d['alias']:
                return dict(builder=rename, key=d['key'])
            if d['key'] != name:
                out['key'] = d['key']
            if dec(d['dflt']) is not None:
                out['default'] = dec(d['dflt'])
            if r.random() < .2:
                out['builder'] = internal
            return out
        if d['key'] != name or r.random() < .2:
            out['key'] = d['key']
        if dec(d['dflt']) is not None or r.random() < .1:
            out['default'] = dec(d['dflt'])
        if d['required'] or r.random() < .1:
            out['required'] = d['required']
        if part == 'f':
            if d['restricted'] or r.random() < .1:
                out['restricted'] = d['restricted']
            if not d['readonly'] or r.random() < .1:
                out['readonly'] = d['readonly']
        else:
            out['child_builder'] = self.builder(d['b'])
        if r.random() < .2:
            out['builder'] = BUILDERS[part]
        return out

    def type(self, bases, f, c, i):
        body = {}
        for part, q, key in (('f', f, '__fields__'), ('c', c, '__children__'), ('i', i, '__internal__')):
            if q or self.r.random() < .5:
                body[key] = {n: self.args(part, d, n) for n, d in q.items()}
        bs = tuple(self.types[b - 1] for b in bases) or (Base2,)
        got = self.chk.call(lambda: types.new_class('T%d' % (len(self.types) + 1), bs, {}, lambda ns: ns.update(body)))
        self.ev.append(dict(op='type', bases=bases, f=list(f.items()), c=list(c.items()), i=list(i.items()), out=got[0]))
        if got[0] != 'ok':
            return None
        self.types.append(got[1])
        m = {}
        for part, q in (('f', f), ('c', c), ('i', i)):
            m[part] = dict(q)
            for b in bases:
                for n, d in self.decl[b - 1][part].items():
                    m[part].setdefault(n, d)
        self.decl.append(m)
        self.anc.append({len(self.types)}.union(*[self.anc[b - 1] for b in bases]) if bases else {len(self.types)})
        return len(self.types)

    def attach(self, t, part, name, d):
        a = self.args(part, d, name)
        a.setdefault('builder', BUILDERS[part])
        d = dict(d, attached=True) if part == 'f' else d
        got = self.chk.call(lambda: self.types[t - 1].attach_field(name, **a))
        self.ev.append(dict(op='attach', t=t, part=part, name=name, d=d, out=got[0]))
        self.decl[t - 1][part][name] = d

    # -------------------------------------------------- documents
    def doc(self, b, depth=3):
        r = self.r
        h = b[0]
        if h == 'lit':
            return copy.deepcopy(r.choice(VALS))
        if h == 'list':
            return [self.doc(b[1:], depth - 1) for _ in range(r.choice([0, 1, 1, 2, 3]))]
        if h == 'map':
            return {r.choice(KEYS): self.doc(b[1:], depth - 1) for _ in range(r.choice([0, 1, 1, 2, 3]))}
        if h == 'ifa':
            for _ in range(8):
                d = self.doc(['obj', b[1]] if r.random() < .4 else b[2:], depth)
                if not isinstance(d, dict):
                    return d
                if 'a' in d:
                    d = self.doc(['obj', b[1]], depth)
                    d['a'] = 1
                    return d
                return d
        m = self.decl[b[1] - 1]
        out = {}
        for n, d in m['f'].items():
            if r.random() < (.15 if d['restricted'] else .9 if d['required'] else .5):
                out[d['key']] = copy.deepcopy(r.choice(VALS))
        for n, d in m['c'].items():
            if d['required'] and r.random() < .95 or depth > 0 and r.random() < .7:
                out[d['key']] = None if r.random() < .05 else self.doc(d['b'], depth - 1)
        if r.random() < .1:
            out['more'] = 1
        ks = list(out)
        r.shuffle(ks)
        return {k: out[k] for k in ks}

    def ok(self, b, x):
        """can x stand where b is built (everything in its place has the type it needs)?"""
        h = b[0]
        if h == 'lit':
            return True
        if h == 'list':
            return isinstance(x, list) and all(self.ok(b[1:], y) for y in x)
        if h == 'map':
            return isinstance(x, dict) and all(self.ok(b[1:], y) for y in x.values())
        if h == 'ifa':
            return isinstance(x, dict) and 'a' in x and self.ok(['obj', b[1]], x) or self.ok(b[2:], x)
        return isinstance(x, dict) and all(x.get(d['key']) is None or self.ok(d['b'], x[d['key']]) for d in self.decl[b[1] - 1]['c'].values())

    def places(self, b, x, at=()):
        """positions by document key, with what is built there"""
        h = b[0]
        if at:
            yield at, b
        if h == 'list':
            for i, y in enumerate(x):
                for z in self.places(b[1:], y, at + (str(i),)):
                    yield z
        elif h == 'map':
            for k, y in x.items():
                for z in self.places(b[1:], y, at + (k,)):
                    yield z
        elif h == 'ifa':
            for z in self.places(['obj', b[1]] if 'a' in x else b[2:], x, at):
                yield z
        elif h == 'obj':
            for d in self.decl[b[1] - 1]['c'].values():
                if x.get(d['key']) is not None:
                    for z in self.places(d['b'], x[d['key']], at + (d['key'],)):
                        yield z
                else:
                    yield at + (d['key'],), d['b']

    # -------------------------------------------------- objects
    def parts(self, o):
        if docs.is_obj(o):
            t = self.types.index(type(o))
            return [(n, getattr(o, n)) for n in self.decl[t]['c']]
        if docs.is_list(o):
            return [(str(i), e) for i, e in enumerate(o)]
        return [(k, o[k]) for k in list(o.keys())]

    def walk(self, o, at=(), par=None):
        if not (docs.is_obj(o) or docs.is_list(o) or docs.is_map(o)):
            return
        yield at, o, par
        for n, c in self.parts(o):
            for z in self.walk(c, at + (n,), o):
                yield z

    def build(self, b, d, prep):
        k = self.builder(b)
        ovr = {jp_compose(list(p['at'])): self.objs[p['x'] - 1] for p in prep}
        how = self.r.randrange(3) if not prep else 2
        raw = copy.deepcopy(d)
        got = self.chk.call(lambda: k(raw, '#/x', ovr) if how == 2 else k(raw, path='#') if how else k(raw))
        e = dict(op='build', b=b, doc=enc(d), prep=prep, out=[[[], 'err', 0, 0]], held=True)
        self.ev.append(e)
        self.objs.append(got[1] if got[0] == 'ok' else None)
        self.info.append(b)
        self.where.append({})
        if got[0] != 'ok':
            return None
        num = {id(o): i + 1 for i, o in enumerate(self.objs[:-1]) if o is not None}
        seen = self.chk.call(lambda: list(self.walk(got[1])))
        if seen[0] != 'ok':
            e['out'] = [[[], 'walk ' + seen[1], 0, 0]]
            return None
        e['out'] = []
        for at, o, par in seen[1]:
            kind = 'obj' if docs.is_obj(o) else 'list' if docs.is_list(o) else 'map'
            t = self.types.index(type(o)) + 1 if kind == 'obj' and type(o) in self.types else 0
            e['out'].append([list(at), kind, t, num.get(id(o), 0)])
            if par is not None and o.get_parent() is not par and not (kind != 'obj' and len(o) == 0):
                e['held'] = False
            self.where[-1][at] = o
        for p in prep:
            self.where[p['x'] - 1] = {}
        return len(self.objs)

    def step(self, e, fn):
        got = self.chk.call(fn)
        e['out'] = got[1] if got[0] == 'ok' else 'err'
        self.ev.append(e)

    def read(self, n, at, name):
        o = self.where[n - 1][at]

        def fn():
            try:
                x = getattr(o, name)
            except Exception:  # pylint: disable=broad-except
                return ['err']
            if docs.is_obj(x) or docs.is_list(x) or docs.is_map(x):
                for a, y in self.where[n - 1].items():
                    if y is x:
                        return ['node', list(a)]
                return ['node', ['?']]
            return ['val', enc(x)]
        self.step(dict(op='read', o=n, at=list(at), name=name), fn)

    def write(self, n, at, name, v):
        o = self.where[n - 1][at]
        self.step(dict(op='write', o=n, at=list(at), name=name, v=enc(v)), lambda: (setattr(o, name, copy.deepcopy(v)), 'ok')[1])

    def dump(self, n, at=()):
        got = self.chk.call(self.where[n - 1][at].dump)
        self.ev.append(dict(op='dump', o=n, at=list(at), out=enc(got[1]) if got[0] == 'ok' else ['err']))

    def names(self, n, at):
        self.step(dict(op='names', o=n, at=list(at)), lambda: sorted(self.where[n - 1][at].get_field_names()))

    def isset(self, n, at, key):
        self.step(dict(op='isset', o=n, at=list(at), name=key), lambda: self.where[n - 1][at].is_set(key))


KEYS = ['a', 'b', 'x', 'k 1', '200', '0', 'p/q', '~', 'a~1b', '/a/{b}', '', 'é']


def fdecl(r, key, p=.3):
    return dict(key=key, required=r.random() < p * .7, restricted=r.random() < p * .4, readonly=r.random() < .6,
                dflt=enc(copy.deepcopy(r.choice(VALS)) if r.random() < .4 else None), attached=False)


def family(chk, g):
    r = chk.rng
    for _ in range(r.choice([1, 2, 3, 4, 5])):
        n = len(g.types)
        bases = []
        if n and r.random() < .5:
            bases = [r.randint(1, n)]
            more = [t for t in range(1, n + 1) if not g.anc[t - 1] & g.anc[bases[0] - 1]]
            if more and r.random() < .4:
                bases.append(r.choice(more))
        f, c, i = {}, {}, {}
        for nm in r.sample(['f0', 'f1', 'f2', 'f3', 'a'], r.choice([0, 1, 2, 3])):
            f[nm] = fdecl(r, nm if r.random() < .9 else nm + '_key')
        for nm in r.sample(['c0', 'c1', 'c2'], r.choice([0, 1, 1, 2, 3])):
            b = blueprint(r, n)
            dflt = None
            if r.random() < .35:
                dflt = [] if b[0] == 'list' else {}
            c[nm] = dict(key=nm if r.random() < .92 else nm + '_key', b=b, required=r.random() < .1, dflt=enc(dflt))
        known = list(f) + list(c) + [x for b in bases for p in 'fc' for x in g.decl[b - 1][p]]
        for nm in r.sample(['i0', 'i1', 'i2', 'i3'], r.choice([0, 1, 2])):
            if known and r.random() < .6:
                i[nm] = dict(alias=True, key=r.choice(known), dflt=enc(None))
            else:
                i[nm] = dict(alias=False, key=nm if r.random() < .8 else nm + '_', dflt=enc(r.choice(VALS) if r.random() < .3 else None))
        ins = [x for x in i if not i[x]['alias']]
        if ins and r.random() < .2:
            # an alias of an internal value
            i['i9'] = dict(alias=True, key=r.choice(ins), dflt=enc(None))
        t = g.type(bases, f, c, i)
        if not t:
            return
        if r.random() < .25:
            part = r.choice('cfi')
            if part == 'c':
                b = r.choice([['obj', t], ['list', 'obj', t], ['map', 'obj', t]])
                g.attach(t, 'c', 'c9', dict(key='c9', b=b, required=False, dflt=enc(None)))
            elif part == 'f':
                g.attach(t, 'f', 'f9', fdecl(r, 'f9'))
            else:
                g.attach(t, 'i', 'i8', dict(alias=False, key='i8', dflt=enc(r.choice([None, 3]))))


def blueprint(r, n):
    b = []
    while r.random() < .45 and len(b) < 3:
        b.append(r.choice(['list', 'map']))
    if n and r.random() < .15:
        b += ['ifa', r.randint(1, n)]
        if r.random() < .3:
            b.append(r.choice(['list', 'map'][1:]))
    if n and (r.random() < .8 or 'ifa' in b):
        return b + ['obj', r.randint(1, n)]
    return (b or ['list']) + ['lit']


def group(chk, g):
    r = chk.rng
    body, decl = {}, []
    for nm in r.sample(['ga', 'gb', 'gc', 'gd'], r.choice([1, 2, 3])):
        key = nm if r.random() < .7 else nm + '_'
        d = dict(key=key, required=r.random() < .2, dflt=enc(r.choice(VALS) if r.random() < .4 else None))
        decl.append([nm, d])
        a = {}
        if key != nm:
            a['key'] = key
        if d['required']:
            a['required'] = True
        if dec(d['dflt']) is not None:
            a['default'] = dec(d['dflt'])
        body[nm] = a
    k = types.new_class('G%d' % len(g.groups), (AttributeGroup,), {}, lambda ns: ns.update({'__attributes__': body}))
    g.groups.append(k)
    g.gdecl.append(decl)
    g.ev.append(dict(op='group', a=decl))


def one(chk, name, steps):
    r = chk.rng
    g = Rig(chk)
    family(chk, g)
    if not g.types:
        return dict(name=name, ev=g.ev)
    for _ in range(r.choice([0, 1, 2])):
        group(chk, g)
    for _ in range(r.choice([1, 2, 3, 4])):
        t = r.randint(1, len(g.types))
        b = ['obj', t]
        if r.random() < .15:
            b = [r.choice(['list', 'map'])] + b
        d = g.doc(b, r.choice([1, 2, 3]))
        if not g.ok(b, d):
            continue
        prep = []
        if r.random() < .7:
            free = [i + 1 for i, o in enumerate(g.objs) if o is not None and g.where[i]]
            ps = [p for p in g.places(b, d) if p[1][0] != 'lit']
            deep = [p for p in ps if len(p[0]) > 1]
            for _ in range(r.choice([1, 1, 2, 3])):
                if r.random() < .6:
                    # one made for this place
                    if not ps:
                        break
                    at, pb = r.choice(deep if deep and r.random() < .6 else ps)
                    if pb[0] == 'lit' or pb[0] == 'ifa' or any(p['at'] == list(at) for p in prep):
                        continue
                    pd = g.doc(pb, 1)
                    if not g.ok(pb, pd):
                        continue
                    x = g.build(pb, pd, [])
                else:
                    at = r.choice(ps)[0] if ps and r.random() < .8 else ('c1', r.choice(KEYS))
                    x = r.choice(free) if free else None
                if x and not any(p['at'] == list(at) or p['x'] == x for p in prep):
                    prep.append(dict(at=list(at), x=x))
            # at most one position with names that need escaping, they would get into the way of each other
            odd = [p for p in prep if any(set(k) & set('~/') or not k for k in p['at'])]
            if odd:
                prep = [r.choice(odd)]
        g.build(b, d, prep)
    live = [n + 1 for n in range(len(g.objs)) if g.where[n]]
    grp = set()
    for _ in range(steps):
        if not live:
            break
        n = r.choice(live)
        at = r.choice(list(g.where[n - 1]))
        o = g.where[n - 1][at]
        k = r.random()
        if k < .15 or not docs.is_obj(o):
            g.dump(n, at if r.random() < .5 else ())
            continue
        m = g.decl[g.types.index(type(o))]
        names = [x for p in 'fci' for x in m[p]]
        if k < .5 and names:
            g.read(n, at, r.choice(names))
        elif k < .75 and names:
            nm = r.choice([x for x in names if x[0] in 'fi'] or names)
            g.write(n, at, nm, r.choice(VALS))
            for al in m['i']:
                g.read(n, at, al)
            g.read(n, at, nm)
        elif k < .8:
            g.names(n, at)
        elif k < .85:
            g.isset(n, at, r.choice([x['key'] for p in 'fc' for x in m[p].values()] or ['z']))
        elif g.groups:
            gi = r.randint(0, len(g.groups))
            ns = r.choice(['n1', 'n2'])
            before = o.get_attrs(ns)
            got = o.get_attrs(ns, g.groups[gi - 1]) if gi else o.get_attrs(ns)
            g.ev.append(dict(op='grp', o=n, at=list(at), ns=ns, g=gi,
                             out='none' if got is None else 'same' if got is before else 'new' if before is None and type(got) is g.groups[gi - 1] else 'other'))
            if got is not None:
                decl = g.gdecl[g.groups.index(type(got))]
                for _ in range(2):
                    nm, d = r.choice(decl)
                    if r.random() < .5:
                        v = r.choice(VALS)
                        setattr(got, nm, copy.deepcopy(v))
                        g.ev.append(dict(op='gwrite', o=n, at=list(at), ns=ns, name=nm, v=enc(v), out='ok'))
                    for nm, d in decl:
                        x = chk.call(lambda: getattr(got, nm))
                        g.ev.append(dict(op='gread', o=n, at=list(at), ns=ns, name=nm, out=['val', enc(x[1])] if x[0] == 'ok' else ['err']))
    for n in live:
        g.dump(n)
    # what happened to objects does not show in others that are made later
    for n in r.sample(live, min(2, len(live))):
        b = g.info[n - 1]
        d = g.doc(b, r.choice([0, 1]))
        if g.ok(b, d):
            n = g.build(b, d, [])
            if n:
                g.dump(n)
    return dict(name=name, ev=g.ev)


def replay(chk):
    """every declaration of the model is made, and used as in the model"""
    ts = []
    for n, c in enumerate(chk.model('MC_Fields', CFG)['F']):
        g = Rig(chk)
        al = dict(alias=True, key='f0', dflt=enc(None))
        g.type([], {'f0': c['d1']}, {}, {'i0': al})
        g.type([1], {'f0': c['d2'][0]} if c['d2'] else {}, {}, {})
        for t in (1, 2):
            o = g.build(['obj', t], dec(c['doc']), [])
            if o:
                for e in c['h']:
                    if e['op'] == 'write':
                        g.write(o, (), e['name'], dec(e['v']))
                    else:
                        g.read(o, (), e['name'])
                for nm in ('f0', 'i0'):
                    g.read(o, (), nm)
                g.names(o, ())
                g.dump(o)
        ts.append(dict(name='model/%d' % n, ev=g.ev))
    return ts


def run(chk):
    ts = replay(chk)
    if chk.quick:
        ts = chk.rng.sample(ts, min(len(ts), 1500))
    for i in range(chk.n(1500, 20000)):
        ts.append(one(chk, 'random/%d' % i, chk.n(12, 20)))
    chk.validate('Trace_C21', ts, chunk=1000)
    chk.assumptions += ['every value under a child position has the JSON type that position needs', 'default values of children are not nested',
                        'no two bases of a type have a base in common, and no name is used as field and child']

"""driving pyopenapi.migration.store.SpecObjStore"""
from pyopenapi.migration.spec import _Base
from pyopenapi.migration.store import SpecObjStore
from pyopenapi.utils import jp_compose

from . import gen


class Part(object):
    def __init__(self, oid, rest):
        self.oid, self.rest = oid, rest

    def __len__(self):
        """some values are empty: a text, a map, ..."""
        return self.oid % 2


class Probe(_Base):
    """an object in which every pointer designates something"""

    def __init__(self, oid):
        super(Probe, self).__init__({}, '#')
        self.oid = oid

    def __len__(self):
        return self.oid % 3

    def resolve(self, parts):
        parts = [parts] if isinstance(parts, str) else list(parts or [])
        return Part(self.oid, parts) if parts else self


def seen(x):
    if x is None:
        return ['none']
    if isinstance(x, Probe):
        return ['hit', x.oid, []]
    if isinstance(x, Part):
        return ['hit', x.oid, x.rest]
    return ['?', repr(x)]


VERS = ['1.2', '2.0', '3.0.0']
TOK = ['a', 'ab', 'abc', 'b', 'Pet', 'PetStore', 'a/b', 'a~b', '~1', '0', '1', '10', 'definitions', 'paths', '/a', '/a/{id}',
       'x y', 'é', '#', '%2F', '$', 'parameters', 'keys']


def names(r, mx=4):
    return [r.choice(TOK) if r.random() < .9 else gen.name(r) or 'e' for _ in range(r.randint(0, mx))]


def ptr(ns):
    return jp_compose(list(ns), base='#')


class Run(object):
    def __init__(self, chk, empties=True):
        self.chk, self.r = chk, chk.rng
        self.s = SpecObjStore(migratable_spec_versions=list(VERS))
        self.objs, self.ev, self.n, self.known = [], [], 0, [[]]

    def some(self):
        """a pointer related to those used before"""
        r = self.r
        k = list(r.choice(self.known))
        x = r.random()
        if x < .3:
            k = k + names(r, 2)
        elif x < .5:
            k = k[:r.randint(0, len(k))]
        elif x < .6 and k:
            k[-1] = k[-1] + r.choice(['b', '2', '~', '/', ' '])
        elif x < .7 and k and len(k[-1]) > 1:
            k[-1] = k[-1][:-1]
        elif x < .8:
            k = names(r)
        self.known.append(k)
        return k

    def out(self, fn, conv):
        g = self.chk.call(fn, 5)
        return conv(g[1]) if g[0] == 'ok' else list(g)

    def set(self, u, v, p=None):
        self.n += 1
        o = Probe(self.n)
        self.objs.append(o)
        p = ptr(self.some() if p is None else p)
        self.ev.append(dict(op='set', u=u, p=p, v=v, id=self.n,
                            out=self.out(lambda: self.s.set(o, u, p, v), lambda _: ['ok'])))

    def get(self, u, v):
        p = ptr(self.some())
        self.ev.append(dict(op='get', u=u, p=p, v=v, out=self.out(lambda: self.s.get(u, p, v), seen)))

    def under(self, u, v, remove):
        p = ptr(self.some())
        self.ev.append(dict(op='under', u=u, p=p, v=v, remove=remove, out=self.out(
            lambda: self.s.get_under(u, p, v, remove=remove),
            lambda d: ['ok', sorted([k, getattr(x, 'oid', -1)] for k, x in (d or {}).items())])))

    def until(self, u, v, lim):
        p = ptr(self.some())

        def conv(t):
            return ['none'] if t[0] is None else seen(t[0]) + [t[1], t[2]]
        self.ev.append(dict(op='until', u=u, p=p, v=v, lim=lim,
                            out=self.out(lambda: self.s.get_until(u, p, v, until=lim), conv)))

    def routes(self, depth, top):
        """(python form, event form) of a random set of relocations"""
        r = self.r
        py, ev = {}, []
        for _ in range(r.randint(1, 3)):
            f = list(self.some()) if top else (names(r, 2) or ['a'])
            if not top and r.random() < .4 and self.known:
                f = list(r.choice(self.known))[-2:] or f
            rest = not top and r.random() < .15
            if rest:
                # all that has no better match
                f = []
            kind = r.choice(['abs', 'rel']) if rest else r.choice(['abs', 'nest', 'nest'] if top else ['abs', 'rel', 'rel', 'nest'])
            if kind == 'nest' and depth == 0:
                kind = 'abs' if top else 'rel'
            key = ptr(f) if top else '/'.join(jp_compose([x]) for x in f)
            if kind == 'nest':
                p, e = self.routes(depth - 1, False)
            elif kind == 'abs':
                p = ptr(names(r, 3) or ['t'])
                e = p
            else:
                p = '/'.join(jp_compose([x]) for x in (names(r, 2) or ['t']))
                if p.startswith('#') or p == '':
                    p = 't'
                e = p
            if key in py:
                continue
            py[key] = p
            ev.append({'from': key, 'to': {'k': kind, 'r': e} if kind == 'nest' else {'k': kind, 'p': e}})
        return py, ev

    def route(self, u, v):
        py, ev = self.routes(2, True)
        items = list(py.items())
        self.r.shuffle(items)
        py = dict(items)
        self.ev.append(dict(op='route', u=u, v=v, r=ev,
                            out=self.out(lambda: self.s.update_routes(u, v, py), lambda _: ['ok'])))

    def reloc(self, u, v, w):
        k = self.some()
        if self.r.random() < .15:
            k = k + [''] + names(self.r, 1)
        p = ptr(k)
        self.ev.append(dict(op='reloc', u=u, p=p, v=v, w=w, out=self.out(
            lambda: self.s.relocate(u, p, v, to_spec=w), lambda x: ['ok', x if isinstance(x, str) else '?' + repr(x)])))

"""random 3.0.0 descriptions with references, alone or spread over several documents"""
import posixpath

from pyopenapi.utils import jp_compose

from . import gen
from .docs import DocGen, grammar
from .gen20 import Place

CLASSES = ['Schema', 'Parameter', 'Response', 'RequestBody', 'Header', 'Example', 'Link', 'SecurityScheme', 'Callback', 'PathItem']
SECTIONS = dict(schemas='Schema', responses='Response', parameters='Parameter', examples='Example', requestBodies='RequestBody',
                headers='Header', securitySchemes='SecurityScheme', links='Link', callbacks='Callback')


class Gen30(DocGen):
    def __init__(self, r, root='http://h/v1/openapi.json', ext=0, pref=.3, pathref=.3, loops=False, budget=60, lost=0., lone=True, big=1., **kw):
        super(Gen30, self).__init__(r, '3.0.0', budget=budget, null=.03, unknown=.05, **kw)
        self.root, self.pref, self.pathref, self.loops, self.lost, self.lone, self.big = root, pref, pathref, loops, lost, lone, big
        self.exturls = sorted(set(r.choice(['http://h/v1/other.json', 'http://h/v1/sub/x.yml', 'http://h/deep.json', 'http://h/v1/a/b/c.json',
                                            'http://k:8080/z.yaml', 'http://h/v1/openapi2.json', 'http://h/v1/openapi.jsonx'])
                                  for _ in range(ext)))

    def build(self, b, depth):
        if b[0] == 'ref' and self.r.random() < self.pref:
            out = {'$ref': Place(b[1])}
            if self.r.random() < .1:
                out['description'] = 'ignored'
            return out
        if b[0] == 'ref':
            return self.build(b[1:], depth)
        if b[0] in ('list', 'map') and b[1:] == ['str']:
            return super(Gen30, self).build(b, depth)
        if b[0] == 'map':
            out = {}
            for _ in range(self.r.choice([0, 1, 1, 2, 2, 3])):
                k = self.key()
                if k != '$ref':
                    out[k] = self.build(b[1:], depth - 1)
            return out
        return super(Gen30, self).build(b, depth)

    def key(self):
        r = self.r
        while True:
            k = gen.safe_name(r) if r.random() < .4 else r.choice(gen.PLAIN + ['200', 'default', '/a', '/a/{b}'])
            if (k or not self.exturls) and k != '..' and k != '.':
                return k

    def obj(self, cls, depth=4, full=False):
        out = super(Gen30, self).obj(cls, depth, full)
        out.pop('$ref', None)
        if cls == 'PathItem' and self.r.random() < self.pathref:
            out['$ref'] = Place('PathItem')
        if cls in ('Schema', 'MediaType', 'Parameter') and self.r.random() < .05:
            # not a reference
            out[self.r.choice(['example', 'default', 'x-ext'] if cls == 'Schema' else ['example', 'x-ext'])] = {'$ref': 'nowhere.json#/a'}
        return out

    def spine(self, cls='PathItem'):
        """an object with one reference, anywhere below where one may be"""
        r, g, up = self.r, self.g, {}

        def ends(b):
            b = [t for t in b if t not in ('list', 'map', 'ref', 'bool')]
            return 'PathItem' if b[0] == 'Callback' and r.random() < .5 else b[0]
        for h, d in g.items():
            for c, b in d['c'].items():
                if b[-1] != 'str':
                    up.setdefault(ends(b), []).append((h, c))
                    if 'ref' in b:
                        up.setdefault('ref', []).append((h, c))
        way, at = [], 'ref'
        while len(way) < 16:
            way.insert(0, r.choice([x for x in up[at] if x[0] not in ('OpenApi', 'Components', 'Callback')] or [(None, None)]))
            at = way[0][0]
            if at is None:
                return self.obj(cls, 3)
            if at == cls and r.random() < .7:
                break
        else:
            return self.obj(cls, 3)

        def make(b, i):
            if b[0] == 'list':
                return [make(b[1:], i)]
            if b[0] == 'map' or b[0] == 'Callback' and i < len(way):
                k = self.key()
                return {k if k != '$ref' else 'ref': make(b[1:] if b[0] == 'map' else ['PathItem'], i)}
            if b[0] == 'bool':
                return make(b[1:], i)
            if b[0] == 'ref':
                if i == len(way):
                    self.needed.append(b[1])
                    return {'$ref': Place(b[1])}
                return make(b[1:], i)
            self.budget = 0
            out = self.obj(b[0], 1)
            out.pop('$ref', None)
            c = way[i][1]
            out[c] = make(g[b[0]]['c'][c], i + 1)
            return out
        return make([cls], 0)

    def docset(self):
        r = self.r
        docs = {}
        comp = {}
        self.needed = []
        for s, c in SECTIONS.items():
            if r.random() < .5:
                self.budget = 12 * self.big
                comp[s] = self.build(['map', 'ref', c], 4)
        self.budget = 60 * self.big
        root = {'openapi': '3.0.0', 'info': {'title': 't', 'version': '1'}, 'paths': {}}
        for _ in range(r.randint(0, 3)):
            self.budget = 25 * self.big
            root['paths'][r.choice(['/', '/a', '/a/{id}', '/a/{id}/b~c', '/é', '/x y', '~1/a', '/m~0n'])] = \
                self.spine() if r.random() < .3 else self.obj('PathItem', 5)
        for c in self.needed:
            # something for them to refer to
            comp.setdefault({y: x for x, y in SECTIONS.items()}[c], {}).setdefault(self.key(), self.obj(c, 1) if c != 'Callback' else {'{$url}': {}})
        if comp:
            root['components'] = comp
        items = list(root.items())
        r.shuffle(items)
        docs[self.root] = dict(items)
        self.kinds = {self.root: ['OpenApi']}
        for u in self.exturls:
            d = docs[u] = {}
            self.kinds[u] = {}
            for _ in range(r.randint(1, 4)):
                c = r.choice(CLASSES)
                k, k2 = self.key(), self.key()
                self.budget = 15 * self.big
                b = ['ref', c] if c != 'PathItem' else [c]
                if r.random() < .8:
                    if isinstance(self.kinds[u].get(k), list):
                        continue
                    d.setdefault(k, {})[k2] = self.build(b, 4)
                    self.kinds[u].setdefault(k, {})[k2] = b
                elif k not in d:
                    d[k] = self.build(b, 4)
                    self.kinds[u][k] = b
        self.docs = docs
        self.place()
        return docs

    # ---- references
    def positions(self):
        out = []
        g = self.g

        def rec(b, x, u, at, wrapped=None):
            h = b[0]
            if x is None or h == 'str':
                return
            if h == 'bool':
                if not isinstance(x, bool):
                    rec(b[1:], x, u, at)
            elif h == 'ref':
                if isinstance(x, dict) and '$ref' in x:
                    out.append((u, at, b[1], isinstance(x['$ref'], Place)))
                else:
                    rec(b[1:], x, u, at)
            elif h == 'Callback':
                out.append((u, at, h, False))
                rec(['map', 'PathItem'], x, u, at)
            elif h == 'list':
                for i, y in enumerate(x):
                    rec(b[1:], y, u, at + [str(i)])
            elif h == 'map':
                for k, y in x.items():
                    rec(b[1:], y, u, at + [k])
            else:
                out.append((u, at, h, '$ref' in x))
                for c, cb in g[h]['c'].items():
                    if c in x:
                        rec(cb, x[c], u, at + [c])

        def ext(k, x, u, at):
            if isinstance(k, list):
                rec(k, x, u, at)
            else:
                for n, y in k.items():
                    ext(y, x[n], u, at + [n])
        for u, d in self.docs.items():
            ext(self.kinds[u], d, u, [])
        return out

    def rel(self, target, base):
        r = self.r
        x = r.random()
        if target == base and x < .8:
            return ''
        if x < .25 or target.split('/')[:3] != base.split('/')[:3]:
            return target
        pt, pb = '/' + target.split('/', 3)[3], '/' + base.split('/', 3)[3]
        if x < .4:
            return pt
        p = posixpath.relpath(pt, posixpath.dirname(pb))
        return p if x < .7 or p.startswith('..') else './' + p

    def place(self):
        r = self.r
        pos = self.positions()
        order = {(u, tuple(at)): i for i, (u, at, _, _) in enumerate(pos)}
        ok = set(c for c in CLASSES)

        def rec(x, u, at):
            if isinstance(x, dict):
                p = x.get('$ref')
                if isinstance(p, Place):
                    c = [q for q in pos if q[2] == p.kind and p.kind in ok]
                    me = order.get((u, tuple(at)))
                    if not self.loops:
                        c = [q for q in c if not q[3] or (me is not None and order[(q[0], tuple(q[1]))] > me)]
                    if c and self.lost and r.random() < self.lost:
                        t = r.choice(c)
                        x['$ref'] = self.rel(t[0], u) + jp_compose(list(t[1]) + ['nowhere'] if r.random() < .5 else ['gone'], base='#')
                    elif not c:
                        x.clear()
                        x.update({'{$url}': {}} if p.kind == 'Callback' else self.obj(p.kind, 0))
                        if isinstance(x.get('$ref'), Place):
                            del x['$ref']
                    else:
                        t = r.choice(c)
                        x['$ref'] = self.rel(t[0], u) + jp_compose(list(t[1]), base='#')
                for k, y in list(x.items()):
                    rec(y, u, at + [k])
            elif isinstance(x, list):
                for i, y in enumerate(x):
                    rec(y, u, at + [str(i)])
        for u, d in self.docs.items():
            rec(d, u, [])

"""random 2.0 descriptions, alone or spread over several documents"""
import posixpath

from pyopenapi.utils import jp_compose

from . import docs, gen

PLAINKEYS = ['a', 'b', 'c', 'Pet', 'PetStore', 'Pets', 'user', 'User', 'id', 'name', 'type', 'items', 'x-ext', 'default', 'é']
HARDKEYS = ['a/b', '~', '~1', 'a~b', '~01', 'x y', 'm~1n', '0', '1', '10', 'definitions', 'a.b', '"q"', '', 'properties', 'keys',
            '{id}', '/', '?', 'a:b', 'paths', "it's", '漢字', '!##!']
MIMES = ['application/json', 'application/xml', 'text/plain', 'application/x-www-form-urlencoded', 'multipart/form-data',
         'application/octet-stream', 'image/png', 'application/vnd.x+json']
# those which may carry a file, and some that do not
FILES = ['application/pdf'] + ['image/' + x for x in ('*', 'gif', 'jpeg', 'bmp', 'webp', 'tiff')] + \
    ['audio/' + x for x in ('*', 'midi', 'mpeg', 'webm', 'ogg', 'wav', 'flac')] + ['video/' + x for x in ('*', 'webm', 'ogg', 'mp4')]
METHODS = ['get', 'put', 'post', 'delete', 'options', 'head', 'patch']


class Place(object):
    """a reference whose target is chosen when everything else is there"""

    def __init__(self, kind):
        self.kind = kind


class Gen20(object):
    def __init__(self, r, root='http://h/v1/swagger.json', ext=0, rich=.35, hard=.3, bad=0., pref=.3, depth=3, npaths=3,
                 pathref=.0, cyc=True, nparam=4, bools=.5, loops=False, lost=0.):
        self.r, self.root, self.ext, self.rich, self.hard, self.bad = r, root, ext, rich, hard, bad
        self.pref, self.depth, self.npaths, self.pathref, self.cyc, self.nparam, self.bools = \
            pref, depth, npaths, pathref, cyc, nparam, bools
        self.loops, self.lost = loops, lost
        self.docs = {}
        self.exturls = []
        for _ in range(ext):
            self.exturls.append(r.choice(['http://h/v1/other.json', 'http://h/v1/sub/x.yml', 'http://h/deep.json',
                                          'http://h/v1/a/b/c.json', 'http://k:8080/z.yaml', 'http://h/v1/swagger2.json',
                                          'http://h/v1/swagger.jsonx']))
        self.exturls = sorted(set(self.exturls))

    # ---- small things
    def key(self):
        r = self.r
        return r.choice(HARDKEYS) if r.random() < self.hard else r.choice(PLAINKEYS)

    def keys(self, lo, hi):
        out = []
        for _ in range(self.r.randint(lo, hi)):
            k = self.key()
            if k == '' and self.ext:
                # children of partial documents are told apart by pointers
                continue
            if k not in out and k != '$ref':
                out.append(k)
        return out

    def maybe(self, p=None):
        return self.r.random() < (self.rich if p is None else p)

    def text(self):
        return self.r.choice(['', 'text', 'a b', 'é', '0', 'x#y/z'])

    def mimes(self, lo=0, hi=3):
        return self.r.sample(MIMES if self.r.random() < .6 else MIMES[:5] + FILES, self.r.randint(lo, hi))

    def shuffle(self, d):
        items = list(d.items())
        self.r.shuffle(items)
        return dict(items)

    # ---- schema and what looks like it
    def base(self, out, array):
        r = self.r
        t = r.choice(['string', 'integer', 'number', 'boolean', None]) if not array else 'array'
        if t:
            out['type'] = t
        opts = dict(format=['int32', 'date', 'byte', ''], default=[0, False, '', 'a', [], {}, 3.5, ['a', 0]], maximum=[0, 10, -1, 2.5],
                    exclusiveMaximum=[True, False], minimum=[0, -5, 1.5], exclusiveMinimum=[True, False], maxLength=[0, 3],
                    minLength=[0, 2], maxItems=[0, 7], minItems=[0, 1], multipleOf=[2, .5], enum=[['a', 'b'], [0], [False, None], []],
                    pattern=['^a$', ''], uniqueItems=[True, False])
        for k, v in opts.items():
            if r.random() < self.rich * .5:
                out[k] = r.choice(v)
        return out

    def items(self, depth):
        r = self.r
        arr = depth > 0 and r.random() < .3
        out = self.base({}, arr)
        if arr:
            out['items'] = self.items(depth - 1)
            if r.random() < .3:
                out['collectionFormat'] = r.choice(['csv', 'ssv', 'pipes', 'tsv'])
        return self.shuffle(out)

    def schema(self, depth=None, file=True):
        r = self.r
        depth = self.depth if depth is None else depth
        if r.random() < .25:
            out = {'$ref': Place('schema')}
            if self.maybe(.1):
                out['description'] = 'next to a reference'
            return out
        kind = r.choice(['prim', 'prim', 'object', 'object', 'array', 'allOf', 'free']) if depth > 0 else 'prim'
        if depth > 0 and self.maybe(.3):
            return self.mixed(depth, kind)
        out = self.base({}, kind == 'array')
        if kind in ('object', 'allOf', 'free'):
            out.pop('type', None)
        if kind == 'object':
            out['type'] = 'object'
            if self.maybe(.8):
                out['properties'] = {k: self.schema(depth - 1, False) for k in self.keys(0, 3)}
                if self.maybe():
                    out['required'] = r.sample(sorted(out['properties']) + ['zz'], r.randint(0, len(out['properties'])))
            if self.maybe():
                out['additionalProperties'] = self.schema(depth - 1, False) if r.random() > self.bools else \
                    r.choice([True, False])
            if self.maybe(.15):
                out['discriminator'] = r.choice(['kind', 'a b'])
        elif kind == 'array':
            out['items'] = self.schema(depth - 1, False)
        elif kind == 'allOf':
            out['allOf'] = [self.schema(depth - 1, False) for _ in range(r.choice([0, 1, 2, 2, 3, 11 if self.maybe(.1) else 1]))]
        elif file and kind == 'prim' and r.random() < .06:
            return {'type': 'file'}
        return self.plain(out)

    def mixed(self, depth, kind):
        """keywords of all kinds next to each other"""
        r = self.r
        out = self.base({}, kind == 'array')
        if self.maybe(.3):
            out['type'] = 'object'
        if self.maybe(.5):
            out['allOf'] = [self.schema(depth - 1, False) for _ in range(r.choice([1, 2]))]
        if self.maybe(.5):
            out['properties'] = {k: self.schema(depth - 1, False) for k in self.keys(0, 2)}
        if self.maybe(.4):
            out['required'] = r.sample(['a', 'b', 'zz'], r.randint(0, 3))
        if self.maybe(.5):
            out['additionalProperties'] = self.schema(depth - 1, False) if r.random() > self.bools else \
                r.choice([True, False])
        if kind == 'array' or self.maybe(.3):
            out['items'] = self.schema(depth - 1, False)
        if self.maybe(.2):
            out['discriminator'] = r.choice(['kind', 'a b'])
        return self.plain(out)

    def plain(self, out):
        r = self.r
        for k, v in dict(title=['', 't'], description=['', 'text'], maxProperties=[0, 3], minProperties=[0, 1],
                         readOnly=[True, False], example=[0, '', {}, {'a': [False]}, [], 'x']).items():
            if r.random() < self.rich * .5:
                out[k] = r.choice(v)
        if self.maybe(.15):
            out['xml'] = {k: v for k, v in dict(name='n', namespace='', prefix='p', attribute=False, wrapped=True).items() if self.maybe(.5)}
        if self.maybe(.15):
            out['externalDocs'] = self.xdocs()
        if self.maybe(.05):
            out['x-ext'] = 1
        return self.shuffle(out)

    def xdocs(self):
        out = {'url': 'http://d'}
        if self.maybe(.5):
            out['description'] = self.text()
        return out

    # ---- parameters
    def param(self, kind, name):
        r = self.r
        out = {'name': name, 'in': kind}
        if kind == 'path' or self.maybe():
            out['required'] = True if kind == 'path' else r.choice([True, False])
        if self.maybe():
            out['description'] = self.text()
        if kind == 'body':
            if not self.maybe(.05):
                out['schema'] = self.schema(2, file=True)
            return self.shuffle(out)
        if kind == 'file':
            out.update({'in': 'formData', 'type': 'file'})
            return self.shuffle(out)
        arr = self.maybe(.35)
        self.base(out, arr)
        if arr:
            out['items'] = self.items(2)
            if self.maybe(.7):
                out['collectionFormat'] = {'query': r.choice(['csv', 'ssv', 'pipes', 'multi', 'multi']),
                                           'formData': r.choice(['csv', 'multi'])}.get(kind, 'csv')
        if self.maybe(self.bad):
            out['collectionFormat'] = r.choice(['ssv', 'pipes', 'csv', 'multi'])
        if kind in ('query', 'formData') and self.maybe():
            out['allowEmptyValue'] = r.choice([True, False])
        return self.shuffle(out)

    def paramlist(self, have_body, used, n=None):
        """have_body: None, 'body' or 'form': what is already taken by the path item"""
        r = self.r
        out, body = [], have_body
        for _ in range(r.randint(0, self.nparam) if n is None else n):
            kinds = ['query', 'header', 'path', 'query']
            if body is None:
                kinds += ['body', 'formData', 'file'] * 2
            elif body == 'form':
                kinds += ['formData', 'file'] * 3
            elif self.maybe(self.bad):
                kinds += ['body']
            kind = r.choice(kinds)
            if r.random() < self.pref:
                kind2 = {'body': 'body', 'formData': 'form', 'file': 'form'}.get(kind, 'plain')
                cands = [(n_, k, nm) for n_, (k, nm) in self.params.items() if k == kind2 and (nm not in used or self.maybe(self.bad))]
                if cands:
                    n_, k, nm = r.choice(cands)
                    out.append({'$ref': '#' + jp_compose(['', 'parameters', n_])})
                    used.add(nm)
                    if k != 'plain':
                        body = k
                    continue
                if self.extparams and r.random() < .7:
                    cands = [(n_, u, k, nm) for (n_, u), (k, nm) in self.extparams.items() if k == kind2 and nm not in used]
                    if cands:
                        n_, u, k, nm = r.choice(cands)
                        out.append({'$ref': self.rel(u, self.root) + jp_compose(['#', 'parameters', n_])})
                        used.add(nm)
                        if k != 'plain':
                            body = k
                        continue
            nm = r.choice(['limit', 'id', 'a', 'b', 'q', 'file', 'x y', 'é', 'tag', 'body', 'n/m'] + ['n%d' % i for i in range(2 * max(0, self.nparam - 6))])
            if nm in used and not self.maybe(self.bad):
                continue
            used.add(nm)
            out.append(self.param(kind, nm))
            if kind == 'body':
                body = 'body'
            elif kind in ('formData', 'file'):
                body = 'form'
        return out, body

    # ---- responses, operations, paths
    def header(self):
        out = self.base({}, self.maybe(.3))
        if out.get('type') == 'array':
            out['items'] = self.items(1)
            if self.maybe():
                out['collectionFormat'] = 'csv'
        if self.maybe(self.bad):
            out['collectionFormat'] = 'pipes'
        if self.maybe():
            out['description'] = self.text()
        return out

    def response(self):
        out = {'description': self.text()}
        if self.maybe(.6):
            out['schema'] = self.schema(2)
        if self.maybe():
            out['headers'] = {k: self.header() for k in self.keys(0, 2)}
        if self.maybe(.15):
            out['examples'] = {'application/json': {'a': 1}}
        return self.shuffle(out)

    def security(self):
        r = self.r
        return [{k: r.sample(['s1', 's2', 'a:b'], r.randint(0, 2)) for k in self.keys(0, 2)} for _ in range(r.randint(0, 2))]

    def operation(self, shared, used):
        r = self.r
        out = {}
        for k, v in dict(summary=['', 's'], description=['', 'd'], operationId=['op', ''], deprecated=[True, False]).items():
            if self.maybe():
                out[k] = r.choice(v)
        for k in ('consumes', 'produces'):
            if self.maybe(.5):
                out[k] = self.mimes()
        if self.maybe(.85):
            ps, _ = self.paramlist(shared, set(used))
            out['parameters'] = ps
        if self.maybe(.8):
            out['responses'] = {}
            for c in r.sample(['200', '404', 'default', '500', '201'], r.choice([0, 1, 1, 2, 3, 5])):
                x = r.random()
                if x < .2 and self.resps:
                    out['responses'][c] = {'$ref': '#' + jp_compose(['', 'responses', r.choice(self.resps)])}
                elif x < .3 and self.extresps:
                    n_, u = r.choice(self.extresps)
                    out['responses'][c] = {'$ref': self.rel(u, self.root) + jp_compose(['#', 'responses', n_])}
                else:
                    out['responses'][c] = self.response()
        if self.maybe():
            out['tags'] = r.sample(['t1', 't2', ''], r.randint(0, 3))
        if self.maybe():
            out['security'] = self.security()
        if self.maybe(.15):
            out['externalDocs'] = self.xdocs()
        if self.maybe(.2):
            out['schemes'] = r.sample(['http', 'https', 'ws', 'wss'], r.randint(0, 3))
        return self.shuffle(out)

    def pathitem(self):
        r = self.r
        out, shared, used = {}, None, set()
        if self.maybe(.5):
            ps, shared = self.paramlist(None, used)
            out['parameters'] = ps
        for m in r.sample(METHODS, r.choice([0, 1, 1, 2, 3])):
            out[m] = self.operation(shared, used if not self.maybe(self.bad) else set())
        if r.random() < self.pathref:
            out['$ref'] = Place('path')
        return self.shuffle(out)

    # ---- whole
    def rel(self, target, base):
        """some way to write an address in document base"""
        r = self.r
        x = r.random()
        if target == base and x < .8:
            return ''
        if x < .25 or target.split('/')[:3] != base.split('/')[:3]:
            return target
        pt, pb = '/' + target.split('/', 3)[3], '/' + base.split('/', 3)[3]
        if x < .4:
            return pt
        p = posixpath.relpath(pt, posixpath.dirname(pb))
        return p if x < .7 or p.startswith('..') else './' + p

    def build(self):
        r = self.r
        self.extparams, self.extresps = {}, []
        for u in self.exturls:
            d = {}
            if self.maybe(.8):
                d['models'] = {k: self.schema() for k in self.keys(1, 3)}
            else:
                d.update({k: self.schema(2) for k in self.keys(1, 2) if k not in ('items', 'models', 'parameters', 'responses')})
            self.resps, self.params = [], {}
            if self.maybe(.5):
                d['parameters'] = {}
                for k in self.keys(1, 3):
                    kind = r.choice(['body', 'formData', 'file', 'query', 'header'])
                    nm = 'x%d' % len(self.extparams)
                    d['parameters'][k] = self.param(kind, nm)
                    self.extparams[(k, u)] = ({'body': 'body', 'formData': 'form', 'file': 'form'}.get(kind, 'plain'), nm)
            if self.maybe(.4):
                d['responses'] = {}
                for k in self.keys(1, 2):
                    d['responses'][k] = self.response()
                    self.extresps.append((k, u))
            if self.maybe(.5 if self.pathref else 0):
                save = self.extparams, self.extresps, self.pref
                self.extparams, self.extresps, self.pref = {}, [], 0
                d['items'] = {k: self.pathitem() for k in self.keys(1, 2)}
                self.extparams, self.extresps, self.pref = save
            self.docs[u] = d
        d = {'swagger': '2.0'}
        if self.maybe(.9):
            d['info'] = {'title': self.text(), 'version': '1'}
            for k in ('description', 'termsOfService'):
                if self.maybe():
                    d['info'][k] = self.text()
            if self.maybe():
                d['info']['contact'] = {k: self.text() for k in ('name', 'url', 'email') if self.maybe(.5)}
            if self.maybe():
                d['info']['license'] = {k: self.text() for k in ('name', 'url') if k == 'name' or self.maybe(.5)}
        if self.maybe(.6):
            d['host'] = r.choice(['api.h', 'api.h:8080', 'localhost'])
        if self.maybe(.6):
            d['basePath'] = r.choice(['/', '/v1', '/a/b', 'v2', ''])
        if self.maybe(.5):
            d['schemes'] = r.sample(['http', 'https', 'ws'], r.randint(0, 2))
        for k in ('consumes', 'produces'):
            if self.maybe(.4):
                d[k] = self.mimes()
        if self.maybe(.9):
            d['definitions'] = {k: self.schema() for k in self.keys(0, 5)}
        self.params, self.resps = {}, []
        if self.maybe(.7):
            d['parameters'] = {}
            for k in self.keys(0, 6) + ['q%d' % i for i in range(self.nparam if self.nparam > 6 else 0)]:
                kind = r.choice(['query', 'header', 'path', 'body', 'formData', 'file'] if k else ['query', 'header'])
                nm = r.choice(['limit', 'id', 'p1', 'p2', 'p3', 'x y']) if k[:1] != 'q' else k
                d['parameters'][k] = self.param(kind, nm)
                self.params[k] = ({'body': 'body', 'formData': 'form', 'file': 'form'}.get(kind, 'plain'), nm)
        if self.maybe(.6):
            d['responses'] = {k: self.response() for k in self.keys(0, 3)}
            self.resps = sorted(d['responses'])
        if self.maybe(.95):
            d['paths'] = {}
            for i in range(r.randint(0, self.npaths)):
                d['paths'][r.choice(['/', '/a', '/a/{id}', '/a/{id}/b~c', '/é', '/x y', '/b', 'c', '//', '/~', '~1/a', '/m~0n'])] = self.pathitem()
            if self.maybe(self.bad * .3):
                d['paths']['x-ext'] = {}
        if self.maybe():
            d['security'] = self.security()
        if self.maybe():
            d['tags'] = []
            for _ in range(r.randint(0, 2)):
                t = {'name': self.text()}
                if self.maybe():
                    t['description'] = self.text()
                if self.maybe():
                    t['externalDocs'] = self.xdocs()
                d['tags'].append(t)
        if self.maybe():
            d['externalDocs'] = self.xdocs()
        if self.maybe(.5):
            d['securityDefinitions'] = {k: self.scheme() for k in self.keys(0, 4)}
        self.docs[self.root] = self.shuffle(d)
        self.place()
        return self.docs

    def scheme(self):
        r = self.r
        out = {}
        if self.maybe():
            out['description'] = self.text()
        t = r.choice(['basic', 'apiKey', 'oauth2'])
        out['type'] = t
        if t == 'apiKey':
            out['name'], out['in'] = self.text(), r.choice(['header', 'query'])
        elif t == 'oauth2':
            f = r.choice(['implicit', 'password', 'application', 'accessCode'])
            if not self.maybe(self.bad):
                out['flow'] = f
            if f in ('implicit', 'accessCode'):
                out['authorizationUrl'] = 'http://a'
            if f != 'implicit':
                out['tokenUrl'] = 'http://t'
            if self.maybe(.8):
                out['scopes'] = {k: self.text() for k in self.keys(0, 2)}
        return out

    # ---- references
    def positions(self):
        """(address, names, kind) of everything a reference may designate"""
        out = []

        def sch(x, u, at):
            if not isinstance(x, dict):
                return
            out.append((u, at, 'schema', isinstance(x.get('$ref'), Place)))
            if '$ref' in x:
                return
            for k in ('items', 'additionalProperties'):
                if isinstance(x.get(k), dict):
                    sch(x[k], u, at + [k])
            for i, y in enumerate(x.get('allOf') or []):
                sch(y, u, at + ['allOf', str(i)])
            for k, y in (x.get('properties') or {}).items():
                sch(y, u, at + ['properties', k])
        for u, d in self.docs.items():
            if u == self.root:
                for k, x in (d.get('definitions') or {}).items():
                    sch(x, u, ['definitions', k])
                for k in d.get('paths') or {}:
                    out.append((u, ['paths', k], 'path', False))
            else:
                for k, x in d.items():
                    if k == 'models':
                        for k2, x2 in x.items():
                            sch(x2, u, [k, k2])
                    elif k == 'items':
                        for k2 in x:
                            out.append((u, [k, k2], 'path', False))
                    elif k not in ('parameters', 'responses'):
                        sch(x, u, [k])
        return out

    def place(self):
        pos = self.positions()
        order = {(u, tuple(at)): i for i, (u, at, _, _) in enumerate(pos)}

        def rec(x, u, at, owner):
            if isinstance(x, dict):
                p = x.get('$ref')
                if isinstance(p, Place):
                    c = [q for q in pos if q[2] == p.kind]
                    me = order.get((u, tuple(at)))
                    if not self.cyc or p.kind == 'schema' and not self.loops:
                        # chains of references end
                        c = [q for q in c if not q[3] or (me is not None and order[(q[0], tuple(q[1]))] > me)]
                    if c and self.lost and self.r.random() < self.lost:
                        t = self.r.choice(c)
                        x['$ref'] = self.rel(t[0], u) + jp_compose(list(t[1]) + ['nowhere'] if self.maybe(.5) else ['gone'], base='#')
                    elif not c:
                        del x['$ref']
                        x.pop('description', None)
                        if p.kind == 'schema':
                            x['type'] = 'string'
                    else:
                        t = self.r.choice(c)
                        x['$ref'] = self.rel(t[0], u) + jp_compose(list(t[1]), base='#')
                for k, y in x.items():
                    rec(y, u, at + [k], owner)
            elif isinstance(x, list):
                for i, y in enumerate(x):
                    rec(y, u, at + [str(i)], owner)
        for u, d in self.docs.items():
            rec(d, u, [], None)


# ---------------------------------------------------------------- what is in an upgraded tree
KEEP = ('security', 'scopes')


def snap(v, obj):
    """an object tree as document, read by attribute"""
    from .docs import grammar, is_list, is_map, is_obj
    if is_obj(obj):
        cls = type(obj).__name__
        g = grammar()[v].get(cls)
        if g is None:
            return {'?': cls}
        out = {}
        for f in g['f']:
            if f in g['restr']:
                continue
            x = getattr(obj, f)
            if x is None:
                continue
            if f in (g['dflt'] or {}) and not obj.is_set(f):
                continue
            out[f] = x
        for c in g['c']:
            x = getattr(obj, c)
            if x is None or (is_list(x) or is_map(x)) and len(x) == 0 and c not in KEEP:
                continue
            out[c] = snap(v, x)
        if v == '3.0.0':
            mean(cls, out)
        return out
    if is_list(obj):
        return [snap(v, x) for x in obj]
    if is_map(obj):
        return {k: snap(v, obj[k]) for k in obj.keys()}
    return obj


def mean(cls, out):
    """leave out what an absent field means anyway"""
    if cls in ('Parameter', 'Header', 'Encoding'):
        in_ = out.get('in', 'header' if cls == 'Header' else 'query' if cls == 'Encoding' else None)
        dflt = 'form' if in_ in ('query', 'cookie') else 'simple'
        style = out.get('style', dflt)
        if cls != 'Encoding' and (out.get('schema') or {}).get('type') != 'array':
            out.pop('style', None)
            out.pop('explode', None)
        if out.get('style') == dflt:
            out.pop('style')
        if out.get('explode') is (style == 'form'):
            out.pop('explode')
    if cls == 'RequestBody' and out.get('required') is False:
        out.pop('required')

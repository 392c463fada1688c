"""random 1.2 descriptions: a resource listing and its resources"""
TYPES = ['integer', 'number', 'string', 'boolean']


class Gen12(object):
    def __init__(self, r, root='http://h/api/resource_list.json', bad=0., rich=.35, nres=3):
        self.r, self.root, self.bad, self.rich, self.nres = r, root, bad, rich, nres
        self.docs, self.same = {}, {}

    def maybe(self, p=None):
        return self.r.random() < (self.rich if p is None else p)

    def shuffle(self, d):
        items = list(d.items())
        self.r.shuffle(items)
        return dict(items)

    def text(self):
        return self.r.choice(['text', 'a b', 'é', '0', ''])

    def limits(self, out):
        r = self.r
        if out.get('type') in ('integer', 'number') or self.maybe(self.bad * .3):
            for k in ('minimum', 'maximum'):
                if self.maybe():
                    out[k] = r.choice(['0', '1', '1.0', '-3', '10', '2.5', '-0.5', '', 0, 5, '0.0', '100.25'])

    def data(self, out, ref=True, arr=True):
        """type of something"""
        r = self.r
        x = r.random()
        if ref and self.models and x < .35:
            m = r.choice(self.models)
            if self.maybe(self.bad * .3):
                m = 'Nowhere'
            if r.random() < .5:
                out['$ref'] = m
            else:
                out['type'] = m
            if self.maybe(.1):
                out['defaultValue'] = 'x'
        elif arr and x < .6:
            out['type'] = 'array'
            it = {}
            if ref and self.models and self.maybe(.5):
                it['$ref' if self.maybe(.6) else 'type'] = r.choice(self.models)
            else:
                it['type'] = r.choice(TYPES)
                if self.maybe():
                    it['format'] = r.choice(['int32', 'date', 'byte'])
            out['items'] = it
            if self.maybe():
                out['uniqueItems'] = r.choice([True, False])
            if self.maybe(.2):
                out['defaultValue'] = ['a']
        else:
            out['type'] = r.choice(TYPES)
            if self.maybe():
                out['format'] = r.choice(['int32', 'int64', 'float', 'date', ''])
            if self.maybe():
                out['defaultValue'] = r.choice([0, False, '', 'a', '0', 3])
            if self.maybe(.2):
                out['enum'] = r.choice([['a', 'b'], [], ['0']])
            if self.maybe(.1):
                out['uniqueItems'] = False
        self.limits(out)

    def param(self, name):
        r = self.r
        kind = r.choice(['path', 'query', 'query', 'header', 'form', 'form', 'body'])
        out = {'paramType': kind, 'name': name}
        if self.maybe():
            out['required'] = r.choice([True, False])
        if self.maybe():
            out['description'] = self.text()
        if kind == 'body':
            self.data(out)
        elif kind == 'form' and self.maybe(.3):
            out['type'] = 'File'
        else:
            x = r.random()
            if x < .35:
                out['allowMultiple'] = r.choice([True, True, False])
                out['type'] = r.choice(TYPES)
                if self.maybe():
                    out['format'] = 'int32'
                if self.maybe():
                    out['defaultValue'] = r.choice(['a', '', 0])
                if self.maybe():
                    out['enum'] = ['a', 'b']
                if self.maybe():
                    out['uniqueItems'] = r.choice([True, False])
                self.limits(out)
            else:
                self.data(out, ref=self.maybe(self.bad), arr=False)
                if self.maybe(.25) and '$ref' not in out and 'minimum' not in out and 'maximum' not in out:
                    out.pop('format', None)
                    out['type'] = 'array'
                    out['items'] = {'type': r.choice(TYPES)}
                    if self.maybe():
                        out['items']['format'] = 'int64'
                    if self.maybe():
                        out['uniqueItems'] = r.choice([True, False])
                    if self.maybe(.2):
                        out['allowMultiple'] = True
        return self.shuffle(out)

    def auths(self):
        r = self.r
        out = {}
        for k in r.sample(['basic', 'key', 'oauth2', 'a/b'], r.randint(0, 2)):
            out[k] = [{'scope': s} if self.maybe(.5) else {'scope': s, 'description': self.text()}
                      for s in r.sample(['read', 'write', 'a:b'], r.randint(0, 2))]
        return out

    def operation(self, method):
        r = self.r
        out = {'method': method, 'nickname': r.choice(['op', 'get-it', 'a b', ''])}
        for k in ('summary', 'notes'):
            if self.maybe():
                out[k] = self.text()
        if self.maybe():
            out['deprecated'] = r.choice(['true', 'false'])
        for k in ('consumes', 'produces'):
            if self.maybe(.4):
                out[k] = r.sample(['application/json', 'text/plain', 'multipart/form-data', 'image/png'], r.randint(0, 2))
        if self.maybe(.8):
            out['parameters'] = []
            have = None
            for n in r.sample(['id', 'limit', 'body', 'x y', 'file', 'é'], r.randint(0, 4)):
                p = self.param(n)
                kind = {'body': 'body', 'form': 'form'}.get(p['paramType'])
                if kind and have and (have == 'body' or kind != have):
                    continue
                have = have or kind
                out['parameters'].append(p)
        if self.maybe():
            out['authorizations'] = self.auths()
        if self.maybe():
            out['responseMessages'] = [{'code': 404, 'message': 'no'}]
        if self.maybe(.25):
            out['type'] = 'void'
        else:
            self.data(out)
        return self.shuffle(out)

    def resource(self, path, base):
        r = self.r
        out = {'swaggerVersion': '1.2', 'basePath': base}
        for k, v in dict(apiVersion='1', description='d').items():
            if self.maybe():
                out[k] = v
        if self.maybe(.85):
            out['resourcePath'] = self.same.get(path, path)
        for k in ('consumes', 'produces'):
            if self.maybe(.3):
                out[k] = r.sample(['application/json', 'application/xml', 'application/x-www-form-urlencoded'], r.randint(0, 2))
        if self.maybe():
            out['authorizations'] = self.auths()
        names = ['Pet', 'Pets', 'User', 'Tag', 'a b', 'a/b', 'm~n', 'é']
        if path in self.same or path in self.same.values():
            # their models are told apart by name
            names = self.spare.pop()
        names = r.sample(names, min(len(names), r.choice([0, 1, 2, 3, 4])))
        self.models = names
        out['apis'] = []
        for i in range(r.randint(0, 3)):
            p = '%s/%s' % (path, r.choice(['a', '{id}', 'b/{x}', 'é', ''])) if self.maybe(.7) else '/shared'
            a = {'path': p, 'operations': [self.operation(m) for m in r.sample(
                ['GET', 'PUT', 'POST', 'DELETE', 'HEAD', 'OPTIONS', 'PATCH', 'get'], r.randint(0, 3))]}
            if self.maybe(.1):
                del a['operations']
            out['apis'].append(a)
        if names or self.maybe(.3):
            out['models'] = {}
            for m in names:
                x = {'id': m, 'properties': {}}
                for n in r.sample(['id', 'name', 'a/b', 'é', 'type'], r.randint(0, 3)):
                    q = {}
                    self.data(q)
                    if self.maybe():
                        q['description'] = self.text()
                    x['properties'][n] = self.shuffle(q)
                if self.maybe():
                    x['required'] = r.sample(['id', 'name'], r.randint(0, 2))
                if self.maybe():
                    x['description'] = self.text()
                if self.maybe():
                    x['subTypes'] = r.sample([q for q in names if q != m] + (['Only'] if self.maybe(.2) else []), 0 if len(names) < 2 else 1)
                    if self.maybe(.7):
                        x['discriminator'] = 'kind'
                out['models'][m] = self.shuffle(x)
        return self.shuffle(out)

    def scheme(self):
        r = self.r
        t = r.choice(['basicAuth', 'apiKey', 'oauth2', 'oauth2'])
        out = {'type': t}
        if t == 'apiKey':
            out['passAs'], out['keyname'] = r.choice(['header', 'query']), 'k'
        if t == 'oauth2':
            g = {}
            if self.maybe(.6):
                g['implicit'] = {'loginEndpoint': {'url': 'http://l'}, 'tokenName': 't'}
            if self.maybe(.6):
                g['authorization_code'] = {'tokenRequestEndpoint': {'url': 'http://q', 'clientIdName': 'i'}, 'tokenEndpoint': {'url': 'http://t'}}
            if not g:
                g['implicit'] = {'loginEndpoint': {'url': 'http://l'}}
            out['grantTypes'] = g
            if self.maybe(.8):
                out['scopes'] = [{'scope': s, 'description': self.text()} for s in r.sample(['read', 'write', 'a:b'], r.randint(0, 2))]
        return out

    def build(self):
        r = self.r
        base = r.choice(['http://h/api', 'http://h/api', 'http://h:8080', 'https://h/', '/rel', 'http://x.y/v1'])
        d = {'swaggerVersion': '1.2'}
        if self.maybe(.7):
            d['apiVersion'] = '1.0'
        paths = r.sample(['/pet', '/user', '/store', '/pets', '/a/b', '/é'], r.randint(0, self.nres))
        d['apis'] = []
        folder = self.root.rsplit('/', 1)[0]
        if len(paths) > 1 and self.maybe(.3):
            # both are about the same
            self.same = dict(zip(paths[1:], paths[:1]))
            self.spare = [['Pet', 'User', 'a b'], ['Pets', 'Tag', 'a/b', 'é']]
        for p in paths:
            d['apis'].append({'path': p})
            if self.maybe():
                d['apis'][-1]['description'] = 'about'
            b = 'http://other/api' if self.maybe(self.bad * .5) else base
            if not self.maybe(self.bad * .1):
                self.docs[folder + p] = self.resource(p, b)
        if self.maybe(.7):
            d['info'] = {'title': 'T', 'description': 'D'}
            for k in ('termsOfServiceUrl', 'contact', 'license', 'licenseUrl'):
                if self.maybe():
                    d['info'][k] = self.text()
        if self.maybe(.7):
            d['authorizations'] = {k: self.scheme() for k in r.sample(['basic', 'key', 'oauth2', 'a/b', 'm~n'], r.randint(0, 3))}
        self.docs[self.root] = self.shuffle(d)
        return self.docs

"""C13: fetching documents"""
import copy
import http.server
import json
import os
import shutil
import tempfile
import threading
import urllib.parse

from pyopenapi.migration.getter import DictGetter, LocalGetter, SimpleGetter
from pyopenapi.migration.resolve import Resolver
from pyopenapi.utils import jp_compose
from vlib.docs import module
from vlib.enc import dec, enc
from vlib.gen12 import Gen12
from vlib.gen20 import Gen20
from vlib.gen30 import Gen30
from vlib.world import App, World

NOTE = 'all histories of requests and changes over two addresses and all layouts of files around a folder are enumerated by TLC and replayed; random histories and loads with failing documents are trace-checked'
H = '''INIT Init
NEXT Next
CONSTANTS
 Depth = %d
 Hook12 = %s
INVARIANTS Once Copy Surface Emit
'''
F = '''INIT Init
NEXT Next
CONSTANTS
 Rich = FALSE
INVARIANTS Own Before Found Emit
'''
FILES = ['a.json', 'b.yaml', 'c.yml', 'd/swagger.json', 'd/resource_list.json', 'd/swagger.yml', 'd/y.json', 'd x/é.json',
         'd x/swagger.yaml', 'my-swagger.json', '100%.json', 'b%20c.json']
BADTEXT = ['', '{}', '{', '[]', '{"a": }', 'a: [', 'null', '{"a": 1', b'\xff\xfe{', None, 7, 'a: b: c']


class Source(object):
    """addresses with what they bring; every fetch is noted"""

    def __init__(self):
        self.w, self.log = {}, []

    def getter(self, name):
        src = self

        class G(SimpleGetter):
            __simple_getter_callback__ = lambda url: src.bring(name, url)  # noqa
        return G

    def bring(self, name, url):
        self.log.append([name, url])
        c = self.w.get(url)
        if c is None or isinstance(c, IOError):
            raise c or IOError('nothing at ' + url)
        return c[0]


def text(r, v):
    """a document in one of its forms"""
    import yaml
    k = r.randrange(5)
    if k == 0:
        return json.dumps(v)
    if k == 1:
        return json.dumps(v, indent=1, ensure_ascii=False).encode('utf-8')
    if k == 2 and isinstance(v, dict):
        return copy.deepcopy(v)
    if k == 3:
        return yaml.safe_dump(v, allow_unicode=True)
    return json.dumps(v)


def content(r):
    if r.random() < .25:
        b = r.choice(BADTEXT)
        return (b,), ['bad']
    v = r.choice([{'a': {'b': [1, {'c~/d': 'x'}]}, 'é': ''}, {'a': 0, 'b': None}, [{'a': 1}, 'b'], {'swagger': '2.0', 'a': []}])
    v = copy.deepcopy(v)
    if isinstance(v, dict):
        v['n'] = r.randint(0, 99)
    return (text(r, v),), ['v', enc(v)]


def histories(chk):
    for hook in (False, True):
        for h in chk.model('MC_Fetch', H % (chk.n(4, 5), 'TRUE' if hook else 'FALSE'), timeout=800)['H']:
            s = Source()
            res = Resolver(url_load_hook=(lambda u: u.replace('a.json', 'b.json')) if hook else None, default_getter=s.getter('default'))
            ok, got = True, None
            for x in h:
                if x['op'] == 'put':
                    s.w[x['u']] = (json.dumps(dec(x['c'][1])),) if x['c'][0] == 'v' else None
                    continue
                s.log = []
                got = chk.call(lambda: res.resolve(x['u'] + jp_compose(x['n'] or [], base='#')), 5)
                got = ['ok', enc(got[1])] if got[0] == 'ok' else ['err']
                want = ['ok', enc(dec(x['out'][1]))] if x['out'][0] == 'ok' else ['err']
                if got != want or s.log != [list(y) for y in x['log'] or []]:
                    ok = False
                    break
            chk.expect(ok, 'history', h=h, hook=hook, got=got, log=s.log)


def scratch(fn):
    def run(chk):
        at, old = tempfile.mkdtemp(prefix='verif_c13_'), os.getcwd()
        at = os.path.realpath(at)
        try:
            os.chdir(at)
            fn(chk, at)
        finally:
            os.chdir(old)
            shutil.rmtree(at, ignore_errors=True)
    return run


def put(path, data):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, 'wb') as f:
        f.write(data if isinstance(data, bytes) else data.encode('utf-8'))


WELL = ['d/resource_list.json', 'd/swagger.json', 'd/swagger.yaml', 'd/swagger.yml', 'd.json', 'd.yaml', 'd/x.json']


@scratch
def layouts(chk, at):
    every = chk.model('MC_Files', F, workers=4)['F']
    if chk.quick:
        every = chk.rng.sample(every, 300)
    for n, x in enumerate(every):
        d = os.path.join(at, str(n))
        os.makedirs(os.path.join(d, 'd'))
        for p in x['there'] or []:
            put(os.path.join(d, p), json.dumps({'me': p}) if chk.rng.random() < .5 else 'me: ' + p + '\n')
        for p in WELL:
            # folders may have any name, too
            if chk.rng.random() < .25 and not os.path.exists(os.path.join(d, p)):
                os.makedirs(os.path.join(d, p))
        for p, want in x['pick']:
            for how in range(3):
                full = os.path.join(d, p)
                ref = [full, 'file://' + urllib.parse.quote(full), os.path.relpath(full) + ('/' if p.endswith('/') else '')][how]
                got = chk.call(lambda: Resolver().resolve(ref + '#/me'), 5)
                exp = want
                if how != 1 and p.endswith('/'):
                    # a local path is normalised when it becomes an address
                    exp = [w for q, w in x['pick'] if q == p[:-1]][0]
                chk.expect(got[1:] == [exp] if exp else got[0] == 'err', 'layout', there=x['there'], ask=ref, got=got, spec=exp)
        shutil.rmtree(d)


@scratch
def random_requests(chk, at):
    r = chk.rng
    traces = []
    urls = ['http://h/a.json', 'http://h/b', 'http://k:81/a.json?x=1', 'https://h/é/c.yaml']
    for i in range(chk.n(250, 2500)):
        home = os.path.join(at, str(i))
        os.makedirs(home)
        os.chdir(home)
        s = Source()
        hook = {}
        for u in urls:
            if r.random() < .35:
                hook[u] = r.choice(urls + ['file://' + urllib.parse.quote(os.path.join(home, r.choice(['d', 'a.json', 'd x/é'])))])
        res = Resolver(url_load_hook=(lambda u: hook.get(u, u)) if hook or r.random() < .5 else None, default_getter=s.getter('default'))
        klass = s.getter('class')
        ev, queue = [], None
        for u in urls:
            c, t = content(r)
            s.w[u] = c
            ev.append(dict(op='put', at=u, c=t))
        for p in FILES:
            if r.random() < .6:
                c, t = content(r)
                if isinstance(c[0], (str, bytes)):
                    put(os.path.join(home, p), c[0])
                    ev.append(dict(op='file', at=p, c=t))
        for _ in range(r.randint(4, 22)):
            k = r.random()
            if k < .3:
                u = r.choice(urls)
                c, t = content(r)
                if r.random() < .2:
                    c, t = r.choice([None, IOError('x'), IOError('y')]), ['bad']
                s.w[u] = c
                ev.append(dict(op='put', at=u, c=t))
            elif k < .5:
                p = r.choice(FILES)
                if os.path.exists(p) and r.random() < .3:
                    os.remove(p)
                    ev.append(dict(op='unfile', at=p))
                    continue
                c, t = content(r)
                if isinstance(c[0], (dict, int)) or c[0] is None:
                    c = (json.dumps(c[0]),) if isinstance(c[0], dict) else ('',)
                if r.random() < .3 and isinstance(c[0], str) and t[0] == 'v':
                    c = ('\n' + c[0],)
                put(os.path.join(home, p), c[0])
                ev.append(dict(op='file', at=p, c=t))
            elif k < .55:
                keys = r.sample(['k1', 'k2', 'k3'], r.randint(1, 3))
                d, td = {}, {}
                for q in keys:
                    if r.random() < .8:
                        c, t = content(r)
                        d[q] = c[0]
                        td[q] = t
                queue = DictGetter(list(keys), d)
                ev.append(dict(op='queue', q=keys, d=td))
            else:
                k = r.random()
                if k < .6:
                    u = r.choice(urls)
                else:
                    p = r.choice(['a.json', 'a', 'b', 'c', 'c.yml', 'd', 'd/', 'd/swagger.json', 'd/y', 'd/swagger.yml', 'd x', 'd x/é', 'd/../a.json',
                                  'my-swagger.json', '100%', '100%.json', 'b%20c', './d', 'nothing'])
                    full = os.path.join(home, p)
                    u = r.choice([p, full, 'file://' + urllib.parse.quote(os.path.normpath(full))])
                ref = u + r.choice(['', '', '', '#', '#', '#/n', '#/n', '#/a', '#/a', '#/a/b', '#/a/b/1', '#/a/b/1/c~0~1d', '#/0', '#/0/a', '#/n', '#/é', '#/b', '#/a/b/7', '#/nope', '#/a/'])
                via = r.choice(['default'] * 6 + ['class', 'queue'])
                if via == 'queue' and queue is None or 'file:' in u and via == 'class':
                    via = 'default'
                s.log = []
                g = dict(default=None, queue=queue)
                g['class'] = klass
                got = chk.call(lambda: res.resolve(ref, g[via]) if via != 'default' or r.random() < .5 else res.resolve(ref), 5)
                ev.append(dict(op='get', ref=ref, via=via, out=['ok', enc(got[1])] if got[0] == 'ok' else ['err'] if got[0] == 'err' else got,
                               log=s.log))
        traces.append(dict(name='history/%d' % i, cwd=home, hook=hook, ev=ev))
        os.chdir(at)
        shutil.rmtree(home)
    chk.validate('Trace_Fetch', traces, chunk=250)


ROOTS = {'1.2': 'http://h/api/resource_list.json', '2.0': 'http://h/v1/swagger.json', '3.0.0': 'http://h/v1/openapi.json'}
BAD = [None, '', '{}', '{"a": ', 'a: [', IOError('x')]


class Serve(object):
    """documents of a world, offered by a server of this machine"""

    def __init__(self):
        outer, self.world = self, None
        os.environ['no_proxy'] = '*'

        class H(http.server.BaseHTTPRequestHandler):
            def do_GET(self):
                try:
                    t = outer.world.text(urllib.parse.unquote(self.path[1:]))
                except IOError:
                    self.send_error(404)
                    return
                t = t if isinstance(t, bytes) else t.encode('utf-8')
                self.send_response(200)
                self.send_header('Content-Length', str(len(t)))
                self.end_headers()
                self.wfile.write(t)

            def log_message(self, *a):
                pass
        self.server = http.server.HTTPServer(('127.0.0.1', 0), H)
        t = threading.Thread(target=self.server.serve_forever)
        t.daemon = True
        t.start()

    def at(self, url):
        return 'http://127.0.0.1:%d/%s' % (self.server.server_port, urllib.parse.quote(url, safe=''))

    def close(self):
        self.server.shutdown()
        self.server.server_close()


def loads(chk):
    serve = Serve()
    try:
        over(chk, serve)
    finally:
        serve.close()


def over(chk, serve):
    r = chk.rng
    traces = []
    for i in range(chk.n(200, 2500)):
        v = r.choice(['2.0', '2.0', '3.0.0', '1.2'])
        root = ROOTS[v]
        if v == '1.2':
            docs = Gen12(r, root).build()
            if r.random() < .5:
                # resources below others, with a query, ...
                base = root.rsplit('/', 1)[0] + '/'
                for n, e in enumerate(docs[root]['apis']):
                    at, e['path'] = base + e['path'][1:], r.choice(['%s?a=%d', '/all%s.%d', '/pet?at=%s&n=%d', '%s/%d', '/v%%20%s-%d', '/u\u00e9%s.%d']) % (
                        r.choice(['/pet', e['path']]), n)
                    if at in docs:
                        docs[base + e['path'][1:]] = docs.pop(at)
        elif v == '2.0':
            gen = Gen20(r, root, ext=r.choice([0, 1, 2, 3]), rich=.15, pathref=.3, npaths=3, lost=r.choice([0, 0, 0, .1]))
            docs = gen.build()
        else:
            gen = Gen30(r, root, ext=r.choice([0, 1, 2, 3]), lost=r.choice([0, 0, 0, .1]))
            docs = gen.docset()
        # where documents really are
        hook, w = {}, World({})
        for n, (u, d) in enumerate(sorted(docs.items())):
            if r.random() < .4:
                hook[u] = r.choice(['http://mirror/%d' % n, 'http://mirror/sub/%d.json' % n])
            w.docs[hook.get(u, u)] = d if r.random() < .7 else json.dumps(d).encode()
        good = dict(w.docs)
        # a document nothing refers to
        w.docs['http://h/unused.json'] = {'a': 1}
        res = w.resolver((lambda u: hook.get(u, u)) if hook or r.random() < .5 else None)
        if r.random() < .3:
            # over the network, without any loader given
            serve.world = w
            res = Resolver(url_load_hook=lambda u: serve.at(hook.get(u, u)))
        ev, kept = [], None
        for _ in range(r.randint(1, 5)):
            for a in good:
                w.docs[a] = copy.deepcopy(good[a])
            bad = [a for a in sorted(good) if r.random() < r.choice([0, 0, .15, .5])]
            for a in bad:
                b = r.choice(BAD)
                if b is None:
                    del w.docs[a]
                else:
                    w.docs[a] = b
                    if isinstance(b, IOError):
                        del w.docs[a]
            w.fetched = []
            if kept is not None and r.random() < .5:
                # a part is asked for, of what is loaded or of a document that is not
                u = r.choice(sorted(docs))
                got = parts(docs[u], v, gen.kinds.get(u) if v == '3.0.0' else None)
                if got:
                    at, b = r.choice(got)
                    up = v if r.random() < .6 else '3.0.0'
                    g = chk.call(lambda: kept.resolve_obj(u + jp_compose(at, base='#'), v, parser=getattr(module(v), b), to_spec_version=up))
                    ev.append(dict(op='part', bad=bad, start=[[u, at, [b]]], out='ok' if g[0] == 'ok' else 'err', log=list(w.fetched), maybe=up != v))
                continue
            to = {'1.2': ['2.0', '3.0.0', None], '2.0': ['2.0', '3.0.0', None], '3.0.0': ['3.0.0', None]}[v]
            to = r.choice(to)
            a = App(root, resolver=res)

            def go():
                a.raw = a.load_obj(root)
                return a.migrate_obj(a.raw, root, to) if to else None
            got = chk.call(go)
            kept = a if got[0] == 'ok' and to == v else kept
            ev.append(dict(op='load', to=to or '', bad=bad, start=[[root, [], [ROOTB[v]]]], out='ok' if got[0] == 'ok' else 'err', log=list(w.fetched),
                           maybe=to not in (None, v)))
            if not to and v != '1.2':
                # nothing is linked yet, only the document itself was needed
                ev[-1]['start'] = [[root, [], ['str']]]
            if got[0] == 'ok' and r.random() < .4:
                w.fetched = []
                g = chk.call(lambda: a.load_obj(root))
                ev.append(dict(op='again', bad=[], start=[], out=g[0], same=g[0] == 'ok' and g[1] is a.raw, log=list(w.fetched), maybe=False))
        traces.append(dict(name='load/%d' % i, v=v, root=root, hook=hook, docs={a: enc(dec_(d)) for a, d in good.items()}, ev=ev,
                           info=dict(docs=sorted(docs))))
    chk.validate('Trace_Loads', traces, chunk=100)


ROOTB = {'1.2': 'ResourceListing', '2.0': 'Swagger', '3.0.0': 'OpenApi'}


def dec_(d):
    return json.loads(d) if isinstance(d, bytes) else d


def parts(d, v, kinds):
    """stand-alone parts of a document"""
    out = []
    if v == '2.0':
        for k, c in (('models', 'Schema'), ('definitions', 'Schema'), ('parameters', 'Parameter'), ('responses', 'Response'), ('items', 'PathItem')):
            out += [([k, q], c) for q in d.get(k, {})]
    elif v == '3.0.0' and isinstance(kinds, dict):
        for k, b in kinds.items():
            for q, c in ([((k,), b)] if isinstance(b, list) else [((k, n), b[n]) for n in b]):
                out.append((list(q), c[-1]))
    # what is a reference itself is no such part
    return [(q, c) for q, c in out if not isinstance(at(d, q), dict) or '$ref' not in at(d, q)]


def at(d, q):
    for n in q:
        d = d[n]
    return d


def run(chk):
    histories(chk)
    layouts(chk)
    random_requests(chk)
    loads(chk)

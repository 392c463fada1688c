"""C17: sessions"""
import copy
import hashlib
import json

from vlib.docs import grammar, is_list, is_map, is_obj, module, walk
from vlib.enc import enc
from vlib.gen12 import Gen12
from vlib.gen20 import Gen20
from vlib.gen30 import Gen30
from vlib.links import place, shown
from vlib.world import App, World

NOTE = 'all sequences of upgrades to supported and unsupported versions are enumerated by TLC and replayed, with hooks that return new objects; sessions over random descriptions with keys in any order are trace-checked for equal results, untouched sources, unshared parts and hook calls'
CFG = '''INIT Init
NEXT Next
CONSTANTS
 Depth = %d
 Doc = "%s"
 Replaced = %s
INVARIANTS NotOlder Same Emit
'''
ROOTS = {'1.2': 'http://h/api/resource_list.json', '2.0': 'http://h/v1/swagger.json', '3.0.0': 'http://h/v1/openapi.json'}
MAIN = {'1.2': 'ResourceListing', '2.0': 'Swagger', '3.0.0': 'OpenApi'}
SMALL = {
    '1.2': {ROOTS['1.2']: {'swaggerVersion': '1.2', 'info': {'title': '', 'description': 'd'}, 'apis': [{'path': '/pet'}]},
            'http://h/api/pet': {'swaggerVersion': '1.2', 'basePath': 'http://h/v', 'resourcePath': '/pet', 'apis': [
                {'path': '/pet', 'operations': [{'method': 'GET', 'nickname': 'get', 'parameters': [], 'type': 'string'}]}]}},
    '2.0': {ROOTS['2.0']: {'swagger': '2.0', 'info': {'title': '', 'version': '1'}, 'paths': {
        '/a': {'get': {'responses': {'200': {'description': 'x', 'schema': {'$ref': 'x.json#/a'}}}}}}},
            'http://h/v1/x.json': {'a': {'type': 'string'}}},
    '3.0.0': {ROOTS['3.0.0']: {'openapi': '3.0.0', 'info': {'title': '', 'version': '1'}, 'paths': {}, 'components': {
        'schemas': {'a': {'$ref': 'x.json#/a'}}}}, 'http://h/v1/x.json': {'a': {'type': 'string'}}},
}


class Hooked(App):
    """application that gives back another object at every step"""

    def prepare_obj(self, obj, jref):
        v = obj.__swagger_version__
        self.calls.append(place(jref) + [v, type(obj).__name__])
        if not self.replace or type(obj).__name__ != MAIN[v]:
            return obj
        d = obj.dump()
        d['info'] = dict(d['info'], title=(d['info'].get('title') or '') + '<' + v + '>')
        new = type(obj)(d, '#')
        if v == '1.2':
            new.cached_apis = obj.cached_apis
        self.given.append(new)
        return new


def small(chk):
    for v in ROOTS:
        for rep in ('TRUE', 'FALSE'):
            hs = chk.model('MC_Session', CFG % (chk.n(2, 3), v, rep), timeout=800)['S']
            if chk.quick and len(hs) > 150:
                hs = chk.rng.sample(hs, 150)
            elif len(hs) > 3000:
                hs = chk.rng.sample(hs, 3000)
            for h in hs:
                chk.expect(*one(chk, v, rep == 'TRUE', h), doc=v, replaced=rep, h=h)
    # descriptions of versions nobody knows
    for d in ({'swagger': '2.1'}, {'openapi': '3.1.0'}, {'swaggerVersion': '1.1'}, {'swagger': '1.2'}, {'info': {}}):
        w = World({'http://h/a.json': d})
        got = chk.call(lambda: w.app('http://h/a.json').load_obj('http://h/a.json'))
        chk.expect(got[0] == 'err', 'unknown version accepted', doc=d, got=str(got))


def one(chk, v, replaced, h):
    w = World(copy.deepcopy(SMALL[v]))
    root = ROOTS[v]
    a = Hooked(root, resolver=w.resolver())
    a.replace, a.calls, a.given = replaced, [], []
    if a.original_spec_version not in ('', None) or a.current_spec_version is not None:
        return False, 'fresh session'
    trees = [a.load_obj(root)]
    if a.original_spec_version != v:
        return False, 'original version'
    for x in h:
        a.calls, a.given = [], []
        got = chk.call(lambda: a.migrate_obj(trees[x['k'] - 1], root, x['to']))
        if x['out'][0] == 'err':
            if got[0] != 'err' or a.calls or (a.current_spec_version or '') != x['cur'] or w.docs != SMALL[v]:
                return False, 'refusal ' + str(got)
            continue
        if got[0] != 'ok':
            return False, 'upgrade ' + str(got)
        t = got[1]
        trees.append(t)
        title = ''.join('<' + m + '>' for m in x['out'][2] or [])
        seen = dict(v=t.__swagger_version__, title=t.info.title or '', cur=a.current_spec_version, orig=a.original_spec_version,
                    steps=[c[2] for c in a.calls if c[:2] == [root, []]], kind=[c[3] for c in a.calls if c[:2] == [root, []]])
        want = dict(v=x['out'][1], title=title, cur=x['cur'], orig=v, steps=x['steps'] or [], kind=[MAIN[s] for s in x['steps'] or []])
        if seen != want or w.docs != SMALL[v]:
            return False, 'upgrade: {} instead of {}'.format(seen, want)
        if replaced and a.given and t is not a.given[-1]:
            return False, 'object of the hook is not used'
        if x['steps']:
            r = chk.call(lambda: a.resolve_obj(root + '#', x['out'][1])[0].resolve.__self__)
            if r[0] != 'ok' or r[1] is not t:
                return False, 'object of the hook is not found ' + str(r)
    return True, ''


def mutables(v, root):
    out = {}

    def raw(x):
        if isinstance(x, (list, dict)) and not is_list(x) and not is_map(x):
            out[id(x)] = x
            for y in x.values() if isinstance(x, dict) else x:
                raw(y)
    for _, o in walk(v, root):
        out[id(o)] = o
        if is_obj(o):
            g = grammar()[v].get(type(o).__name__)
            for f in g['f'] if g else ():
                if f not in g['restr'] and (f not in g['req'] or o.is_set(f)):
                    raw(getattr(o, f))
    return out


def trees(v, t):
    """a tree together with the resources of a listing"""
    return [t] + ([t.cached_apis[k] for k in sorted(t.cached_apis)] if v == '1.2' else [])


def digest(x):
    return hashlib.md5(json.dumps(x, sort_keys=True, default=str).encode()).hexdigest()[:12]


def state(w, a, urls, old):
    return digest([w.docs, [a.resolver.resolve(u) for u in urls], [[shown(v, x) for x in trees(v, t)] for v, t in old]])


def mixed(r, x):
    if isinstance(x, dict):
        ks = list(x)
        r.shuffle(ks)
        return {k: mixed(r, x[k]) for k in ks}
    if isinstance(x, list):
        return [mixed(r, y) for y in x]
    return copy.copy(x)


def session(chk, docs, root, v, ev, targets):
    r = chk.rng
    w = World(mixed(r, docs) if r.random() < .6 else copy.deepcopy(docs))
    if r.random() < .5:
        # handed over as they are: a change of what was loaded is a change of these
        w.text = lambda u: w.fetched.append(u) or w.docs[u]
    a = Hooked(root, resolver=w.resolver())
    a.replace, a.calls, a.given = False, [], []
    got = chk.call(lambda: a.load_obj(root))
    if got[0] != 'ok':
        ev.append(dict(op='session', out=got, val=['z']))
        return
    old = [(v, got[1])]
    ev.append(dict(op='session', out=['ok', a.original_spec_version], val=enc(shown(v, got[1]))))
    for to in targets:
        k = r.randrange(len(old))
        h = old[k]
        a.calls = []
        # the tree of the own version is linked in place
        keep = [x for x in old if not (x[0] == '3.0.0' and x[1] is h[1])]
        urls = sorted(set(w.fetched))
        was = state(w, a, urls, keep)
        got = chk.call(lambda: a.migrate_obj(h[1], root, to))
        e = dict(op='up', k=k + 1, to=to, was=was, now=state(w, a, urls, keep), log=a.calls)
        ev.append(e)
        if got[0] != 'ok':
            e.update(out=['err'], val=['err'], shared=0)
            return
        t = got[1]
        tv = t.__swagger_version__
        e.update(out=['ok', tv, a.original_spec_version, a.current_spec_version], val=enc(unordered(shown(tv, t)) if v == '1.2' else shown(tv, t)))
        mine = mutables(tv, t)
        n = 0
        for ov, o in old:
            if ov != tv:
                for x in trees(ov, o):
                    n += len(set(mutables(ov, x)) & set(mine))
        if tv != v:
            raws = {}
            for d in list(w.docs.values()) + [a.resolver.resolve(u) for u in urls]:
                ids(d, raws)
            n += len(set(raws) & set(mine))
        e['shared'] = n
        old.append((tv, t))


def unordered(x):
    """1.2: what a model inherits from and what an operation accepts is not ordered"""
    if isinstance(x, dict):
        return {k: sorted((unordered(y) for y in z), key=str) if k in ('allOf', 'security') and isinstance(z, list) else unordered(z) for k, z in x.items()}
    return [unordered(y) for y in x] if isinstance(x, list) else x


def ids(x, out):
    if isinstance(x, (list, dict)):
        out[id(x)] = x
        for y in x.values() if isinstance(x, dict) else x:
            ids(y, out)


def run(chk):
    small(chk)
    r = chk.rng
    ts = []
    for i in range(chk.n(160, 2000)):
        v = r.choice(['1.2', '2.0', '2.0', '2.0', '3.0.0'])
        root = ROOTS[v]
        if v == '1.2':
            docs = Gen12(r, root).build()
        elif v == '2.0':
            docs = Gen20(r, root, ext=r.choice([0, 0, 1, 2]), rich=r.choice([.15, .35]), pathref=.3, npaths=3).build()
        else:
            docs = Gen30(r, root, ext=r.choice([0, 1, 2])).docset()
        ev = []
        up = [x for x in ('2.0', '3.0.0') if x >= v]
        for n in range(r.choice([2, 2, 3])):
            session(chk, docs, root, v, ev, [r.choice(['3.0.0'] + up + ['1.2', '2.0']) for _ in range(r.randint(1, 4))] if n else
                    r.choice([['3.0.0'], ['2.0', '3.0.0'], ['2.0', '2.0', '3.0.0']]))
        ts.append(dict(name='doc/%d' % i, v=v, root=root, docs={u: enc(d) for u, d in docs.items()}, ev=ev))
    chk.validate('Trace_C17', ts, chunk=80)

"""C20: the way a document is written does not matter"""
import copy
import hashlib
import json
import re

import yaml

from checks.c17 import ROOTS, shown, trees, unordered
from pyopenapi.migration.getter import SimpleGetter
from pyopenapi.migration.resolve import Resolver
from vlib.enc import dec, enc
from vlib.gen12 import Gen12
from vlib.gen20 import Gen20, snap
from vlib.gen30 import Gen30
from vlib.links import Record
from vlib.world import World

NOTE = 'small documents in every way of writing them are enumerated by TLC and loaded; random descriptions of all versions are loaded from random mixes of JSON, YAML and dicts, and trees, links and upgrades are trace-checked to be the same'
CFG = '''INIT Init
NEXT Next
CONSTANTS
 Rich = %s
INVARIANTS Apart Told Emit
'''


def single(text):
    class G(SimpleGetter):
        __simple_getter_callback__ = lambda url: text  # noqa
    return Resolver(default_getter=G)


def small(chk):
    ys = chk.model('MC_Yaml', CFG % ('FALSE' if chk.quick else 'TRUE'), timeout=800)['Y']
    if chk.quick:
        ys = chk.rng.sample(ys, min(6000, len(ys)))
    for v, text, form in ys:
        want = ['ok', enc(dec(v))]
        data = text if chk.rng.random() < .6 else text.encode('utf-8')
        got = chk.call(lambda: single(data).resolve('http://h/x'), 5)
        got = ['ok', enc(got[1])] if got[0] == 'ok' else got
        chk.expect(got == want, 'document', text=text, got=got, want=want)


def ints(r, x):
    """names that look like numbers as numbers"""
    if isinstance(x, dict):
        return {int(k) if re.match('(0|-?[1-9][0-9]*)$', k) and r.random() < .8 else k: ints(r, y) for k, y in x.items()}
    return [ints(r, y) for y in x] if isinstance(x, list) else x


def together(x, seen):
    """equal parts become one object, so that they are written with anchors and aliases"""
    if isinstance(x, dict):
        x = {k: together(y, seen) for k, y in x.items()}
    elif isinstance(x, list):
        x = [together(y, seen) for y in x]
    else:
        return x
    return seen.setdefault(json.dumps(enc(x), sort_keys=True), x) if x else x


def text(r, d):
    """one way of writing a document"""
    k = r.randrange(9)
    if k == 0:
        return json.dumps(d)
    if k == 1:
        return json.dumps(d, indent=r.choice([None, 1, 4]), ensure_ascii=r.random() < .5).encode('utf-8')
    if k == 2:
        return copy.deepcopy(d)
    if k == 3:
        return ints(r, copy.deepcopy(d))
    d = copy.deepcopy(d)
    if r.random() < .7:
        d = ints(r, d)
    if r.random() < .3:
        d = together(d, {})

    class D(yaml.SafeDumper):
        pass
    if r.random() < .5:
        D.ignore_aliases = lambda self, x: True
    if r.random() < .5:
        # lists indented below their name
        D.increase_indent = lambda self, flow=False, indentless=False: yaml.SafeDumper.increase_indent(self, flow, False)
    t = yaml.dump(d, Dumper=D, default_flow_style=r.choice([None, True, False, False]), default_style=r.choice([None, None, None, '"', "'", '|', '>']),
                  indent=r.choice([None, 2, 4, 6]), width=r.choice([20, 80, 1000]), allow_unicode=r.random() < .5, sort_keys=False,
                  explicit_start=r.random() < .3, line_break=r.choice([None, None, '\r\n']))
    if t.startswith('{'):
        t = r.choice(['--- ', '\n', '# a comment\n', ' ']) + t
    if r.random() < .2:
        t = '# first line\n' + t
    return t if r.random() < .5 else t.encode('utf-8')


def digest(x):
    return hashlib.md5(json.dumps(x, sort_keys=True, default=str).encode()).hexdigest()[:16]


def whole(v, t):
    x = [shown(v, y) for y in trees(v, t)]
    return unordered(x) if v == '1.2' else x


def codes(r, x):
    """a 2.0 description whose response codes are numbers"""
    x = copy.deepcopy(x)
    for p in (x.get('paths') or {}).values():
        for o in (p or {}).values():
            if isinstance(o, dict) and isinstance(o.get('responses'), dict):
                o['responses'] = {int(k) if re.match('[1-9][0-9]*$', k) and r.random() < .8 else k: y for k, y in o['responses'].items()}
    return x


def named(x):
    """what is shown, with names instead of numbers"""
    if isinstance(x, dict):
        return {str(k): named(y) for k, y in x.items()}
    return [named(y) for y in x] if isinstance(x, (list, tuple)) else x


def observe(chk, docs, root, v, text_, plain=False):
    """plain: the description is handed over as it is"""
    w = World(docs)
    w.text = lambda u: text_(docs[u])

    def go():
        a = w.app(root)
        a.raw = a.load_obj(root, getter=iter([codes(chk.rng, docs[root])])) if plain else a.load_obj(root)
        val = enc(named(shown(v, a.raw)) if plain else shown(v, a.raw))
        rest = whole(v, a.raw)
        if plain:
            rest = named(rest)
        own = links = None
        if v != '1.2':
            own = a.migrate_obj(a.raw, root, v)
            links = ordered(Record(chk, v, own, root, show=snap if v == '2.0' else shown).out(False))
        own = enc(shown(v, own)) if own is not None else ['z']
        ups = {}
        for to in ('2.0', '3.0.0'):
            if to > v:
                t = a.migrate_obj(a.raw, root, to)
                x = Record(chk, to, t, root, show=snap if to == '2.0' else shown).out(False) if v != '1.2' else shown(to, t)
                ups[to] = digest(unordered(x) if v == '1.2' else ordered(x))
        return dict(out='ok', val=val, own=own, links=digest([rest, links]), up=ups)
    got = chk.call(go, 30)
    if got[0] != 'ok':
        return dict(out=got[0], val=['z'], own=['z'], links='', up={}, why=got[1:])
    return got[1]


def ordered(x):
    """objects are numbered as they are met, which depends on the order of keys"""
    name = {}
    for s in sorted(x['sights'], key=lambda s: json.dumps(s['p'])):
        name.setdefault(s['id'], s['p'])
    def put(y):
        y = dict(y)
        if 'id' in y:
            y['id'] = name.get(y['id'])
        if y.get('end', [''])[0] == 'ok':
            y['end'] = ['ok', name.get(y['end'][1])]
        return y
    return {k: sorted((put(y) for y in z), key=lambda y: json.dumps(y, sort_keys=True, default=str)) for k, z in x.items()}


def run(chk):
    small(chk)
    r = chk.rng
    ts = []
    for i in range(chk.n(130, 2500)):
        v = r.choice(['1.2', '2.0', '2.0', '3.0.0'])
        root = ROOTS[v]
        if v == '1.2':
            docs = Gen12(r, root).build()
        elif v == '2.0':
            docs = Gen20(r, root, ext=r.choice([0, 1, 2]), rich=r.choice([.15, .35]), pathref=.3, npaths=3).build()
        else:
            docs = Gen30(r, root, ext=r.choice([0, 1, 2])).docset()
        docs = {u: d for u, d in docs.items()}
        ev = [observe(chk, docs, root, v, json.dumps)]
        for _ in range(r.choice([3, 4])):
            ev.append(observe(chk, docs, root, v, lambda d: text(r, d)))
        if v == '2.0' and len(docs) == 1:
            ev.append(observe(chk, docs, root, v, lambda d: text(r, d), True))
        ts.append(dict(name='doc/%d' % i, v=v, root=root, docs={u: enc(d) for u, d in docs.items()}, ev=ev))
    chk.validate('Trace_C20', ts, chunk=80)

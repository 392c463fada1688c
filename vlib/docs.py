"""grammar-driven random documents, and a walk over loaded trees that only uses attribute access"""
import json

from . import gen, tlc
from .enc import enc

_G = {}
WRAP = ('list', 'map', 'ref', 'bool', 'str')


def grammar():
    if not _G:
        r = tlc.run('MC_Grammar', 'INIT Init\nNEXT Next\nINVARIANTS Closed Disjoint Aliases Emit\n', workers=1)
        for l in r.lines['G']:
            g = {}
            for c, d in l['g'].items():
                g[c] = {k: (dict(v) if k in ('c', 'a', 'dflt') and v else {} if k in ('c', 'a', 'dflt') else sorted(v))
                        for k, v in d.items()}
            _G[l['v']] = g
    return _G


def module(v):
    from pyopenapi.migration.versions.v1_2 import objects as o1
    from pyopenapi.migration.versions.v2_0 import objects as o2
    from pyopenapi.migration.versions.v3_0_0 import objects as o3
    return {'1.2': o1, '2.0': o2, '3.0.0': o3}[v]


def value(r, depth=2):
    """any JSON value"""
    k = r.randrange(10 if depth else 7)
    if k == 0:
        return r.choice(['', 'a', 'x y', 'é', '#/x', '0', 'true', 'null', '~1', 'https://h/p'])
    if k == 1:
        return r.choice([0, 1, -3, 10, 2.5, 0.0, 100000])
    if k == 2:
        return r.choice([True, False])
    if k in (3, 4):
        return r.choice(['string', 'text', 'integer', 'v1'])
    if k == 5:
        return r.choice([[], {}, [0], [''], ['a', 'b']])
    if k == 6:
        return r.choice([False, 0, '', 1])
    if k == 7:
        return [value(r, depth - 1) for _ in range(r.randint(0, 3))]
    return {gen.name(r): value(r, depth - 1) for _ in range(r.randint(0, 3))}


def keyname(r):
    if r.random() < .5:
        return r.choice(gen.PLAIN + ['200', '404', 'default', '/a', '/a/{b}', '/', 'x-y'])
    return gen.name(r)


class DocGen(object):
    def __init__(self, r, v, budget=60, p_field=.4, p_child=.4, null=.05, unknown=.1, bools=.3):
        self.r, self.v, self.g = r, v, grammar()[v]
        self.budget, self.pf, self.pc, self.null, self.unknown, self.bools = budget, p_field, p_child, null, unknown, bools

    def build(self, b, depth):
        r = self.r
        h = b[0]
        if h == 'str':
            return r.choice(['a', '', 'b c', 'é', '$ref', 'read'])
        if h == 'bool':
            return r.choice([True, False]) if r.random() < self.bools else self.build(b[1:], depth)
        if h == 'ref':
            if r.random() < .25:
                return self.ref()
            return self.build(b[1:], depth)
        if h == 'Callback':
            return self.build(['map', 'PathItem'], depth)
        if h == 'list':
            n = r.choice([0, 1, 1, 2, 3, 12 if r.random() < .05 else 2])
            return [self.build(b[1:], depth - 1) for _ in range(n)]
        if h == 'map':
            n = r.choice([0, 1, 1, 2, 2, 3])
            out = {}
            for _ in range(n):
                k = keyname(r)
                if k == '$ref' and b == ['map', 'PathItem']:
                    k = 'ref'
                out[k] = self.build(b[1:], depth - 1)
            return out
        return self.obj(h, depth)

    def ref(self):
        d = {'$ref': self.r.choice(['#/definitions/a', 'x.json#/a~1b', '#/x y', 'http://h/x.json'])}
        if self.r.random() < .2:
            d['description'] = 'ignored'
        return d

    def obj(self, cls, depth=4, full=False):
        r, g = self.r, self.g[cls]
        self.budget -= 1
        out = {}
        for f in g['f']:
            if f in g['restr']:
                continue
            if f == '$ref':
                if cls == 'Reference' or r.random() < .15:
                    out[f] = '#/definitions/a'
                continue
            if full or f in g['req'] and r.random() < .9 or r.random() < self.pf:
                out[f] = None if r.random() < self.null else value(r)
        for c, b in g['c'].items():
            need = c in g['creq']
            if not need and not full and (depth <= 0 or self.budget <= 0 or r.random() > self.pc):
                if r.random() < self.null and not need:
                    out[c] = None
                continue
            if depth <= 0 and not need:
                continue
            out[c] = self.build(b, depth - 1)
        if r.random() < self.unknown:
            out[r.choice(['x-ext', 'unknown', 'x-', 'id2'])] = value(r)
        items = list(out.items())
        r.shuffle(items)
        return dict(items)


# ---------------------------------------------------------------- loaded trees
def classname(v, obj):
    """name under which the version's module exposes exactly this type"""
    m = module(v)
    n = type(obj).__name__
    return n if getattr(m, n, None) is type(obj) else '?' + n


def is_obj(o):
    from pyopenapi.migration.spec import Base2Obj
    return isinstance(o, Base2Obj)


def is_list(o):
    from pyopenapi.migration.spec import _List
    return isinstance(o, _List)


def is_map(o):
    from pyopenapi.migration.spec import _Map
    return isinstance(o, _Map)


def walk(v, obj, at=()):
    """(names, object) of every object and collection, by attribute access, in grammar order"""
    if is_obj(obj):
        yield at, obj
        g = grammar()[v].get(type(obj).__name__)
        for c in (g['c'] if g else ()):
            try:
                ch = getattr(obj, c)
            except Exception:  # pylint: disable=broad-except
                continue
            for x in walk(v, ch, at + (c,)):
                yield x
    elif is_list(obj):
        yield at, obj
        for i, e in enumerate(obj):
            for x in walk(v, e, at + (str(i),)):
                yield x
    elif is_map(obj):
        yield at, obj
        for k in list(obj.keys()):
            for x in walk(v, obj[k], at + (k,)):
                yield x


def read(v, obj, name):
    try:
        x = getattr(obj, name)
    except Exception:  # pylint: disable=broad-except
        return ['err']
    if is_obj(x):
        return ['obj', classname(v, x)]
    if is_list(x):
        return ['list', len(x)]
    if is_map(x):
        return ['map', len(x)]
    return ['val', enc(x)]


def Base2Obj():
    from pyopenapi.migration.spec import Base2Obj as B
    return B({})


def ALIASES(v):
    return {a for g in grammar()[v].values() for a in g['a']}


def fits(v, b, x):
    """every value under a child position has the JSON type that position needs"""
    h = b[0]
    if h == 'str':
        return isinstance(x, str)
    if h == 'bool':
        return isinstance(x, bool) or fits(v, b[1:], x)
    if h == 'ref':
        return isinstance(x, dict) and ('$ref' in x and isinstance(x['$ref'], str) or fits(v, b[1:], x))
    if h == 'Callback':
        return fits(v, ['map', 'PathItem'], x)
    if h == 'list':
        return isinstance(x, list) and all(fits(v, b[1:], y) for y in x)
    if h == 'map':
        return isinstance(x, dict) and all(fits(v, b[1:], y) for y in x.values())
    if not isinstance(x, dict):
        return False
    g = grammar()[v][h]
    return all(x[k] is None or fits(v, c, x[k]) for k, c in g['c'].items() if k in x)

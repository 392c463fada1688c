"""C06: comparing two trees"""
import copy

from vlib import docs, gen
from vlib.enc import dec, enc

NOTE = 'all pairs of small objects of some kinds are enumerated by TLC and compared; random documents of all object types are compared with variations of them that differ in one place, in both directions and at several positions'
CFG = '''INIT Init
NEXT Next
CONSTANTS
 Ver = "%s"
INVARIANTS Twice Third Told Emit
'''


def mixed(r, x):
    if isinstance(x, dict):
        ks = list(x)
        r.shuffle(ks)
        return {k: mixed(r, x[k]) for k in ks}
    return [mixed(r, y) for y in x] if isinstance(x, list) else x


def holders(x, at=()):
    if isinstance(x, (dict, list)):
        yield x, at
        for k, y in x.items() if isinstance(x, dict) else enumerate(x):
            for z in holders(y, at + (k,)):
                yield z


def vary(r, d):
    """the same document, different in one place"""
    d = copy.deepcopy(d)
    hs = [h for h, _ in holders(d)]
    h = r.choice(hs)
    k = r.randrange(6)
    if isinstance(h, dict):
        ks = list(h)
        if not ks or k == 0:
            h[r.choice(ks) + 'z' if ks and r.random() < .5 else gen.name(r)] = r.choice([docs.value(r), {}])
        elif k == 1:
            del h[r.choice(ks)]
        elif k == 2 and len(ks) > 1:
            a, b = r.sample(ks, 2)
            h[a], h[b] = h[b], h[a]
        elif k == 3:
            a = r.choice(ks)
            h[a + 'q'] = h.pop(a)
        else:
            a = r.choice(ks)
            h[a] = other(r, h[a])
    else:
        if not h or k == 0:
            h.append(copy.deepcopy(r.choice(h)) if h else r.choice(['x', {}]))
        elif k == 1:
            h.pop(r.choice([0, -1]))
        elif k == 2 and len(h) > 1:
            h.reverse()
        else:
            i = r.randrange(len(h))
            h[i] = other(r, h[i])
    return d


def other(r, x):
    if isinstance(x, bool):
        return r.choice([not x, int(x)])
    if isinstance(x, str):
        return r.choice([x + 'x', x[:-1], x.upper(), '', None])
    if isinstance(x, int):
        return r.choice([x + 1, float(x), bool(x), str(x)])
    if isinstance(x, float):
        return r.choice([x + .5, int(x), None])
    if x is None:
        return r.choice([0, '', False, []])
    if isinstance(x, list):
        return r.choice([x + x[:1], x[1:], [], x[::-1]])
    return r.choice([{}, {'$ref': '#/x'}, dict(list(x.items())[1:]), True])


def answer(chk, x, y, base):
    got = chk.call(lambda: x.compare(y, base) if base else x.compare(y))
    if got[0] == 'ok':
        same, at = got[1]
        return ['same' if same is True else 'diff' if same is False else repr(same), '' if same is True else at]
    return [got[0]]


def pair(chk, v, cls, d1, d2, name, cap):
    r = chk.rng
    klass = getattr(docs.module(v), cls)
    if not docs.fits(v, [cls], d1) or not docs.fits(v, [cls], d2):
        return None
    ds = [d1, d2, mixed(r, d1)]
    os_ = []
    for d in ds:
        got = chk.call(lambda: klass(copy.deepcopy(d), '#'))
        if got[0] != 'ok':
            return None
        os_.append(got[1])
    ev = []

    def one(a, b, at, x, y):
        base = r.choice(['', '#', '#/p', 'http://h/a.json#/b~1c'])
        cls_ = docs.classname(v, x) if docs.is_obj(x) else ''
        diff = '' if type(x) is type(y) else 'other kind'  # noqa
        ev.append(dict(op='cmp', a=a, b=b, at=list(at), cls=cls_, base=base, other=diff, out=answer(chk, x, y, base)))
    one(1, 2, [], os_[0], os_[1])
    one(2, 1, [], os_[1], os_[0])
    one(1, 3, [], os_[0], os_[2])
    one(1, 1, [], os_[0], os_[0])
    one(3, 2, [], os_[2], os_[1])
    there = {at: o for at, o in docs.walk(v, os_[1])}
    both = [(at, o) for at, o in docs.walk(v, os_[0]) if at in there and at]
    for at, o in r.sample(both, min(cap, len(both))):
        if r.random() < .5:
            one(1, 2, at, o, there[at])
        else:
            one(2, 1, at, there[at], o)
    return dict(name=name, v=v, cls=cls, docs=[enc(d) for d in ds], ev=ev)


def small(chk):
    ts = []
    for v in ('2.0', '3.0.0'):
        ps = chk.model('MC_Diff', CFG % v)['P']
        if chk.quick:
            ps = chk.rng.sample(ps, min(len(ps), 700))
        for n, (cls, a, b) in enumerate(ps):
            ts.append(pair(chk, v, cls, dec(a), dec(b), 'small/%s/%d' % (cls, n), 0))
    return ts


def run(chk):
    r = chk.rng
    gs = docs.grammar()
    ts = small(chk)
    for v in ('1.2', '2.0', '3.0.0'):
        for cls in sorted(gs[v]):
            for i in range(chk.n(4, 60)):
                g = docs.DocGen(r, v, budget=r.choice([3, 10, 30]), p_field=r.choice([.1, .3]), p_child=r.choice([.3, .7]), unknown=0)
                d = g.obj(cls, r.choice([1, 2, 3]))
                for k, f in gs[v][cls]['f'] and [(f, f) for f in gs[v][cls]['req']]:
                    d.setdefault(k, 'q')
                for _ in range(2):
                    d2 = vary(r, d) if r.random() < .85 else g.obj(cls, 2)
                    ts.append(pair(chk, v, cls, d, d2, '%s/%s/%d' % (v, cls, i), 5))
                # the other way round and another kind of object
        for _ in range(chk.n(10, 60)):
            a, b = r.sample(sorted(gs[v]), 2)
            ka, kb = (getattr(docs.module(v), c) for c in (a, b))
            da, db = docs.DocGen(r, v).obj(a, 1, full=True), docs.DocGen(r, v).obj(b, 1, full=True)
            x, y = (chk.call(lambda: k(copy.deepcopy(d), '#')) for k, d in ((ka, da), (kb, db)))
            if x[0] == y[0] == 'ok':
                base = r.choice(['', '#'])
                ts.append(dict(name='kinds/%s/%s' % (a, b), v=v, cls=a, docs=[enc(da), enc(db)],
                               ev=[dict(op='cmp', a=1, b=2, at=[], cls=a, base=base, other='other kind', out=answer(chk, x[1], y[1], base))]))
    chk.validate('Trace_C06', [t for t in ts if t], chunk=600)
    chk.assumptions += ['every value under a child position has the JSON type that position needs']

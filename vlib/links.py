"""what a loaded API is linked to: every reference of every piece that was loaded, by attribute access"""
from pyopenapi import utils

from .docs import classname, grammar, is_list, is_map, is_obj, walk
from .enc import enc


def real(x):
    """the object behind a proxy"""
    return x.resolve.__self__


def shown(v, obj):
    if is_obj(obj):
        g = grammar()[v].get(type(obj).__name__)
        if g is None:
            return {'?': type(obj).__name__}
        out = {}
        for f in g['f']:
            if f in g['restr']:
                continue
            try:
                x = getattr(obj, f)
            except Exception:  # pylint: disable=broad-except
                continue
            if x is None or f in (g['dflt'] or {}) and not obj.is_set(f):
                continue
            out[f] = x
        for c in g['c']:
            x = getattr(obj, c)
            if x is None or (is_list(x) or is_map(x)) and len(x) == 0:
                continue
            out[c] = shown(v, x)
        return out
    if is_list(obj):
        return [shown(v, x) for x in obj]
    if is_map(obj):
        return {k: shown(v, obj[k]) for k in obj.keys()}
    return obj


def place(ref):
    """address and names a normalised reference designates"""
    u, p = utils.jr_split(ref)
    return [u, utils.jp_split(p)[1:]]


class Record(object):
    """pieces: what was walked; refs: every reference; sights: which object is at which place"""

    def __init__(self, chk, v, root, url, names=(), show=shown):
        self.chk, self.v, self.show = chk, v, show
        self.keep, self.number = [], {}
        self.told = []
        self.pieces, self.refs, self.sights, self.finals = [], [], [], []
        self.queue = [(real(root), url, list(names))]
        self.walked = set()
        while self.queue:
            o, u, at = self.queue.pop(0)
            if id(o) in self.walked:
                continue
            self.piece(o, u, at)

    def token(self, o):
        if id(o) not in self.number:
            self.keep.append(o)
            self.number[id(o)] = len(self.number) + 1
        return self.number[id(o)]

    def piece(self, o, u, at):
        self.pieces.append(dict(p=[u, at], val=enc(self.show(self.v, o))))
        for names, x in walk(self.v, o):
            self.walked.add(id(x))
            if is_obj(x):
                self.sight(u, at + list(names), x)
                self.ref(u, at + list(names), x)
            elif is_map(x) or not names:
                self.sight(u, at + list(names), x)

    def sight(self, u, at, x):
        self.sights.append(dict(p=[u, at], id=self.token(x), cls=classname(self.v, x) if is_obj(x) else 'map' if is_map(x) else '?'))

    def ref(self, u, at, x):
        cls = type(x).__name__
        if cls == 'PathItem':
            f = self.chk.call(lambda: utils.final(x))
            if f[0] != 'ok':
                self.finals.append(dict(p=[u, at], out=f))
            else:
                kids = {}
                for c in grammar()[self.v]['PathItem']['c']:
                    y = getattr(f[1], c)
                    if y is not None and not ((is_list(y) or is_map(y)) and len(y) == 0):
                        kids[c] = self.show(self.v, y)
                self.finals.append(dict(p=[u, at], own=real(f[1]) is x, out=['ok', enc(kids)]))
        if not getattr(x, 'ref', None):
            return
        a = x.get_attrs('migration')
        n, t = (a.normalized_ref, a.ref_obj) if a else (None, None)
        if t is None or not n:
            self.refs.append(dict(p=[u, at], ref=x.ref, norm=[str(n), []], id=0, end=['err', 'none']))
            return
        t = real(t)
        to = place(n)
        d = self.chk.call(lambda: real(utils.deref(x)))
        end = ['ok', self.token(d[1])] if d[0] == 'ok' else d
        # what it refers to leads to the same, asked through the link or at the object itself
        for y in (a.ref_obj, t):
            d = self.chk.call(lambda: real(utils.deref(y)))
            again = ['ok', self.token(d[1])] if d[0] == 'ok' else d
            if again != end:
                end = ['err', 'led to %s and %s' % (end, again)]
        self.refs.append(dict(p=[u, at], ref=x.ref, norm=to, id=self.token(t), end=end))
        self.told.append((to, a.ref_obj))
        if id(t) not in self.walked:
            self.queue.append((t, to[0], to[1]))

    def joint(self):
        """two chains followed with one guard"""
        out, r = [], self.chk.rng
        for _ in range(min(len(self.told), 8)):
            (p, x), (q, y) = r.choice(self.told), r.choice(self.told)
            g = utils.CycleGuard()
            self.chk.call(lambda: utils.deref(x, g))
            d = self.chk.call(lambda: real(utils.deref(y, guard=g)))
            out.append(dict(p=p, q=q, end=['ok', self.token(d[1])] if d[0] == 'ok' else d))
        return out

    def out(self, joint=True):
        return dict(joint=self.joint() if joint else [], pieces=self.pieces, refs=self.refs, sights=self.sights, finals=self.finals)

"""C07: comparing raw containers"""
import copy

from pyopenapi import utils
from vlib import gen
from vlib.enc import enc, dec

NOTE = 'all pairs of small structures with every key selection are enumerated by TLC and replayed; mutated random pairs are trace-checked'
CFG = '''INIT Init
NEXT Next
CONSTANT Deep = %s
INVARIANTS Decides Mirror OncePerPlace Real Emit
'''
KEYS = [n for n in gen.NAMES if n and all(ord(c) < 127 for c in n)]


def compare(x, y, base, inc, exc, ret=None):
    kw = {k: list(v) for k, v in (('include', inc), ('exclude', exc)) if v}
    if ret is not None:
        # differences are added to those found before
        kw['ret'] = ret
    out = utils.compare_container(x, y, base_path=base, **kw)
    if ret is not None:
        if out is not ret or out[:1] != [('#/earlier', 1, 2)]:
            return [['?', enc(1), enc(2)]]
        out = out[1:]
    return [[p if isinstance(p, str) else '? %r' % (p,), enc(l), enc(r)] for p, l, r in out]


def value(r, depth):
    k = r.randrange(6 if depth else 3)
    if r.random() < .1:
        return r.choice([None, 0.5, -2.25])
    if k == 0:
        return r.choice([0, 1, -1, 10, 200, -25])
    if k in (1, 2):
        return r.choice(['', 'a', 'b', 'ab', 'B', '10', '2', 'a b', '~'])
    if k == 3:
        m = r.randrange(3)
        n = r.choice([0, 1, 2, 3, 5, 12])
        if m == 0:
            return [r.choice(['a', 'b', 'B', 'ab', '', '10', '9']) for _ in range(n)]
        if m == 1:
            return [r.choice([3, -1, 0, 12, 9]) for _ in range(n)]
        return [obj(r, depth - 1) for _ in range(min(n, 4))]
    return obj(r, depth - 1)


def obj(r, depth):
    return {r.choice(KEYS): value(r, depth) for _ in range(r.randint(0, 3))}


def change(r, x, depth=0):
    """a copy of x with one or no place changed"""
    if isinstance(x, dict) and x and r.random() < .85:
        y = dict(x)
        k = r.choice(sorted(x))
        m = r.random()
        if m < .12:
            del y[k]
        elif m < .24:
            y[r.choice(KEYS)] = value(r, 1)
        else:
            y[k] = change(r, x[k], depth + 1)
        its = list(y.items())
        r.shuffle(its)
        return dict(its)
    if isinstance(x, list) and x and r.random() < .8:
        y = list(x)
        m = r.random()
        if m < .2:
            y.pop(r.randrange(len(y)))
        elif m < .35 and not isinstance(y[0], dict):
            r.shuffle(y)
        elif m < .45:
            y.append(copy.deepcopy(y[0]))
        elif isinstance(y[0], dict):
            i = r.randrange(len(y))
            y[i] = change(r, y[i], depth + 1)
            y[i] = y[i] if isinstance(y[i], dict) else {}
        else:
            y[r.randrange(len(y))] = r.choice(['q', 'a', '']) if isinstance(y[0], str) else r.choice([7, 0, -1])
        return y
    return value(r, 1) if r.random() < .6 else copy.deepcopy(x)


def run(chk):
    for c in chk.model('MC_Compare', CFG % chk.n('FALSE', 'TRUE'), timeout=850)['P']:
        x, y = dec(c['x']), dec(c['y'])
        got = chk.call(lambda: sorted(compare(x, y, '#', c['inc'] or [], c['exc'] or [])), 5)
        want = sorted([[e[0], enc(dec(e[1])), enc(dec(e[2]))] for e in c['out'] or []])
        chk.expect(got == ['ok', want], 'pair', x=x, y=y, inc=c['inc'], exc=c['exc'], got=got, spec=want)
    r = chk.rng
    traces = []
    for i in range(chk.n(1600, 8000)):
        ev = []
        for _ in range(4):
            x = obj(r, r.choice([1, 2, 3]))
            y = copy.deepcopy(x)
            for _ in range(r.choice([0, 1, 1, 2, 3])):
                y = change(r, y)
            if r.random() < .1:
                x, y = y, value(r, 2)
            keys = sorted(set([k for c in (x, y) if isinstance(c, dict) for k in c] + KEYS[:3]) - {''})
            inc = r.sample(keys, min(len(keys), r.choice([1, 2, 3, 5]))) if r.random() < .3 else []
            exc = r.sample(keys, min(len(keys), r.randint(1, 2))) if r.random() < .4 else []
            base = r.choice(['', '#', '#/a~1b', None])
            if r.random() < .1:
                x, y = r.sample([[], {}, ['a'], [1, 2], {'a': 1}, 'a', 'b', 1, 7, 0.5, None, [{'a': 1}], [{'a': 2}]], 2)
            cx, cy = copy.deepcopy(x), copy.deepcopy(y)
            out = chk.call(lambda: compare(x, y, base, inc, exc, [('#/earlier', 1, 2)] if r.random() < .2 else None), 5)
            ev.append(dict(op='cmp', x=enc(cx), y=enc(cy), base=base or '', inc=inc, exc=exc, out=out, pure=(x, y) == (cx, cy)))
        traces.append(dict(name='pair/%d' % i, ev=ev))
    chk.validate('Trace_C07', traces)
    chk.assumptions += ['lists hold values of one type; lists of lists are not compared; no empty keys']

"""C19: scoped names"""
from pyopenapi import utils
from vlib.enc import enc

NOTE = 'all small sets of scoped keys and all lookups are enumerated by TLC and replayed; histories of several dictionaries are trace-checked'
CFG = '''INIT Init
NEXT Next
CONSTANTS
 Names = {%s}
 MaxLen = %d
 MaxKeys = %d
 Seps = {"!##!", "-"}
INVARIANTS WholeNames Inverse Emit
'''
SEPS = ['!##!', '-', '::', '.', '/', ' ', '##', '*', '$^', '|']

VALS = [0, 1, 1, 2, 3, 99]


def look(d, q):
    try:
        return ['hit', d[q]]
    except KeyError:
        return ['missing']
    except ValueError:
        return ['ambiguous']


def run(chk):
    r = chk.rng
    for c in chk.model('MC_Scope', CFG % (chk.n('"a", "xa"', '"a", "b", "xa"'), chk.n(3, 2), chk.n(3, 3)), timeout=850)['D']:
        keys = list(c['keys'] or [])
        r.shuffle(keys)
        d = utils.ScopeDict({k: 'v:' + k for k in keys})
        if c['sep'] != '!##!' or r.random() < .3:
            d.sep = c['sep']
        for q, s, x in c['look']:
            want = ['hit', 'v:' + x[1]] if x[0] == 'hit' else list(x)
            for arg in (s, tuple(q)):
                got = chk.call(lambda: look(d, arg), 5)
                chk.expect(got == ['ok', want], 'lookup', keys=keys, sep=c['sep'], q=arg, got=got, spec=want)
            got = chk.call(lambda: utils.scope_split(s, sep=c['sep']), 5)
            chk.expect(got == ['ok', list(q)], 'split', s=s, sep=c['sep'], got=got, spec=q)
    traces = []
    names = ['a', 'b', 'xa', 'get', 'something-get', 'User', 'SuperUser', 'é', 'a b', '!', '#', '!#', 'a.b', 'x::', '0', '(', '[a', 'a*']
    for i in range(chk.n(300, 3000)):
        ds, ev, seps, used = {}, [], {}, [['a']]
        pool = r.sample(names, r.randint(2, 6))

        def do(op, fn, **e):
            g = chk.call(fn, 5)
            ev.append(dict(op=op, out=['ok'] if g[0] == 'ok' else g, **e))

        def key(dd):
            k = r.random()
            if k < .3:
                q = list(r.choice(used))
                q = q[-r.randint(1, len(q)):]
                q = ([r.choice(pool)] if r.random() < .5 else []) + q
            else:
                q = [r.choice(pool) for _ in range(r.randint(1, 4))]
            used.append(q)
            return q
        for n in range(r.randint(1, 3)):
            items = [[seps.get(n, '!##!').join(key(n)), r.choice(VALS)] for _ in range(r.randint(0, 5))]
            d = str(n)
            how = r.randrange(2)

            def make():
                ds[d] = utils.ScopeDict(dict(items)) if how else utils.ScopeDict([tuple(x) for x in items])
            do('new', make, d=d, items=items)
            seps[d] = '!##!'
        for _ in range(r.randint(5, 25)):
            d = r.choice(sorted(ds))
            o = ds[d]
            k = r.random()
            if k < .1:
                s = r.choice(SEPS)
                seps[d] = s
                do('sep', lambda: setattr(o, 'sep', s), d=d, sep=s)
            elif k < .3:
                kk, v = r.choice([seps[d], seps[d], r.choice(SEPS)]).join(key(d)), r.choice(VALS)
                do('put', lambda: o.__setitem__(kk, v), d=d, k=kk, v=v)
            elif k < .35 and len(o):
                kk = r.choice(sorted(o.keys()))
                do('del', lambda: o.__delitem__(kk), d=d, k=kk)
            elif k < .9:
                q = key(d)
                as_str = r.random() < .5
                if as_str:
                    q = [r.choice([seps[d].join(q), r.choice(SEPS).join(q), q[0]])]
                g = chk.call(lambda: look(o, q[0] if as_str else tuple(q)), 5)
                ev.append(dict(op='look', d=d, q=q, str=as_str, out=g[1] if g[0] == 'ok' else g))
            elif k < .95:
                a, b = (r.choice([None, '', 'a', 'b::c', r.choice(names)]) for _ in range(2))
                s = r.choice(SEPS)
                g = chk.call(lambda: utils.scope_compose(a, b, sep=s), 5)
                ev.append(dict(op='compose', a=enc(a), b=enc(b), sep=s, out=['ok', enc(g[1])] if g[0] == 'ok' else g))
            else:
                s = r.choice(SEPS)
                a = r.choice([None, '', s.join(key(d))])
                g = chk.call(lambda: utils.scope_split(a, sep=s), 5)
                ev.append(dict(op='split', a=enc(a), sep=s, out=['ok', enc(g[1])] if g[0] == 'ok' else g))
        traces.append(dict(name='hist/%d' % i, ev=ev))
    chk.validate('Trace_C19', traces)
    chk.assumptions += ['keys are strings; tuples are not empty and hold no empty names']

"""C02: references against their document; folders and joins"""
from pyopenapi import utils

CFG = '''INIT Init
NEXT Next
CONSTANTS
 Bases = {"http://h/x.json", "http://h/a/x.json", "https://h:80/a/b/x.yaml", "file:///a/b/c/x.json", "file:///x.json", "http://h/", "http://h/a/"}
 Segs = {".", "..", "a", "b"}
 Names_ = {"y.json", "y"}
 MaxSegs = %d
 Frags = {"", "#/definitions/P~1q"}
INVARIANTS Absolute NoDots Idempotent KeepsFragment SameDocument KeepsName Emit
'''


def run(chk):
    for c in chk.model('MC_Url', CFG % chk.n(3, 6))['CASE']:
        got = chk.call(lambda: utils.normalize_jr(c['ref'], c['base']))
        chk.expect(got == ['ok', c['out']], 'resolve', case=c, got=got)

    r = chk.rng
    hosts = ['http://h', 'https://petstore.swagger.io', 'http://localhost:8080', 'file://', 'http://user@h:1']
    segs = ['a', 'b', 'v1', 'api-docs', 'x y', '%20', 'é', 'a.b', 'json', 'yaml', '.hidden', '...a', 'a..', '{id}', '~1', 'a+b',
            'a:b', '@', '=', '&', '007']
    files = ['x.json', 'y.yaml', 'z.yml', 'swagger', 'é.json', 'a b.json', 'user.v1.json', 'json', 'xjson', 'README', '.json',
             'ajson']
    frags = ['', '', '#', '#/definitions/A', '#/a~1b/c~0d', '#/paths/~1a~1{id}/get', '#/x y/é', '#/', '#/definitions/a%20b',
             '#/a?b', '#/a#b', '#/../x', '#/./y']

    def path(n):
        return [r.choice(segs) for _ in range(n)]

    traces = []
    for i in range(chk.n(400, 4000)):
        ev = []
        bases = []
        for _ in range(3):
            bases.append(r.choice(hosts) + '/' + '/'.join(path(r.choice([0, 0, 1, 1, 2, 3, 5])) + [r.choice(files)]))

        def res(ref, base):
            out = chk.call(lambda: utils.normalize_jr(ref, base), 5)
            ev.append(dict(op='resolve', ref=ref, base=base or '', out=out))
            return out[1] if out[0] == 'ok' else ref

        for _ in range(4):
            base = r.choice(bases + [None])
            kind = r.randrange(6)
            frag = r.choice(['', '', '', '?v=1']) + r.choice(frags)
            if kind == 0 or not base:
                frag = frag[frag.find('#'):] if '#' in frag else ''
            dots = [r.choice(['..', '..', '.', 'a', 'b']) for _ in range(r.randint(0, 5))]
            # empty names count as well
            gap, end = (['a', ''] if r.random() < .15 else []), ('/' if r.random() < .1 else '')
            if kind == 0:
                ref = frag or '#/definitions/X'
                if base is None and ref == '#':
                    ref = '#/a'
            elif kind == 1:
                ref = r.choice(hosts) + '/' + '/'.join(path(2) + [r.choice(files)]) + frag
            elif kind == 2 and base:
                ref = '/' + '/'.join(path(r.randint(0, 2)) + dots + gap + [r.choice(files)]) + end + frag
            elif base:
                ref = '/'.join(dots + gap + path(r.randint(0, 2)) + dots[:1] + [r.choice(files)]) + end + frag
                if ':' in ref.split('/')[0]:
                    ref = './' + ref
            else:
                ref = '/'.join(path(1) + [r.choice(files)]) + frag
                if ':' in ref.split('/')[0]:
                    ref = 'q/' + ref
            one = res(ref, base)
            if base:
                two = res(one, r.choice(bases))
                res(two, None if two.split('#')[0] else base)
        for _ in range(2):
            u = r.choice(bases)
            u += r.choice(['', '', '', '?x=1', '?a=b.json', '?v=/x.yml/'])
            ev.append(dict(op='dirname', url=u, out=chk.call(lambda: utils.url_dirname(u), 5)))
            d = r.choice(hosts) + '/' + '/'.join(path(r.randint(0, 3)))
            d = r.choice([d, d + '/']) if not d.endswith('/') else d
            d = r.choice([d, d, r.choice(hosts[:3])])
            d += r.choice(['', '', '', '?x=1', '?a=/b/'])
            nm = r.choice(['', '', '/']) + '/'.join(path(r.randint(0, 1)) + [r.choice(files)])
            ev.append(dict(op='join', url=d, name=nm, out=chk.call(lambda: utils.url_join(d, nm), 5)))
            u2 = r.choice(hosts) + '/' + '/'.join([r.choice(['..', '.', 'a', 'b', 'd', '.a', 'c.']) for _ in range(r.randint(1, 7))] + ['f.json']) + r.choice(['', '', '?x=/../y'])
            ev.append(dict(op='undot', url=u2, out=chk.call(lambda: utils.derelativise_url(u2), 5)))
        traces.append(dict(name='url/%d' % i, ev=ev))
    chk.validate('Trace_C02', traces)
    chk.assumptions += ['references end in a file name (not in "." or ".."), do not start with "//", and bases have no query',
                        'a path segment of three or more dots is not used']

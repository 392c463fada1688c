"""C01: pointer and reference syntax"""
import copy
import os
from pyopenapi import utils
from vlib import gen

CFG = '''INIT Init
NEXT Next
CONSTANTS
 Alphabet = {"~","/","0","1","a"}
 MaxChars = %d
 MaxToks = 3
 Bases = {"", "#", "#/x~1y"}
INVARIANTS RoundTrip Injective KeepsBase Emit
'''


def _out(chk, fn):
    return chk.call(fn, 5)


def _compose(chk, toks, base, single=False):
    arg = toks[0] if single else list(toks)
    keep = copy.copy(arg)
    out = _out(chk, lambda: utils.jp_compose(arg, base=base))
    return dict(op='compose', toks=list(toks), base=base or '', out=out, pure=keep == arg)


def _split(chk, ptr):
    return dict(op='split', ptr=ptr or '', out=_out(chk, lambda: utils.jp_split(ptr)), pure=True)


def _jr(chk, ref):
    out = _out(chk, lambda: list(utils.jr_split(ref)))
    return dict(op='jr', ref=ref, cwd=os.getcwd(), out=out, pure=True)


def run(chk):
    for c in chk.model('MC_Pointer', CFG % chk.n(4, 5))['CASE']:
        toks, base = list(c['toks'] or []), c['base']
        got = chk.call(lambda: utils.jp_compose(list(toks), base=base or None))
        chk.expect(got == ['ok', c['ptr']], 'compose', toks=toks, base=base, got=got, spec=c['ptr'])
        got = chk.call(lambda: utils.jp_split(c['ptr']))
        chk.expect(got == ['ok', list(c['parts'] or [])], 'split', ptr=c['ptr'], got=got, spec=c['parts'])

    r = chk.rng
    hosts = ['http://h', 'https://petstore.swagger.io', 'http://localhost:8080', 'file://', 'http://user@h:1']
    traces = []
    for i in range(chk.n(300, 2500)):
        ev = []
        toks = [gen.name(r) for _ in range(r.randint(0, 6))]
        base = r.choice([None, '', '#', '#/definitions', '#/a~1b', '#/', 'http://h/x.json#/paths', '/'])
        ev.append(_compose(chk, toks, base))
        if ev[-1]['out'][0] == 'ok':
            ev.append(_split(chk, ev[-1]['out'][1]))
        one = gen.name(r)
        ev.append(_compose(chk, [one], base, single=True))
        # incremental composition is the same as composing at once
        cur = '#'
        for x in toks:
            e = _compose(chk, [x], cur, single=r.random() < .5)
            ev.append(e)
            if e['out'][0] == 'ok':
                cur = e['out'][1]
        ev.append(_split(chk, cur))
        ev.append(_split(chk, '/'.join(gen.name(r) for _ in range(r.randint(0, 4)))))
        # references
        frag = '/'.join([''] + [gen.name(r) for _ in range(r.randint(0, 3))])
        path = '/'.join(gen.safe_name(r).replace('?', '') or 'p' for _ in range(r.randint(1, 3)))
        path = path.replace('//', '/').strip('/').replace('\\', '') or 'p'
        forms = ['', r.choice(hosts) + '/' + path, r.choice(hosts) + '/x.json', r.choice(hosts) + '/', '/' + path, path,
                 './' + path, '../' + path, 'a/./b/../c.json', '/a/b/', '//', '//host/a', 'some dir/é.json', '/x/%41 b;c',
                 'http://h/x?y=1', '100%/#', '/..']
        url = r.choice(forms)
        ref = r.choice([url, url + '#', url + '#' + frag, url + '#' + frag]) if url != '100%/#' else url
        e = _jr(chk, ref)
        ev.append(e)
        if e['out'][0] == 'ok':
            ev.append(_jr(chk, ''.join(e['out'][1])))
        u = url.split('#')[0]
        out = _out(chk, lambda: utils.normalize_url(u))
        ev.append(dict(op='norm', url=u, cwd=os.getcwd(), out=out, pure=True))
        if out[0] == 'ok':
            ev.append(dict(op='norm', url=out[1], cwd=os.getcwd(), out=_out(chk, lambda: utils.normalize_url(out[1])), pure=True))
        ap = '/' + '/'.join(x for x in path.split('/') if x not in ('', '.', '..'))
        ev.append(dict(op='path', path=ap, out=_out(chk, lambda: utils.path2url(ap)), pure=True))
        traces.append(dict(name='text/%d' % i, ev=ev))
    chk.validate('Trace_C01', traces)
    chk.assumptions += ['addresses with a scheme are in canonical form (lower-case scheme, no empty query)',
                        'posix paths; working directory does not change during a run']

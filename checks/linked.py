"""loaded worlds and what they are linked to: used by C10, C11, C12"""
import copy

from pyopenapi.utils import jp_compose
from vlib.docs import is_obj, walk
from vlib.enc import dec, enc
from vlib.gen20 import Gen20, snap
from vlib.gen30 import Gen30
from vlib.links import Record, place, real
from vlib.world import World

CONST = ' Part = "%s"\n'
ROOTS = {'2.0': 'http://h/v1/swagger.json', '3.0.0': 'http://h/v1/openapi.json'}


def observe(chk, docs, root, v, ask=True, **kw):
    w = World(copy.deepcopy(docs))

    def go():
        return w.load(root, v)
    got = chk.call(go)
    if got[0] != 'ok':
        return got
    rec = Record(chk, v, got[1].root, root, **kw)
    return ['ok', dict(rec.out(), asked=asked(chk, got[1], rec, root, v) if ask else [])]


def asked(chk, app, rec, root, v):
    """objects found by address afterwards, in any order"""
    r, out = chk.rng, []
    src = app.raw.__swagger_version__
    if src == v:
        places = [s['p'] for s in rec.sights]
    else:
        places = [[root, list(n)] for n, x in walk(src, app.raw) if is_obj(x) and n and
                  (n[0] == 'definitions' or len(n) == 4 and n[0] == 'paths' and n[2] == 'parameters' or len(n) == 2 and n[0] in ('paths', 'responses', 'parameters', 'securityDefinitions'))]
    few = [p for p in places if len(p[1]) == 4] if src != v else []
    for u, at in r.sample(few, min(len(few), 3)) + r.sample(places, min(len(places), 6)):
        if u != root or not at:
            continue
        ref = ('' if r.random() < .5 else root) + jp_compose(list(at), base='#')
        kw = dict(to_spec_version=v) if src != v or r.random() < .5 else {}
        got = chk.call(lambda: (lambda g: (real(g[0]), str(g[1])))(app.resolve_obj(ref, src, **kw)))
        # ... with the address they have in that version
        out.append(dict(ref=ref, id=rec.token(got[1][0]) if got[0] == 'ok' else 0, at=place(got[1][1]) if got[0] == 'ok' else ['', []]))
    return out


def trace(chk, name, docs, root, v):
    b = ['Swagger' if v == '2.0' else 'OpenApi']
    return dict(name=name, v=v, root=root, b=b, start=[[root, [], b]], docs={u: enc(d) for u, d in docs.items()},
                ev=[dict(op='load', out=observe(chk, docs, root, v))])


def trace_up(chk, name, docs, root):
    return dict(name=name, root=root, docs={u: enc(d) for u, d in docs.items()},
                ev=[dict(op='load', out=observe(chk, docs, root, '3.0.0', show=snap))])


def random_docs(chk, v, loops, lost, pathref):
    r = chk.rng
    ext = r.choice([0, 1, 1, 2, 3])
    if v == '2.0':
        g = Gen20(r, ROOTS[v], ext=ext, rich=r.choice([.1, .15, .3]), pathref=pathref, loops=loops, lost=lost, nparam=r.choice([3, 3, 3, 12]),
                  npaths=r.choice([2, 4]), depth=r.choice([1, 3, 3]))
        return g.build()
    if r.random() < .6:
        return Gen30(r, ROOTS[v], ext=ext, pathref=pathref, loops=loops, lost=lost).docset()
    # few objects, each with many references next to each other
    return Gen30(r, ROOTS[v], ext=ext, pathref=pathref, loops=loops, lost=lost, p_field=.15, p_child=r.choice([.6, .9]),
                 pref=r.choice([.5, .8]), big=r.choice([.3, .5])).docset()


CFG = '''INIT Init
NEXT Next
CONSTANTS
 Family = "%s"
 Ver = "%s"
 Rich = %s
INVARIANTS Own Alone Inherit Ended Emit
'''


def small(chk, family):
    """all small worlds of a family, as enumerated by TLC"""
    for v in ('2.0', '3.0.0'):
        ws = chk.model('MC_Links', CFG % (family, v, 'FALSE' if chk.quick else 'TRUE'), timeout=800)['W']
        if chk.quick and len(ws) > 450:
            ws = chk.rng.sample(ws, 450)
        for w in ws:
            docs = {u: dec(d) for u, d in w['docs'].items()}
            for to in [v] if v == '3.0.0' else ['2.0', '3.0.0'] if not chk.quick or chk.rng.random() < .5 else ['2.0']:
                got = observe(chk, docs, w['main'], to, ask=False)
                if got[0] != 'ok':
                    chk.expect(False, 'small world', docs=docs, to=to, got=got)
                    continue
                kids = {tok(f['p']): [f['own'], {(c, (o[1][c][1] or {}).get('summary', [0, ''])[1][:1]) for c in o[1]}]
                        for f in got[1]['finals'] for o in [f['out'][1]] if f['out'][0] == 'ok'}
                want = {tok(f['p']): [f['own'], {tuple(k) for k in f['kids']}] for f in w['fin']}
                at = {s['id']: tok(s['p']) for s in got[1]['sights']}
                end = {(tok(r['p']), 'cycle' if r['end'] == ['err', 'CycleDetectionError'] else at.get(r['end'][1], str(r['end'])) if r['end'][0] == 'ok' else str(r['end'])) for r in got[1]['refs']}
                want2 = {(tok(e['p']), 'cycle' if e['cyc'] else tok(e['last'])) for e in w['ends']}
                if to != v:
                    # places move
                    end, want2 = {tuple(map(moved, x)) for x in end}, {tuple(map(moved, x)) for x in want2}
                ok = end == want2 and (family != 'paths' or {k: x for k, x in kids.items() if k in want} == want and
                                       all(x[0] or k in want for k, x in kids.items()))
                chk.expect(ok, 'small world', docs=docs, to=to, got=dict(kids=str(kids), end=str(end)), spec=dict(kids=str(want), end=str(want2)))


def tok(p):
    return p[0] + '#' + '|'.join(p[1])


def moved(x):
    return x.replace('#definitions|', '#components|schemas|').replace('|schema', '').replace('|content|text/plain', '')

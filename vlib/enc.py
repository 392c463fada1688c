"""python values <-> tagged values of spec/Values.tla

 <<"s",str>> <<"n",repr>> <<"b","true">> <<"z">> <<"a",<<..>>>> <<"o",[k |-> v]>>
anything else becomes <<"?", repr>>, which no specification value equals.
"""


def enc(v):
    if v is None:
        return ['z']
    if isinstance(v, bool):
        return ['b', 'true' if v else 'false']
    if isinstance(v, str):
        return ['s', v]
    if isinstance(v, (int, float)):
        return ['n', repr(v)]
    if isinstance(v, (list, tuple)):
        return ['a', [enc(x) for x in v]]
    if isinstance(v, dict):
        out = {}
        for k, x in v.items():
            out[k if isinstance(k, str) else '?' + repr(k)] = enc(x)
        return ['o', out]
    return ['?', repr(type(v))]


def dec(t):
    k = t[0]
    if k == 'z':
        return None
    if k == 'b':
        return t[1] == 'true'
    if k == 's':
        return t[1]
    if k == 'n':
        return float(t[1]) if ('.' in t[1] or 'e' in t[1]) else int(t[1])
    if k == 'a':
        return [dec(x) for x in t[1]]
    if k == 'o':
        # TLC prints an empty function as an empty sequence
        return {} if not t[1] else {n: dec(x) for n, x in t[1].items()}
    raise ValueError(t)

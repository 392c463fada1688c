"""shared random material"""
NAMES = ['a', 'b', 'Pet', 'PetStore', 'Pets', 'user', 'User', 'id', 'name', 'items', 'get', 'x y', 'a/b', '/', '~', '~1',
         '~0', 'a~b', '~01', 'm~1n', '%', '%20', '50%25', '#', 'a#b', '$ref', '', '0', '1', '10', '007', '{id}', 'é', '漢字',
         'default', 'properties', 'allOf', 'type', '-', '.', '..', 'a.b', 'a b/c~d', 'ü', '"q"', "it's", '\\', '?', 'a?b',
         '!##!', 'path', 'keys', '200', 'x-ext']
PLAIN = ['a', 'b', 'c', 'Pet', 'PetStore', 'Pets', 'user', 'User', 'id', 'name']


def name(r):
    if r.random() < .75:
        return r.choice(NAMES)
    return ''.join(r.choice('ab/~01%# é.') for _ in range(r.randint(0, 6)))


def safe_name(r):
    """a name without characters that have a meaning in addresses or fragments"""
    return r.choice([n for n in NAMES if '#' not in n and '%' not in n])

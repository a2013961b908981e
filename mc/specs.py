"""Families of type specifications used by several checks."""
import itertools

LEAVES = [('c', n) for n in ('int', 'str', 'bool', 'float', 'list', 'dict', 'tuple', 'set', 'bytes', 'object', 'type', 'MyInt', 'A0', 'B0',
                             'C0', 'complex', 'Number', 'Integral', 'Hashable', 'Sized', 'Sequence', 'Mapping', 'Iterable', 'frozenset',
                             'NT', 'Meta', 'deque', 'defaultdict', 'Reg', 'Inst')] + [
    ('any',), ('none',), ('ell',), ('callable',), ('callable2',), ('newtype', ('c', 'int')), ('newtype', ('newtype', ('c', 'str'))),
    ('lit', 1), ('lit', True), ('lit', 1, True), ('lit', 0, False, None), ('lit', 'a', 'b'), ('lit', 'a', b'a', 1), ('lit', 1, 'a', None),
    ('lit', None), ('lit', ''), ('lit', 0), ('lit', False),
    ('type', 'int'), ('type', 'A0'), ('type', 'B0'), ('type', 'object'), ('anytype',), ('type', 'Reg'), ('type', 'Number'), ('type', 'Inst'), ('type', 'type'), ('type', 'Hashable'),
    ('bare', 'List'), ('bare', 'Dict'), ('bare', 'Tuple'), ('bare', 'Type'), ('bare', 'Sequence'), ('bare', 'Iterable'), ('bare', 'Set'),
    ('bare', 'Mapping'), ('bare', 'Deque'),
    ('newtype', ('lit', 1, 'a')), ('newtype', ('type', 'A0')),
]
# leaves that strict checking does not reject at declaration and whose "own type" is meaningful
SMALL = [('c', 'int'), ('c', 'str'), ('c', 'bool'), ('c', 'float'), ('c', 'A0'), ('none',), ('lit', 1, 'a'), ('any',)]


def walk(s):
    yield s
    for x in s[1:]:
        if isinstance(x, tuple) and x and isinstance(x[0], str):
            yield from walk(x)


def styled(s, style):
    return ('ann', s, style)


def children(s):
    """positions of the sub-specifications of a node"""
    k = s[0]
    if k in ('u', 'tup'):
        return list(range(1, len(s)))
    if k in ('opt', 'vtup', 'newtype', 'ann'):
        return [1]
    if k in ('seq', 'gen'):
        return [2]
    if k == 'map':
        return [2, 3]
    return []


def assignments(s, options):
    """every way to annotate each node of s with one of the options (None: no annotation)"""
    ch = children(s)
    for subs in itertools.product(*[list(assignments(s[i], options)) for i in ch]):
        base = list(s)
        for i, x in zip(ch, subs):
            base[i] = x
        for o in options:
            yield tuple(base) if o is None else ('ann', tuple(base), o)

from mc import wide
from mc.alpha import *
from mc.fieldcheck import *
from mc.specs import *

BOUNDS = dict(
    quick=wide.TEXT + '; ' + 'all leaf specs x 60 atoms; every container/tuple spec over 8 leaf types x all element sequences of length <=3 (4 elements, 9 '
          'container kinds); unions of <=3 leaves; nesting depth 3; 5 surroundings of the field',
    thorough='as quick with element sequences of length <=4 over 5 elements, unions of <=4 leaves')
RULE = 'one case = one declared field (spec, where its check style comes from); inside, every value of the alphabet is constructed'
ASSUMPTIONS = ['values outside the alphabet behave like their class in the alphabet']


def wraps(spec):
    """the same checking requested in the class declaration and in the annotation"""
    yield spec, 'check'


def full_check(spec):
    """every (sub)type annotated with check itself, in a class that is hollow by default"""
    k = spec[0]
    if k == 'u':
        return ('ann',) + ((k,) + tuple(full_check(x) for x in spec[1:]),) + ('check',)
    if k in ('tup',):
        return ('ann', (k,) + tuple(full_check(x) for x in spec[1:]), 'check')
    if k == 'vtup':
        return ('ann', (k, full_check(spec[1])), 'check')
    if k == 'opt':
        return ('ann', (k, full_check(spec[1])), 'check')
    if k in ('seq', 'gen'):
        return ('ann', (k, spec[1], full_check(spec[2])), 'check')
    if k == 'map':
        return ('ann', (k, spec[1], full_check(spec[2]), full_check(spec[3])), 'check')
    return ('ann', spec, 'check')


ELEMS = [('c', 'int'), ('c', 'str'), ('none',), ('lit', 1, 'a'), ('u', ('c', 'int'), ('c', 'str')), ('any',), ('c', 'bool'), ('opt', ('c', 'str'))]


def cases(tier):
    yield from wide.cases('C03', tier)
    t = tier == 'thorough'
    n = 4 if t else 3
    for s in LEAVES:
        for how in ('class', 'ann'):
            yield 'leaf', s, how, 0
            yield 'leaf', ('opt', s), how, 0
    for name in SEQ_NAMES:
        for e in ELEMS:
            for how in ('class', 'ann'):
                yield 'seq', ('seq', name, e), how, n
    for e in ELEMS:
        yield 'seq', ('vtup', e), 'class', n
        yield 'seq', ('vtup', e), 'ann', n
    for k in range(0, 4 if t else 3):
        for es in itertools.product(ELEMS[:6] if k < 3 else ELEMS[:4], repeat=k):
            yield 'tup', ('tup',) + es, 'class', 0
            if k < 3:
                yield 'tup', ('tup',) + es, 'ann', 0
    if not t:
        for es in itertools.product(ELEMS[:3], repeat=3):
            yield 'tup', ('tup',) + es, 'class', 0
    yield 'tup', ('tup',) + (('c', 'int'), ('c', 'str')) * 2, 'class', 0
    for name in ('Dict', 'dict', 'DefaultDict', 'Mapping', 'MutableMapping'):
        for a, b in itertools.product(ELEMS[:6], repeat=2):
            yield 'map', ('map', name, a, b), 'class', 2
            if name == 'Dict':
                yield 'map', ('map', name, a, b), 'ann', 2
    U = [('c', 'int'), ('c', 'str'), ('c', 'bool'), ('none',), ('lit', 1, 'a'), ('c', 'A0'), ('type', 'A0'), ('callable',), ('c', 'list'),
         ('c', 'float')]
    for k in (2, 3, 4) if t else (2, 3):
        for es in itertools.combinations(U, k):
            yield 'leaf', ('u',) + es, 'class', 0
            yield 'leaf', ('u',) + es[::-1], 'ann', 0
    for g in ('Iterable', 'Collection', 'Container', 'Reversible', 'Iterator'):
        yield 'leaf', ('gen', g, ('ann', ('c', 'int'), 'hollow')), 'class', 0
        yield 'leaf', ('ann', ('gen', g, ('c', 'int')), 'check'), 'hollow', 0
    for c in CONTEXTS[1:]:
        for s in LEAVES:
            yield 'leaf', s, 'class', 0, c
            yield 'leaf', s, 'ann', 0, c
        for name in SEQ_NAMES:
            for e in ELEMS[:5]:
                yield 'seq', ('seq', name, e), 'class', 2, c
        for es in itertools.product(ELEMS[:6], repeat=2):
            yield 'tup', ('tup',) + es, 'class', 0, c
            yield 'leaf', ('u',) + es, 'ann', 0, c
        for a, b in itertools.product(ELEMS[:3], repeat=2):
            yield 'map', ('map', 'Dict', a, b), 'class', 2, c
    for s in DEEP:
        yield 'deep', s, 'class', 0
        yield 'deep', s, 'ann', 0


SEQ_NAMES = ('List', 'list', 'Set', 'FrozenSet', 'Deque', 'Sequence', 'MutableSequence', 'AbstractSet', 'MutableSet')
I, S = ('c', 'int'), ('c', 'str')
DEEP = [
    ('seq', 'List', ('seq', 'List', I)), ('seq', 'List', ('seq', 'Set', I)), ('seq', 'List', ('tup', I, S)), ('seq', 'Sequence', ('vtup', I)),
    ('map', 'Dict', S, ('seq', 'List', I)), ('map', 'Dict', ('tup', I, I), S), ('map', 'Mapping', I, ('map', 'Dict', I, I)),
    ('tup', ('seq', 'List', I), ('opt', ('seq', 'List', S))), ('u', ('seq', 'List', I), ('seq', 'List', S)), ('opt', ('map', 'Dict', I, I)),
    ('u', ('seq', 'List', I), ('map', 'Dict', I, I), ('vtup', I)), ('seq', 'List', ('u', ('seq', 'List', I), S)),
    ('vtup', ('vtup', ('vtup', I))), ('seq', 'List', ('seq', 'List', ('seq', 'List', ('lit', 1, None)))),
    ('seq', 'List', ('opt', ('type', 'A0'))), ('map', 'Dict', ('type', 'A0'), ('callable',)),
    ('seq', 'FrozenSet', ('seq', 'FrozenSet', I)), ('newtype', ('seq', 'List', I)), ('seq', 'List', ('newtype', I)),
]


def deep_values():
    base = [(l, ATOMS[l]) for l in ('1', "'a'", 'True', 'None', 'A0', 'B0', 'len')]
    lvl1 = list(base)
    for c in ('list', 'tuple', 'set', 'frozenset'):
        lvl1 += list(seqs(base[:4], [c], 0, 2))
    lvl1 += list(maps(base[:2], base[:3], ['dict'], 1, 1))
    lvl1 += list(maps([base[4]], [base[6]], ['dict'], 1, 1))
    yield from lvl1
    pick = [x for x in lvl1 if x[0] in ('list[]', 'list[1]', "list['a']", 'list[1,1]', "list[1,'a']", 'tuple[]', 'tuple[1]', 'tuple[1,1]',
                                        "tuple[1,'a']", 'set[1]', "set['a']", 'frozenset[1]', "frozenset['a']", '1', "'a'", 'None', 'A0',
                                        'list[1,None]', 'dict{1:1}', "dict{'a':1}", "list[None,'a']")]
    for c in ('list', 'tuple', 'frozenset'):
        yield from seqs(pick, [c], 1, 2)
    yield from maps(pick, pick, ['dict'], 1, 1) if False else ()
    hk = [x for x in pick if hashable(x[1])]
    yield from maps(hk, pick, ['dict'], 1, 1)
    p2 = [('[[1]]', lambda: [[1]]), ("[['a']]", lambda: [['a']]), ('[[None],[]]', lambda: [[None], []]), ('[[1],[None]]', lambda: [[1], [None]]),
          ('((1,),)', lambda: ((1,),)), ("(('a',),)", lambda: (('a',),)), ('((1,),(True,))', lambda: ((1,), (True,))), ('[]', list), ('()', tuple)]
    for c in ('list', 'tuple'):
        yield from seqs(p2, [c], 1, 2)


def run(case, ctx):
    if case[0] == '__wide__':
        return wide.run('C03', ctx, case[1])
    kind, spec, how, n, context = (*case, 'plain')[:5]
    if kind == 'leaf':
        vals = ALL
    elif kind == 'seq':
        el = atoms('1', "'a'", 'True', 'None') + (atoms('MyStr') if n > 3 else [])
        vals = itertools.chain(ALL, seqs(el, list(SEQ_CONS), 0, min(n, 3)), seqs(el[:4], ['list', 'tuple', 'deque'], n, n) if n > 3 else (),
                               LONG)
    elif kind == 'tup':
        el = atoms('1', "'a'", 'None', 'True')
        vals = itertools.chain(ALL, seqs(el, ['tuple', 'MyTuple', 'list'], 0, 4), [("NT(1,'a')", lambda: lib.NT(1, 'a')),
                                                                                  ("NT('a',1)", lambda: lib.NT('a', 1))])
    elif kind == 'map':
        vals = itertools.chain(ALL, maps(atoms('1', "'a'", 'None'), atoms('1', "'a'", 'True', 'None'), list(MAP_CONS), 0, 2),
                               [('long', lambda: {1: 1, 2: 2, 3: 'a'}), ('long2', lambda: {1: 1, 2: 2, 'c': 3})])
    else:
        vals = deep_values()
    if how == 'ann':
        spec, default = full_check(spec), 'hollow'
    else:
        default = 'check' if how == 'class' else 'hollow'
    check_spec(ctx, spec, default, vals, context=context)


LONG = [('long ints', lambda: [1, 2, 3, 4, 5, 6]), ('long ints s', lambda: [1, 2, 3, 4, 5, 'a']), ('long strs', lambda: ['a'] * 7),
        ('tuple6', lambda: (1, 2, 3, 4, 5, None)), ('deque6', lambda: deque([1, 2, 3, 4, 5, 6])), ('deque6s', lambda: deque([1, 2, 3, 'a', 5, 6])),
        ('set6', lambda: {1, 2, 3, 4, 5, 6}), ("set6s", lambda: {1, 2, 3, 4, 5, 'a'}), ('str6', lambda: 'abcdef'), ('range9', lambda: range(9))]

from mc import wide
from mc.alpha import *
from mc.fieldcheck import *
from mc.specs import *
from mc.props.c03 import DEEP

BOUNDS = dict(quick=wide.TEXT + '; ' + 'every assignment of {none, hollow, check, strict} to every node of 45 specs of <=3 nodes (and of {none, check} and '
                    '{none, hollow} to 12 of <=5) x 3 class defaults x probe values; with and without a coercer on each node, or a validator on the outermost one; '
                    'each also within 5 surroundings (derived from / inherited through classes of other styles, annotation shared by fields or classes)',
              thorough='as quick, 4-node specs with all 4 options and unions of three annotated unions')
RULE = 'one case = one specification with styles (and possibly a coercer) on its nodes and a class default'
I, S, B = ('c', 'int'), ('c', 'str'), ('c', 'bool')
OPT = (None, 'hollow', 'check', 'strict')
ONE = [I, S, ('c', 'list'), ('c', 'Sequence'), ('c', 'Hashable'), ('none',), ('ell',), ('callable',), ('lit', 1, 'a'), ('type', 'A0'),
       ('bare', 'List'), ('bare', 'Iterable'), ('newtype', I), ('tv',), ('tup',), ('c', 'object')]
TWO = [('seq', 'List', I), ('seq', 'Sequence', I), ('seq', 'FrozenSet', I), ('seq', 'Deque', I), ('vtup', I), ('tup', I), ('opt', I), ('gen', 'Iterable', I),
       ('gen', 'Collection', I), ('gen', 'Reversible', I), ('seq', 'list', I), ('newtype', ('newtype', I)),
       ('seq', 'List', ('newtype', I)), ('seq', 'AbstractSet', I), ('seq', 'List', ('any',)), ('seq', 'List', ('callable',))]
THREE = [('tup', I, I), ('tup', I, S), ('map', 'Dict', I, I), ('map', 'Mapping', I, S), ('map', 'DefaultDict', I, I), ('u', I, S), ('u', I, B),
         ('seq', 'List', ('seq', 'List', I)), ('opt', ('seq', 'List', I)), ('seq', 'List', ('opt', I)), ('vtup', ('vtup', I)),
         ('u', ('seq', 'List', I), S), ('gen', 'Iterable', ('seq', 'List', I)), ('u', I, ('none',)), ('tup', ('seq', 'List', I)), ('seq', 'List', ('tup', I))]
FOUR = [('u', I, S, B), ('tup', I, S, I), ('map', 'Dict', I, ('seq', 'List', I)), ('u', ('seq', 'List', I), ('seq', 'List', S)),
        ('u', ('ann', ('u', I, S), 'check'), ('c', 'float')), ('seq', 'List', ('map', 'Dict', S, I)), ('tup', ('opt', I), S),
        ('opt', ('map', 'Dict', I, I)), ('u', ('vtup', I), ('seq', 'Set', I)), ('seq', 'List', ('u', I, S)), ('u', I, ('opt', S), ('c', 'float'))]
# unions inside annotated unions: the inner annotation is the more specific one
NEST = [('ann', ('u', ('ann', ('u', ('ann', I, a) if a else I, S), b) if b else ('u', I, S), ('ann', ('c', 'float'), c) if c else ('c', 'float')), d)
        if d else ('u', ('ann', ('u', ('ann', I, a) if a else I, S), b) if b else ('u', I, S), ('ann', ('c', 'float'), c) if c else ('c', 'float'))
        for a, b, c, d in itertools.product(OPT, repeat=4)]


def with_coercer(s, default):
    """put a coercer on each single node in turn"""
    yield add(s)
    for i in children(s):
        for sub in with_coercer(s[i], default):
            yield s[:i] + (sub,) + s[i + 1:]


def add(s):
    return s + (('C', 'k'),) if s[0] == 'ann' else ('ann', s, ('C', 'k'))


def validated(s):
    """with a validator that changes nothing on the outermost node: it must not matter"""
    inner = s
    while inner[0] in ('ann', 'newtype'):
        inner = inner[1]
    if inner[0] not in ('u', 'opt'):
        yield s + (('V', 'id'),) if s[0] == 'ann' else ('ann', s, ('V', 'id'))
        if s[0] == 'ann':
            yield s[:2] + (('V', 'id'),) + s[2:]


def cases(tier):
    yield from wide.cases('C05', tier)
    t = tier == 'thorough'
    for d in ('hollow', 'check', 'strict'):
        for s in ONE + TWO + THREE:
            for a in assignments(s, OPT):
                for x in validated(a):
                    yield x, d
        for s in ONE + TWO + THREE:
            for a in assignments(s, OPT):
                yield a, d
        for s in FOUR:
            if t:
                for a in assignments(s, OPT):
                    yield a, d
            else:
                for o in ((None, 'check'), (None, 'hollow'), (None, 'strict'), ('check', 'hollow')):
                    for a in assignments(s, o):
                        yield a, d
        for s in dict.fromkeys(NEST):
            yield s, d
        for s in ONE + TWO + (THREE if t else [('u', I, S), ('tup', I, S), ('map', 'Dict', I, S)]):
            for a in assignments(s, OPT):
                for c in with_coercer(a, d):
                    if c[0] != 'ann' or ('ann' not in [c[1][0]]):
                        yield c, d
        # the same field within other surroundings: parents and children of other default styles, an annotation used several times, ...
        for c in CONTEXTS[1:]:
            for s in ONE + TWO + THREE:
                for a in assignments(s, OPT):
                    yield a, d, c
            for s in ONE[:6] + TWO[:3]:
                for a in assignments(s, OPT):
                    for x in with_coercer(a, d):
                        if x[0] != 'ann' or ('ann' not in [x[1][0]]):
                            yield x, d, c
        # several styles on one node: the last one written is the most specific
        for x, y in itertools.product(('hollow', 'check', 'strict'), repeat=2):
            yield ('ann', I, x, y), d
            yield ('ann', ('ann', I, x), y), d
            yield ('ann', ('opt', I), x, y), d
            yield ('seq', 'List', ('ann', I, x, y)), d
            yield ('newtype', ('ann', I, x)), d
            yield ('ann', ('newtype', ('ann', I, x)), y), d
            yield ('ann', ('seq', 'List', ('newtype', ('ann', I, x))), y), d


PROBE = atoms('1', 'True', "'a'", 'MyStr', 'None', '...', '1.5', 'len', 'A0', 'A0()', 'object()', '[]', '()', '{}', 'set()', 'frozenset()', 'deque()',
              'MyList', 'MyTuple', 'MyDict', 'defaultdict', '[1]', "['a']", '(1,)', '{1:2}', '{1}', 'NT', 'range', 'nan') + \
        [('[T]', lambda: [True]), ('(T,)', lambda: (True,)), ("('a',)", lambda: ('a',)), ('(1,"a")', lambda: (1, 'a')), ('(1,1)', lambda: (1, 1)),
         ('(T,"a")', lambda: (True, 'a')), ('("a",1)', lambda: ('a', 1)), ('{T:1}', lambda: {True: 1}), ('{1:T}', lambda: {1: True}),
         ('{"a":1}', lambda: {'a': 1}), ('{1:"a"}', lambda: {1: 'a'}), ('[[1]]', lambda: [[1]]), ('[["a"]]', lambda: [['a']]), ('[[T]]', lambda: [[True]]),
         ('[None,1]', lambda: [None, 1]), ('fs1', lambda: frozenset([1])), ('fsa', lambda: frozenset(['a'])), ('dq', lambda: deque([1])),
         ('dqa', lambda: deque(['a'])), ('dd', lambda: defaultdict(int, {1: 1})), ('dda', lambda: defaultdict(int, {1: 'a'})), ('{1:[1]}', lambda: {1: [1]}),
         ('{1:[T]}', lambda: {1: [True]}), ('[{"a":1}]', lambda: [{'a': 1}]), ('((1,),)', lambda: ((1,),)), ('(("a",),)', lambda: (('a',),)),
         ('MyList1', lambda: lib.MyList([1])), ('MyLista', lambda: lib.MyList(['a'])), ('MyTuple', lambda: lib.MyTuple((1,))), ('(1,"a",1)', lambda: (1, 'a', 1)),
         ('([1],)', lambda: ([1],)), ('(None,"a")', lambda: (None, 'a')), ('[(1,)]', lambda: [(1,)]), ('[("a",)]', lambda: [('a',)]),
         ('iter', lambda: iter([1])), ('len2', lambda: print)]
TABLE = {'k': lambda v: 7 if v == 'a' else v, 'id': lambda v: v}


def run(case, ctx):
    if case[0] == '__wide__':
        return wide.run('C05', ctx, case[1])
    spec, default, context = (*case, 'plain')[:3]
    check_spec(ctx, spec, default, PROBE, TABLE, log='none', context=context)

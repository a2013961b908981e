from mc import wide
from mc.alpha import *
from mc.fieldcheck import *
from mc.specs import *
from mc.props.c03 import SEQ_NAMES, DEEP, deep_values, ELEMS, LONG

BOUNDS = dict(quick=wide.TEXT + '; ' + 'every leaf spec strict x 60 atoms; every check/strict assignment to every node of 60 composite specs (<=4 nodes) x '
                    'element sequences of length <=3 in 10 container kinds (subclass containers included); depth-3 specs all strict; 5 surroundings of the field',
              thorough='as quick with sequences of length <=4 and 5 elements')
RULE = 'one case = one specification with a style on each node; inside, every value of the alphabet is constructed'
I, S, B = ('c', 'int'), ('c', 'str'), ('c', 'bool')
STRICT_LEAVES = [s for s in LEAVES if s not in (('any',),)]
COMP = [('seq', n, e) for n in ('List', 'Set', 'FrozenSet', 'Deque', 'list', 'Sequence', 'AbstractSet', 'MutableSequence')
        for e in (I, B, ('c', 'A0'))] + \
       [('vtup', I), ('vtup', B), ('tup', I), ('tup', I, B), ('tup', I, S, B), ('tup',), ('opt', I), ('u', I, S), ('u', I, B), ('u', I, B, S),
        ('u', ('c', 'A0'), ('c', 'B0')), ('u', ('c', 'list'), ('c', 'tuple'))] + \
       [('map', 'Dict', a, b) for a in (I, B) for b in (I, S)] + [('map', 'DefaultDict', I, I), ('map', 'Mapping', I, I)] + \
       [('opt', ('seq', 'List', I)), ('seq', 'List', ('opt', I)), ('seq', 'List', ('seq', 'List', I)), ('map', 'Dict', I, ('seq', 'List', B)),
        ('tup', I, ('vtup', B)), ('u', ('seq', 'List', I), ('seq', 'List', S)), ('seq', 'List', ('lit', 1, 'a')), ('seq', 'List', ('type', 'A0'))]


def cases(tier):
    yield from wide.cases('C04', tier)
    n = 4 if tier == 'thorough' else 3
    for s in STRICT_LEAVES:
        yield s, 'strict', 'leaf', 0
        yield ('ann', s, 'strict'), 'hollow', 'leaf', 0
        yield ('ann', s, 'strict'), 'check', 'leaf', 0
        yield ('ann', s, 'check'), 'strict', 'leaf', 0
    yield ('any',), 'check', 'leaf', 0
    for s in COMP:
        yield s, 'strict', 'comp', n
        for a in assignments(s, ('check', 'strict')):
            yield a, 'hollow', 'comp', n
        for a in assignments(s, (None, 'strict')):
            yield a, 'check', 'comp', n
    for c in CONTEXTS[1:]:
        for s in STRICT_LEAVES:
            yield s, 'strict', 'leaf', 0, c
            yield ('ann', s, 'strict'), 'hollow', 'leaf', 0, c
        for s in COMP:
            yield s, 'strict', 'comp', 2, c
    for s in DEEP:
        if ('any',) not in walk(s):
            yield s, 'strict', 'deep', 0


SUBS = [('MyDict{1:1}', lambda: lib.MyDict({1: 1})), ('MyDict{T:1}', lambda: lib.MyDict({True: 1})), ('{1:T}', lambda: {1: True}),
        ('{T:1}', lambda: {True: 1}), ('{MyInt:1}', lambda: {lib.MyInt(3): 1}), ('{1:MyInt}', lambda: {1: lib.MyInt(1)}),
        ('OD', lambda: OrderedDict({1: 1})), ('dd', lambda: defaultdict(int, {1: 1})), ('ddT', lambda: defaultdict(int, {1: True})),
        ('{1:"a"}', lambda: {1: 'a'}), ('{1:[True]}', lambda: {1: [True]}), ('{1:[1]}', lambda: {1: [1]}), ('{2:1,T:1}', lambda: {2: 1, True: 1}),
        ('{1:1,2:T}', lambda: {1: 1, 2: True}), ('[[1],[T]]', lambda: [[1], [True]]), ('[[1],[1]]', lambda: [[1], [1]]),
        ('[[1],MyList]', lambda: [[1], lib.MyList([1])]), ('[1,1,1,T]', lambda: [1, 1, 1, True]), ('(1,(T,))', lambda: (1, (True,))),
        ('(1,(1,))', lambda: (1, (1,))), ('(T,(T,))', lambda: (True, (True,))), ('NT1', lambda: lib.NT(1, True)), ('NT', lambda: lib.NT(1, 1)),
        ('(1,"a",T)', lambda: (1, 'a', True)), ('(1,"a",1)', lambda: (1, 'a', 1)), ('(T,"a",T)', lambda: (True, 'a', True)),
        ('[A0()]', lambda: [lib.A0()]), ('[A0(),B0()]', lambda: [lib.A0(), lib.B0()]), ('{B0()}', lambda: {lib.B0()}), ('[A0]', lambda: [lib.A0]),
        ('[B0,A0]', lambda: [lib.B0, lib.A0]), ('[WithMeta]', lambda: [lib.WithMeta])]


def run(case, ctx):
    if case[0] == '__wide__':
        return wide.run('C04', ctx, case[1])
    spec, default, kind, n, context = (*case, 'plain')[:5]
    if kind == 'leaf':
        vals = ALL
    elif kind == 'comp':
        el = atoms('1', 'True', "'a'", 'MyInt1')
        vals = itertools.chain(ALL, seqs(el, list(SEQ_CONS), 0, 2), seqs(el, ['list', 'tuple', 'MyTuple', 'set', 'deque'], 3, n), SUBS, LONG)
    else:
        vals = itertools.chain(deep_values(), SUBS)
    check_spec(ctx, spec, default, vals, context=context)

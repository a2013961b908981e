from mc import wide
from mc.alpha import *
from mc.fieldcheck import *
from mc.specs import *

BOUNDS = dict(quick=wide.TEXT + '; ' + 'all unions of <=3 of 16 alternatives in every order, all 4-alternative unions of 9 in 6 orders, duplicated and nested variants, 3 ways '
                    'to request checking, x 22 values; 5 surroundings of the field for all pairs',
              thorough='all unions of <=4 of 16 alternatives in every order, and of 5 of 7 in 10 orders')
RULE = 'one case = one ordered union of alternatives; inside: every value (every case with equal alternatives has the same oracle, so all orders agree)'
I, S, B, F = ('c', 'int'), ('c', 'str'), ('c', 'bool'), ('c', 'float')
ALTS = [
    I, S, ('none',),
    ('ann', F, ('C', 'ten')),                        # coerces to a fresh float
    ('ann', I, ('C', 'ten_i')), ('ann', ('c', 'MyInt'), ('C', 'shared')), ('ann', B, ('C', 'shared_b')),
    ('ann', I, 'strict'), ('ann', I, ('V', 'pos')),   # validator that rejects
    ('ann', I, ('V', 'inc')),                        # validator that changes
    ('ann', S, 'hollow'), ('lit', 1, 'a'), ('seq', 'List', I), ('ann', ('seq', 'List', ('ann', S, ('C', 'shared_s')))),
    ('c', 'Hashable'), ('ann', ('c', 'object'), ('V', 'eqv')),
]
ALTS[13] = ('seq', 'List', ('ann', S, ('C', 'shared_s')))
EXTRA = [('c', 'A0'), ('c', 'B0'), ('ann', ('c', 'A0'), 'strict'), ('type', 'A0'), ('any',), ('ann', ('any',), 'hollow'), ('callable',),
         ('map', 'Dict', I, I), ('tup', I, I), ('ann', S, ('C', 'ten')), ('ann', S, ('C', 'shared_s')), B, ('c', 'MyInt'), ('c', 'list'),
         ('ann', I, ('C', 'shared'), ('V', 'pos')), ('newtype', I),
         # results that look like no result, like the argument, or like a failure
         ('ann', I, ('V', 'tonone')), ('ann', ('c', 'list'), ('C', 'lst'), ('V', 'orig')), ('ann', I, ('C', 'len'), ('V', 'orig')), ('ann', ('none',), ('V', 'five')), ('ann', ('lit', None), ('V', 'five')),
         ('ann', ('lit', 1, 'a', None), ('V', 'tonone')), ('ann', F, ('C', 'ten'), ('V', 'tonone')), ('ann', I, ('V', 'false')), ('ann', F, ('C', 'ten'), ('V', 'ell')), ('ann', I, ('C', 'len'), ('V', 'ni')),
         # results that depend on the value
         ('ann', I, ('V', 'flip')), ('ann', I, ('C', 'len'), ('V', 'pos')), ('ann', ('seq', 'List', ('ann', I, ('V', 'flip'))))]
EXTRA[-1] = ('seq', 'List', ('ann', I, ('V', 'flip')))


class Boom(Exception):
    pass


def boom(v):
    raise Boom


SH = MyInt(77)


def shared(v):
    if isinstance(v, (str, float)):
        return SH
    raise TypeError


def pos(v):
    if v < 0:
        raise ValueError
    return v


TABLE = {
    'ten': lambda v: float(v), 'ten_i': lambda v: int(v) + 10 ** 9, 'shared': shared, 'shared_b': lambda v: v == 'a', 'pos': pos,
    'inc': lambda v: v + 10 ** 9, 'shared_s': lambda v: {True: 'S!', 2: 'two'}[v], 'eqv': lambda v: list(v) if isinstance(v, list) else v,
    'boom': boom, 'tonone': lambda v: None, 'lst': list, 'len': lambda v: len(v), 'orig': lambda v: 'a', 'five': lambda v: 5, 'false': lambda v: False, 'flip': lambda v: v if v <= 1 else v + 10 ** 9, 'ell': lambda v: ..., 'ni': lambda v: NotImplemented,
}
VALUES = atoms('0', '1', '-1', 'True', 'False', '1.0', '1.5', "'a'", "'1'", "''", 'MyStr', 'MyInt1', 'None', '[]', '[1]', "['a']", 'A0()', 'B0()', 'B0', 'len',
               '(1,)', '{1:2}', 'object()', '2') + [('[True]', lambda: [True]), ('[2]', lambda: [2]), ('(1,1)', lambda: (1, 1)), ('(1,T)', lambda: (1, True)), ('big', lambda: 10 ** 12)]


def styled_union(alts, how):
    if how == 'class':
        return ('u',) + alts, 'check'
    if how == 'outer':
        return ('ann', ('u',) + alts, 'check'), 'hollow'
    if how == 'strict':
        return ('ann', ('u',) + alts, 'strict'), 'check'
    raise AssertionError


def cases(tier):
    yield from wide.cases('C08', tier)
    t = tier == 'thorough'
    for n in range(2, 5 if t else 4):
        for cs in itertools.combinations(ALTS, n):
            for p in itertools.permutations(cs):
                yield styled_union(p, 'class')
    if not t:
        for cs in itertools.combinations(ALTS[:9], 4):
            for p in (cs, cs[::-1], cs[2:] + cs[:2], (cs[1], cs[3], cs[0], cs[2]), (cs[3], cs[0], cs[1], cs[2]), (cs[0], cs[2], cs[1], cs[3])):
                yield styled_union(p, 'class')
    else:
        for cs in itertools.combinations(ALTS[:7], 5):
            for i in range(5):
                p = cs[i:] + cs[:i]
                yield styled_union(p, 'class')
                yield styled_union(p[::-1], 'class')
    for c in CONTEXTS[1:]:
        for a, b in itertools.permutations(ALTS, 2):
            yield (*styled_union((a, b), 'class'), c)
    every = ALTS + EXTRA
    for a, b in itertools.permutations(every, 2):
        yield styled_union((a, b), 'class')
        if not any(x == ('c', 'Hashable') or has_tv(x) for x in (a, b)):
            yield styled_union((a, b), 'strict')
        if not any(inner_checked(x) for x in (a, b)):
            yield styled_union((a, b), 'outer')
    for a, b, c in itertools.permutations([I, S, ('none',), ALTS[3], ALTS[5], ALTS[8], ALTS[11], B, ('c', 'A0')], 3):
        yield styled_union((a, b, c), 'outer')
    # nested unions: typing flattens plain ones, an annotated one keeps its own resolution
    for a, b, c in itertools.permutations(ALTS[:12], 3):
        yield ('u', a, ('u', b, c)), 'check'
        yield ('u', ('ann', ('u', b, c), 'check'), a), 'check'
    for a, b in itertools.permutations(ALTS[:12], 2):
        yield ('u', a, b, a), 'check'
        yield ('opt', ('u', a, b)), 'check'
        yield ('u', ('opt', a), ('opt', b)), 'check'
    # unions inside containers and tuples
    for a, b in itertools.permutations(ALTS[:12], 2):
        yield ('seq', 'List', ('u', a, b)), 'check'
        yield ('tup', ('u', a, b), ('u', b, a)), 'check'
        yield ('map', 'Dict', S, ('u', a, b)), 'check'
    # coercers and validators given to the union apply to each alternative
    for a, b in itertools.permutations([I, S, B, ('none',), F, ('lit', 1, 'a'), ('ann', I, 'strict'), ('ann', S, ('C', 'shared_s'))], 2):
        for toks in ((('C', 'shared'),), (('V', 'pos'),), (('C', 'boom'), ('C', 'shared')), (('V', 'inc'),), (('C', 'shared'), ('V', 'pos'))):
            yield ('ann', ('u', a, b), 'check') + toks, 'hollow'
            yield ('ann', ('u', a, ('ann', b, ('C', 'ten')))) + toks, 'check'


def inner_checked(s):
    return s[0] in ('seq', 'map', 'tup') or s == ('c', 'Hashable')


def has_tv(s):
    return s[0] == 'newtype' and False


def run(case, ctx):
    if case[0] == '__wide__':
        return wide.run('C08', ctx, case[1])
    spec, default, context = (*case, 'plain')[:3]
    env = Env(TABLE)
    d = declare(ctx, spec, default, env, context=context)
    if d is None:
        return
    cls, node = d
    k = spec[0] if spec[0] != 'ann' else spec[1][0]
    vals = VALUES
    if k == 'seq':
        vals = [(f'[{l}]', lambda m=m: [m()]) for l, m in VALUES] + [('mix', lambda: [1, 'a', None, 1.5, 'a', True]), ('mix2', lambda: ['a', 'b', 'a'])]
    elif k == 'tup':
        vals = [(f'({l},{l})', lambda m=m: (m(), m())) for l, m in VALUES] + [(f'({l},{n})', lambda m=m, o=o: (m(), o())) for l, m in VALUES[1:9]
                                                                           for n, o in VALUES[1:9]]
    elif k == 'map':
        vals = [(f'{{a:{l}}}', lambda m=m: {'a': m()}) for l, m in VALUES]
    for label, make in vals:
        ctx.state(spec, default, label, context)
        check_value(ctx, cls, node, env, label, make, spec, 'none')

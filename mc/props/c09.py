import typing
from collections import UserList, UserDict

from mc import wide
from mc.alpha import *
from mc.fieldcheck import *
from mc.specs import *

BOUNDS = dict(quick=wide.kinds.TEXT + '; ' + 'every pattern of {kept, coerced, replaced by an equal object, rejected} per element up to length 5 (7 for two-way patterns) x 20 container '
                    'kinds x the generic hints that admit them; mappings up to 3 entries with independent key/value patterns; nesting depth 3; repeated objects up to length 4; '
                    'containers of 26 sizes up to 2000 with a deviation at each kind of position',
              thorough='patterns up to length 6 (9 for two-way), mappings up to 4 entries')
RULE = 'one case = type hint and container kind; inside: every pattern; stored object, call log and the supplied container are compared'
ASSUMPTIONS = ['container classes whose constructor does not accept their elements are outside the alphabet']


def proc(v):
    """the element validator: what happens to an element depends on its value alone"""
    if isinstance(v, str):
        return {'k': v, 'r': 'R', 'q': 'QQ', '': '', 'R': 'R2'}.get(v, v)
    if isinstance(v, bool):
        return v
    if v >= 900:
        raise KeyError(v)
    if v >= 500:
        return float(v)      # equal but another object
    if v >= 100:
        return -v            # replaced
    return v


def coerce(v):
    if isinstance(v, str) and v[:1] == 'c':
        return int(v[1:])
    raise LookupError(v)


TABLE = {'p': proc, 'c': coerce, 'bytes': lambda v: (v + 1) % 256, 'kk': lambda v: v.upper(), 'dedup': lambda v: 'same', 'ch': lambda v: v.swapcase()}
EL = ('ann', ('c', 'int'), ('C', 'c'), ('V', 'p'))
SETS = ('set', 'MySet', 'frozenset', 'MyFrozen')
BIG = ('ann', ('c', 'int'), ('C', 'c'), ('V', 'big'))
K, C, Q, X = 'K', 'C', 'Q', 'X'


def elem(pat, i):
    """the i-th element of a pattern (distinct values so that sets keep their size)"""
    if pat == K:
        return 1 + i
    if pat == C:
        return f'c{20 + i}'
    if pat == Q:
        return 500 + i
    if pat == 'R':
        return 100 + i
    if pat == X:
        return 900 + i
    if pat == 'Y':
        return None
    if pat == 'T':
        return True
    raise AssertionError(pat)


class SlotList(list):
    __slots__ = ('tag',)


class NDeque(deque):
    pass


class MyFrozen(frozenset):
    pass


CONS = {
    'list': list, 'MyList': lib.MyList, 'SlotList': SlotList, 'tuple': tuple, 'MyTuple': lib.MyTuple, 'set': set, 'MySet': lib.MySet, 'frozenset': frozenset,
    'MyFrozen': MyFrozen, 'deque': deque, 'dequelen': lambda x: deque(x, max(1, len(x))), 'deque9': lambda x: deque(x, 9), 'NDeque': lambda x: NDeque(x, 9),
    'UserList': UserList,
}
HINTS = {
    'List': ('list', 'MyList', 'SlotList'), 'list': ('list', 'MyList'), 'Sequence': ('list', 'MyList', 'tuple', 'MyTuple', 'deque', 'dequelen', 'deque9', 'NDeque', 'UserList'),
    'MutableSequence': ('list', 'deque', 'dequelen', 'NDeque', 'UserList', 'MyList'), 'Set': ('set', 'MySet'), 'set': ('set',), 'FrozenSet': ('frozenset', 'MyFrozen'),
    'frozenset': ('frozenset',), 'AbstractSet': ('set', 'frozenset', 'MySet', 'MyFrozen'), 'MutableSet': ('set', 'MySet'), 'Deque': ('deque', 'dequelen', 'deque9', 'NDeque'),
    'vtup': ('tuple', 'MyTuple'),
}


# sizes around powers of two and beyond, where an implementation may switch to another way
SIZES = (8, 15, 16, 17, 31, 32, 33, 50, 63, 64, 65, 99, 100, 101, 127, 128, 129, 200, 255, 256, 257, 500, 513, 1000, 1025, 2000)


def long_elem(pat, i):
    return {K: -i, C: f'c{-i - 3000}', Q: 500 + i % 400, 'R': 100 + i % 400, X: 900, '0': 0, 'c': 'c4'}[pat]


def long_patterns(n, hashed):
    """mostly uniform patterns with every kind of deviation at the first, a middle, and the last position; and periodic ones"""
    yield K * n
    yield C * n
    for d in (C, 'R', Q, X):
        for at in {0, 1, n // 2, n - 2, n - 1}:
            yield K * at + d + K * (n - at - 1)
            if d != X:
                yield K * at + d * (n - at)
    yield C * (n - 1) + X
    if not hashed:
        yield '0' * n
        yield 'c' * n
        yield 'R' * n
        yield Q * n
        yield ('0' + K + 'c' + 'R') * (n // 4) + '0'
        yield '0' + K * (n - 2) + '0'
        yield '0' + 'R' * (n - 2) + '0'
        yield 'c' + K * (n - 2) + 'c'


def cases(tier):
    yield from wide.cases('C09', tier)
    t = tier == 'thorough'
    n = 6 if t else 5
    for h, cons in HINTS.items():
        for c in cons:
            yield 'seq', h, c, 'KCQX', n if c in ('list', 'tuple', 'deque9', 'set') else n - 1
            yield 'seq', h, c, 'KR', 9 if t else 7
            yield 'seq', h, c, 'KRYT', 4
            for x in CONTEXTS[1:]:
                yield 'seq', h, c, 'KCQX', 3, x
    for k in range(1, 6 if t else 5):
        yield 'tup', k
    for h in ('Dict', 'dict', 'Mapping', 'MutableMapping', 'DefaultDict'):
        for c in ('dict', 'MyDict', 'OrderedDict', 'defaultdict', 'defaultdict0', 'Counter', 'ChainMap', 'MyDD'):
            if h == 'DefaultDict' and c not in ('defaultdict', 'defaultdict0', 'MyDD') or (c == 'ChainMap' and h in ('Dict', 'dict')):
                continue
            yield 'map', h, c, 3 if not t else 4
    for i in range(len(NESTED)):
        for x in CONTEXTS:
            yield 'nested', i, x
    for h, cons in HINTS.items():
        for c in cons:
            yield 'repeat', h, c, 5 if t else 4
            for size in SIZES if t or c in ('list', 'tuple', 'dequelen') else SIZES[::3]:
                yield 'long', h, c, size
    for h in ('Dict', 'Mapping', 'DefaultDict'):
        for size in SIZES if t else SIZES[::2]:
            yield 'longmap', h, 'defaultdict' if h == 'DefaultDict' else 'dict', size
    for size in SIZES:
        yield 'longstr', 'Sequence', 'str', size
    yield 'str', 'Sequence'
    yield 'dedup',
    yield 'chars',


class MyDD(defaultdict):
    pass


MAPS = dict(MAP_CONS, MyDD=lambda x: MyDD(int, x))
NESTED = [
    (('seq', 'List', ('seq', 'List', EL)), lambda a, b: [[a], [b], [a, b]]), (('seq', 'List', ('vtup', EL)), lambda a, b: [(a,), (b, a)]),
    (('map', 'Dict', EL, ('seq', 'List', EL)), lambda a, b: {a: [b], 'c3': [a, b]}), (('vtup', ('map', 'Dict', ('c', 'str'), EL)), lambda a, b: ({'x': a, 'y': b}, {})),
    (('tup', ('seq', 'List', EL), EL), lambda a, b: ([a, 5], b)), (('opt', ('seq', 'List', EL)), lambda a, b: [a, b]),
    (('seq', 'List', ('opt', EL)), lambda a, b: [a, None, b]), (('seq', 'Deque', ('seq', 'FrozenSet', EL)), lambda a, b: deque([frozenset([a]), frozenset([b, 3])], 2)),
    (('seq', 'List', ('seq', 'List', ('seq', 'List', EL))), lambda a, b: [[[a], []], [[b]]]), (('map', 'Mapping', ('tup', EL, EL), EL), lambda a, b: {(a, b): a, (1, 2): b}),
    (('map', 'DefaultDict', ('c', 'str'), ('seq', 'List', EL)), lambda a, b: defaultdict(list, {'a': [a, b]})),
    (('seq', 'FrozenSet', ('vtup', EL)), lambda a, b: frozenset([(a,), (b, 7)])),
    (('tup', ('tup', EL, EL), ('tup', EL)), lambda a, b: ((a, 1), (b,))), (('u', ('seq', 'List', EL), ('c', 'str')), lambda a, b: [a, b]),
    (('ann', ('seq', 'List', ('ann', ('seq', 'List', EL), ('V', 'id'))), ('V', 'id')), lambda a, b: [[a], [b]]),
]
TABLE['id'] = lambda v: v
TABLE['big'] = lambda v: v if v > 10 ** 9 else proc(v)
EL_ALL = [1, 2, 'c4', 100, 500, 900, None, True, 101, 'zz']


def run(case, ctx):
    if case[0] == '__wide__':
        return wide.run('C09', ctx, case[1])
    kind = case[0]
    if kind == 'seq':
        _, h, c, pats, n, context = (*case, 'plain')[:6]
        spec = ('vtup', EL) if h == 'vtup' else ('seq', h, EL)
        vals = []
        for k in range(n + 1):
            for pat in itertools.product(pats, repeat=k):
                if c in ('set', 'MySet', 'frozenset', 'MyFrozen') and pat.count('T') > 1:
                    continue
                vals.append((f'{c}{"".join(pat)}', lambda pat=pat: CONS[c]([elem(p, i) for i, p in enumerate(pat)])))
        return go(ctx, spec, vals, context=context)
    if kind == 'repeat':
        # the same objects, or equal ones, several times
        _, h, c, n = case
        same = {'S': 'c' + str(44), 'O': 10 ** 30}
        vals = []
        for k in range(2, n + 1):
            for pat in itertools.product('1cRQXSO', repeat=k):
                if len(set(pat)) == k and k > 2 or c in SETS and len(set(pat)) < k:
                    continue
                vals.append((f'{c}{"".join(pat)}', lambda pat=pat: CONS[c]([{'1': 1, 'c': 'c' + str(len('four')), 'R': 100, 'Q': int('500'), 'X': 900, **same}[p] for p in pat])))
        return go(ctx, ('vtup', EL) if h == 'vtup' else ('seq', h, BIG), vals)
    if kind == 'long':
        _, h, c, n = case
        return go(ctx, ('vtup', EL) if h == 'vtup' else ('seq', h, EL), [(f'{c} {p[:4]}..x{n} #{i}', lambda p=p: CONS[c]([long_elem(x, j) for j, x in enumerate(p)]))
                                                                       for i, p in enumerate(long_patterns(n, c in SETS))])
    if kind == 'longmap':
        _, h, c, n = case
        vals = [(f'{c} {p[:4]}..x{n} {w} #{i}', lambda p=p, w=w: MAPS[c]([(long_elem(x, j), 5) if w == 'key' else (-j, long_elem(x, j)) if w == 'value' else (long_elem(x, j),) * 2
                                                                      for j, x in enumerate(p)]))
                for w in ('key', 'value', 'both') for i, p in enumerate(long_patterns(n, w != 'value'))]
        return go(ctx, ('map', h, EL, EL), vals, 'projected')
    if kind == 'longstr':
        n = case[3]
        vals = [(f'{a}..x{n} {at}', lambda a=a, at=at: ('1' * at + a + '1' * (n - at - 1))) for a in ('1', 'a') for at in (0, n // 2, n - 1)] + [('all', lambda: 'aB' * (n // 2))]
        return go(ctx, ('seq', 'Sequence', ('ann', ('c', 'str'), ('V', 'ch'))), vals)
    if kind == 'tup':
        k = case[1]
        vals = [(f'{c}{"".join(pat)}', lambda pat=pat, c=c: CONS[c]([elem(p, i) for i, p in enumerate(pat)]))
                for c in ('tuple', 'MyTuple') for m in (k - 1, k, k + 1) for pat in itertools.product('KCQXT', repeat=m)]
        if k == 2:
            vals += [(f'NT{"".join(pat)}', lambda pat=pat: lib.NT(elem(pat[0], 0), elem(pat[1], 1))) for pat in itertools.product('KCQXRT', repeat=2)]
        go(ctx, ('tup',) + (EL,) * k, vals)
        # a different type at each position
        mixed = ('tup',) + ((EL, ('c', 'str'), ('opt', EL), ('lit', 1, 'c1'), EL) * 1)[:k]
        return go(ctx, mixed, [(repr(p), lambda p=p: tuple(p)) for p in itertools.product([1, 'c4', 'a', None, 100], repeat=k)][:3200])
    if kind == 'map':
        _, h, c, n = case
        ks = [(1, 'K'), ('c30', 'C'), (102, 'R'), (502, 'Q'), (905, 'X')]
        vs = [3, 'c7', 107, 507, 907]
        for kf, vf in ((EL, EL), (EL, ('c', 'object')), (('ann', ('any',), 'hollow'), EL), (EL, ('ann', ('any',), 'hollow'))):
            vals = []
            for m in range(n + 1):
                for kk in itertools.permutations(ks, m) if m <= 2 else itertools.combinations(ks, m):
                    for vv in itertools.product(vs if m <= 2 else vs[:3], repeat=m):
                        vals.append((f'{c}{kk}{vv}', lambda kk=kk, vv=vv: MAPS[c]([(a, b) for (a, _), b in zip(kk, vv)])))
            # keys which collide once processed: the last one wins
            vals += [('coll', lambda: MAPS[c]([(1, 3), ('c1', 'c7')])), ('coll2', lambda: MAPS[c]([('c1', 'c7'), (1, 3), ('c01', 4)]))]
            go(ctx, ('map', h, kf, vf), vals, 'projected')
        return
    if kind == 'nested':
        spec, f = NESTED[case[1]]
        return go(ctx, spec, [(f'{a!r},{b!r}', lambda a=a, b=b: f(a, b)) for a in EL_ALL for b in EL_ALL], 'projected', case[2])
    if kind == 'dedup':
        for spec in (('seq', 'Set', ('ann', ('c', 'str'), ('V', 'dedup'))), ('seq', 'List', ('ann', ('c', 'str'), ('V', 'dedup'))),
                     ('seq', 'AbstractSet', ('ann', ('c', 'str'), ('V', 'kk'))), ('seq', 'FrozenSet', ('ann', ('c', 'str'), ('V', 'kk')))):
            vals = [(f'{con.__name__}{c}', lambda c=c, con=con: con(c)) for n in range(4) for c in itertools.product(['a', 'b', 'A', 'same'], repeat=n)
                    for con in (set, frozenset, list)]
            go(ctx, spec, vals)
        for kf in ('dedup', 'kk'):
            go(ctx, ('map', 'Dict', ('ann', ('c', 'str'), ('V', kf)), ('c', 'int')),
               [(f'{c}', lambda c=c: {k: i for i, k in enumerate(c)}) for n in range(5) for c in itertools.permutations(['a', 'A', 'b', 'same'], n)], 'projected')
        return
    if kind == 'chars':
        b = ('seq', 'Sequence', ('ann', ('c', 'int'), ('V', 'bytes')))
        go(ctx, b, [(repr(x), lambda x=x: bytes(x)) for n in range(4) for x in itertools.product([0, 1, 255], repeat=n)] +
           [(f'ba{x!r}', lambda x=x: bytearray(x)) for n in range(3) for x in itertools.product([0, 1, 255], repeat=n)])
        return
    # strings as sequences of one-character strings
    S = ('ann', ('c', 'str'), ('V', 'ch'))
    for spec in (('seq', 'Sequence', S), ('seq', 'Sequence', ('u', S, ('c', 'int')))):
        vals = [(repr(s), lambda s=s: ''.join(s)) for n in range(5) for s in itertools.product('aB1', repeat=n)] + \
               [(f'MyStr{s!r}', lambda s=s: lib.MyStr(''.join(s))) for n in range(4) for s in itertools.product('aB1', repeat=n)]
        go(ctx, spec, vals)


def go(ctx, spec, vals, log='exact', context='plain'):
    check_spec(ctx, spec, 'check', vals, TABLE, log, context=context)

"""C17: the ordering of ordered classes against the ordering of tuples."""
import copy
import functools
import itertools
import operator
from typing import List, Optional

try:
    from typing import Final
except ImportError:
    Final = None

from mc import wide
from mc.lib import *  # noqa
from records import exclude_from_ordering as EX

BOUNDS = dict(quick=wide.TEXT + '; ' + '30 class shapes (1-4 fields, all placements of the exclusion tag incl. nested annotations, inherited fields from one or two parents, frozen or not, every kind of default) x '
                    'all pairs of instances over 9 values per field (at most 81 instances, then reduced alphabets) x 4 operators; all triples; sorting',
              thorough='13 values per field')
RULE = 'one case = class shape and first instance; inside: all second instances and operators, compared with tuples; all triples for one class'
OBJ = object()
OPS = {'<': operator.lt, '<=': operator.le, '>': operator.gt, '>=': operator.ge}
NAN = float('nan')
VALS = [0, 1, True, 1.5, 'a', (0,), NAN, None, frozenset({1}), frozenset({1, 2}), '', -1, (0, 1)]


def E(t, *toks):
    return Annotated[(t, *toks)] if toks else t


def shapes():
    """name -> (class, names in the ordering key, number of values to use)"""
    out = {}

    def add(name, K, key):
        out[name] = (K, key)
    O = dict(ordered=True)
    add('a', mk('K', {'a': object}, **O), ['a'])
    add('ab', mk('K', {'b': object, 'a': object}, **O), ['b', 'a'])
    add('a(b)', mk('K', {'a': object, 'b': E(object, EX)}, **O), ['a'])
    add('(a)b', mk('K', {'a': E(object, Tag('x'), EX), 'b': object}, frozen=True, **O), ['b'])
    add('(a)', mk('K', {'a': E(object, EX)}, **O), [])
    add('abc', mk('K', {'c': object, 'a': E(object, Tag('EX')), 'b': object}, {'b': 1}, **O), ['c', 'a', 'b'])
    add('a(b)c', mk('K', {'a': object, 'b': Annotated[Annotated[object, EX], Tag(1)], 'c': object}, frozen=True, **O), ['a', 'c'])
    add('tagged', mk('K', {'a': E(object, Tag(EX)), 'b': E(object, Tag(0), Tag(EX.inner.__class__))}, **O), ['a', 'b'])
    add('list', mk('K', {'a': E(object, EX, Tag('q')), 'b': List[object], 'c': Optional[object]}, **O), ['b', 'c'])
    if Final is not None:
        add('final', mk('K', {'a': Final[Annotated[object, EX]], 'b': Annotated[Final[object], EX], 'c': Final[object]}, frozen=True, **O), ['c'])
    A = mk('A', {'z': object})
    add('inherit', mk('K', {'a': object}, bases=(A,), **O), ['z', 'a'])
    B = mk('B', {'y': E(object, EX), 'x': object}, frozen=True, **O)
    add('inherit-ex', mk('K', {'a': object}, bases=(B,), **O), ['x', 'a'])
    add('two', mk('K', {'a': object}, bases=(B, A), frozen=True, **O), ['x', 'z', 'a'])
    add('deep', mk('K', {'k': E(object, EX), 'j': object}, {'k': 0, 'j': 0}, bases=(mk('M', {'a': object}, bases=(A,)),), **O), ['z', 'a', 'j'])
    add('body-less', mk('K', {}, bases=(B,), **O), ['x'])
    for i, d in enumerate(VALS):
        add(f'default {i}', mk('K', {'a': object, 'b': (int, str, Optional[int], List[int], object)[i % 5]}, {'a': d} if i % 2 else {'a': d, 'b': d}, frozen=i % 3 == 0, **O), ['a', 'b'])
    add('factory', mk('K', {'a': object, 'b': E(object, EX), 'c': object}, {'a': Factory(lambda: None), 'b': Factory(list), 'c': Factory(int)}, **O), ['a', 'c'])
    add('tokens', mk('K', {'a': E(object, check, CallValidation(lambda v: v)), 'b': E(object, check_strict, CallCoercion(lambda v: OBJ))}, {'a': None}, **O), ['a', 'b'])
    return out


SHAPES = ('a', 'ab', 'a(b)', '(a)b', '(a)', 'abc', 'a(b)c', 'tagged', 'list', 'final', 'inherit', 'inherit-ex', 'two', 'deep', 'body-less', *[f'default {i}' for i in range(len(VALS))], 'factory', 'tokens')


def per_field(nf, tier):
    if tier == 'thorough':
        return {1: 13, 2: 13, 3: 6, 4: 4}[nf]
    return {1: 13, 2: 9, 3: 5, 4: 3}[nf]


def cases(tier):
    yield from wide.cases('C17', tier)
    S = shapes()
    for s in SHAPES:
        if s in S:
            nf = len(S[s][0]._fields)
            for i in range(per_field(nf, tier) ** nf):
                yield 'pairs', s, i, per_field(nf, tier)
            yield 'triples', s, 0, 0
            yield 'mutation', s, 0, 0
    yield 'refused', 0, 0, 0


def instances(K, n):
    names = list(K._fields)
    return [K(**dict(zip(names, vs))) for vs in itertools.product(VALS[:n] if n > 5 else ([0, 1, True, 'a', NAN][:n]), repeat=len(names))]


CACHE = {}


def run(case, ctx):
    if case[0] == '__wide__':
        return wide.run('C17', ctx, case[1])
    kind, s, i, n = case
    if kind == 'refused':
        return refused(ctx)
    if 'shapes' not in CACHE:
        CACHE['shapes'] = shapes()
    K, key = CACHE['shapes'][s]
    k = lambda r: tuple(getattr(r, x) for x in key)
    if kind == 'pairs':
        if (s, n) not in CACHE:
            CACHE[s, n] = instances(K, n)
        I = CACHE[s, n]
        a = I[i]
        for b in I:
            pair(ctx, s, a, b, k)
    elif kind == 'triples':
        names = list(K._fields)
        I = [K(**dict(zip(names, vs))) for vs in itertools.product((0, 1, 2) if len(names) < 3 else (0, 1), repeat=len(names))]
        for a, b, c in itertools.product(I, repeat=3):
            ctx.op(3)
            ctx.state(s, repr((a, b, c)))
            if a <= b and b <= c:
                ctx.expect(a <= c and not c < a, 'transitivity', lambda: f'{s}: {a} <= {b} <= {c}')
            ctx.expect((a < b) + (a > b) + (a <= b and a >= b) == 1 and (a < b) == (not a >= b) and (a > b) == (b < a), 'consistency', lambda: f'{s}: {a}, {b}')
        ctx.trace()
        for perm in itertools.permutations(I[:5]):
            for rev in (False, True):
                got = [k(x) for x in sorted(perm, reverse=rev)]
                ctx.expect(got == sorted(map(k, perm), reverse=rev), 'sorting', lambda: f'{s}: {perm} sorted to {got}')
            ctx.expect(k(min(perm)) == min(map(k, perm)) and k(max(perm)) == max(map(k, perm)), 'sorting', lambda: f'{s}: min/max of {perm}')
            ctx.op()
    else:
        # ordering follows current values, and is not influenced by hashing, copying or comparing before
        names = list(K._fields)
        for vs in itertools.product((0, 1), repeat=2):
            for name in names:
                a, b = (K(**dict(zip(names, [v] * len(names)))) for v in vs)
                a < b, a == b, attempt(hash, a), attempt(hash, b), a.to_dict()
                if not K.is_frozen():
                    setattr(a, name, 2)
                    setattr(a, 'other', 5)
                pair(ctx, s, a, b, k)
                pair(ctx, s, copy.copy(b), copy.deepcopy(a), k)


def pair(ctx, s, a, b, k):
    ka, kb = k(a), k(b)
    for name, op in OPS.items():
        exp = attempt(op, ka, kb)
        got = attempt(op, a, b)
        ctx.op()
        ctx.outcome((name, exp[0], exp[1] if exp[0] == 'ok' else type(exp[1]).__name__))
        if exp[0] == 'ok':
            ctx.expect(got[0] == 'ok' and got[1] is exp[1], 'ordering', lambda: f'{s}: {a} {name} {b}: {show(got)}, the tuples {ka} and {kb} give {exp[1]}')
        else:
            ctx.expect(got[0] == 'err' and isinstance(got[1], type(exp[1])), 'ordering-error', lambda: f'{s}: {a} {name} {b}: {show(got)}, the tuples give {show(exp)}')
    ctx.trace()
    ctx.state(s, repr(ka), repr(kb), repr(a), repr(b))


def refused(ctx):
    U = mk('U', {'a': object})
    P = mk('P', {'a': object}, ordered=True)
    Q = mk('Q', {'b': object}, {'b': 0}, bases=(P,))
    F = mk('F', {'a': object}, frozen=True)
    X = mk('X', {'a': object}, ordered=True)
    u, p, q, f = U(a=1), P(a=1), Q(a=1), F(a=1)
    # classes that add nothing to an ordered one, or a body without fields, are not ordered for that
    N0, N1, N2, N3 = mk('N', {}, bases=(P,)), mk('N', {}, {}, {'__annotations__': {}}, bases=(P,)), mk('N', {}, {}, {'m': lambda self: 1}, bases=(Q,), frozen=True), mk('N', {}, bases=(mk('O', {}, bases=(P,), ordered=True),))
    for name, op in OPS.items():
        for l, r in [(u, U(a=2)), (u, u), (q, Q(a=2)), (f, f), (f, F(a=2)), (u, 1), (1, u), (u, p), (p, u), (p, X(a=2)), (X(a=2), p), (p, 5), (5, p), (p, None), (p, (1,)), ((1,), p), (p, f), (f, p), (p, 'a'),
                     (p, object()), (p, P), (p, {'a': 1}), ([1], p), (u, None), (f, (1,))] + [x for N in (N0, N1, N2, N3) for x in ((N(a=1), N(a=2)), (N(a=1), p), (p, N(a=1)))]:
            r_ = attempt(op, l, r)
            ctx.op()
            ctx.trace()
            ctx.state(name, repr(l)[:30], repr(r)[:30])
            ctx.expect(r_[0] == 'err' and isinstance(r_[1], TypeError), 'unordered-comparison', lambda: f'{l!r} {name} {r!r}: {show(r_)}, expected TypeError')
            ctx.outcome('TypeError')

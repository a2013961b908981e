"""C30: equality of tags, which fields carry which tags, and that tags change nothing else."""
import copy
import enum
import fractions
import itertools
import pickle
from decimal import Decimal
from typing import Deque, Dict, Final, List, Literal, NewType, Optional, Set, Tuple, Type, Union

from mc.canon import canon
from mc import wide
from mc.lib import *  # noqa
from records import AssertCallValidation, CallCoercion, CallValidation, Clamp, Eval, Loose, MapCoercion, Truth, Whole, Within  # noqa
from records.field import FieldDict

BOUNDS = dict(
    quick=wide.TEXT + '; ' + 'all pairs of 41 wrapped objects; all assignments of the 8 subsets of 3 tags to 3 fields and of 4 subsets to 4 fields, x 4 splits over a hierarchy of up to 3 classes x 8 ways of writing x frozen, queried by 7 tags and all pairs of queries; '
          '36 annotations x every place for up to 2 tags x 12 wrapped objects (tokens and types among them) x 24 values',
    thorough='all assignments of 8 subsets to 4 fields; tags at every place in triples')
RULE = 'one case = a wrapped object, the tags of the first fields, or an annotation'


class Colour(enum.Enum):
    RED = 1
    BLUE = 2


class Num(enum.IntEnum):
    ONE = 1


class Same:
    """equal to others of its kind with the same key, whose hash collides with that of all others"""

    def __init__(self, k):
        self.k = k

    def __eq__(self, other):
        return isinstance(other, Same) and self.k == other.k

    def __hash__(self):
        return 7

    def __repr__(self):
        return f'Same({self.k})'


class FalsyKey(Same):
    def __bool__(self):
        return False

    def __len__(self):
        return 0


class Rec(RecordBase, frozen=True):
    p: object
    q: object = 0


OBJ, OBJ2 = object(), object()
# makers, so that equal but distinct objects are compared
INNER = {
    '1': lambda: int('1'), 'True': lambda: True, '1.0': lambda: float('1'), '1j0': lambda: complex(1), 'Fraction1': lambda: fractions.Fraction(1), 'Decimal1': lambda: Decimal('1.0'), 'Num.ONE': lambda: Num.ONE, "'1'": lambda: ''.join('1'),
    '0': lambda: int('0'), 'False': lambda: False, 'None': lambda: None, "''": lambda: '', '()': lambda: tuple([]), 'frozenset()': lambda: frozenset(), 'big': lambda: int('9' * 30), '-1': lambda: int('-1'), '-2': lambda: int('-2'), 'long': lambda: ''.join('long string') * 9,
    "b'1'": lambda: bytes([49]), '(1,)': lambda: (int('1'),), '(1.0,)': lambda: (float('1'),), '(1,2)': lambda: (1, 2), 'frozenset12': lambda: frozenset([1, 2]), 'frozenset21': lambda: frozenset([2, 1]), 'RED': lambda: Colour.RED, 'BLUE': lambda: Colour.BLUE,
    'int': lambda: int, 'len': lambda: len, 'OBJ': lambda: OBJ, 'OBJ2': lambda: OBJ2, 'fresh': lambda: object(), 'Same1': lambda: Same(1), 'Same2': lambda: Same(2), 'FalsyKey1': lambda: FalsyKey(1), 'Rec1': lambda: Rec(p=1), 'Rec1.0': lambda: Rec(p=1.0), 'Rec2': lambda: Rec(p='x'),
    'Tag1': lambda: Tag(1), 'TagTag1': lambda: Tag(Tag(1)), '...': lambda: ..., 'MyStr': lambda: MyStr('1'),
    'a': lambda: 'a', 'A': lambda: 'A', ' a': lambda: ' a', 'a-nl': lambda: 'a\n', 'ss': lambda: 'ss', 'sharp s': lambda: chr(223), 'e acute': lambda: chr(233), 'e+acute': lambda: 'e' + chr(769), 'a.b': lambda: 'a.b', 'a_b': lambda: 'a_b', "b'a'": lambda: b'a', "('a',)": lambda: ('a',),
}


def equality(ctx, a):
    x = INNER[a]()
    tx = Tag(x)
    for b in INNER:
        for y in (x, INNER[b]()) if a == b else (INNER[b](),):
            ty = Tag(y)
            equal = x == y
            where = lambda: f'Tag({a}) and Tag({b})'
            ctx.op(4)
            ctx.state('eq', a, b, x is y)
            ctx.expect((tx == ty) is equal and (ty == tx) is equal, 'equality', lambda: f'{where()}: == gives {tx == ty!r} and {ty == tx!r}')
            ctx.expect((tx != ty) is (not equal) and (ty != tx) is (not equal), 'equality', lambda: f'{where()}: != gives {tx != ty!r}')
            if equal:
                ctx.expect(hash(tx) == hash(ty) == hash(Tag(y)), 'hash', where)
            ctx.expect(({tx: 1}.get(ty) == 1) is equal and (ty in {tx}) is equal and (ty in [tx]) is equal and (ty in frozenset([tx])) is equal, 'containers', where)
            ctx.expect(len({tx, ty}) == (1 if equal else 2) and len({tx} & {ty}) == equal, 'containers', where)
        ctx.outcome(equal)
        if b != 'TagTag1' and not isinstance(y, Tag):
            ctx.expect((tx == y) is False and (y == tx) is False and tx != y, 'foreign', lambda: f'Tag({a}) compared with {b} itself')
    ctx.expect(hash(tx) == hash(tx), 'hash', a)
    for label, f in (('copy', copy.copy), ('deepcopy', copy.deepcopy)) + ((('pickle', lambda t: pickle.loads(pickle.dumps(t))),) if a not in ('OBJ', 'OBJ2', 'fresh') else ()):
        if label == 'deepcopy' and a in ('OBJ', 'OBJ2', 'fresh'):
            continue
        r = attempt(f, tx)
        ctx.expect(r[0] == 'ok' and r[1] == tx and hash(r[1]) == hash(tx), label, lambda: f'of Tag({a}): {show(r)}')
    ctx.trace()


# ---- which fields carry which tags

T = [lambda: Tag('t' + ''.join('0')), lambda: Tag((1, 'x')), lambda: Tag(0)]
QUERIES = T + [lambda: Tag(False), lambda: Tag('t'), lambda: Tag((1.0, 'x')), lambda: Tag(1)]
SUBSETS = [s for n in range(4) for s in itertools.combinations(range(3), n)]
FEWSETS = [(), (0,), (1, 2), (2,)]


def tokens(s):
    return [T[i]() for i in s]


def write(how, s, i):
    t = tokens(s)
    other = [check, AssertCallValidation(lambda v: v is not None)]
    if how == 'first':
        return ann(int, t + other)
    if how == 'last':
        return ann(int, other + t[::-1])
    if how == 'between':
        return ann(int, [check] + t + other[1:] + t[:1])  # one of them twice
    if how == 'nested':
        a = int
        for x in t + other:
            a = Annotated[a, x]
        return a
    if how == 'outside':
        return ann(Annotated[int, check], t) if t else Annotated[int, check]
    if how == 'mixed':
        return ann(ann(Optional[Annotated[int, check]], t[:1]), t[1:] + [check] + [Tag(('private', i))])
    if how == 'bare':
        return ann(object, t)
    if how == 'final':
        return ann(Final[ann(int, t[:1] + other)], t[1:]) if i % 2 else Final[ann(int, t + other)]


WAYS = ['first', 'last', 'between', 'nested', 'outside', 'mixed', 'bare', 'final']
# how many fields each class of the hierarchy declares, for n fields
SPLITS = {3: [(3,), (1, 2), (2, 1), (1, 1, 1)], 4: [(4,), (2, 2), (1, 3), (1, 2, 1)]}
FIELDS = ('zeta', 'alpha', 'mid', 'beta')


def assignment(ctx, sets):
    n = len(sets)
    for how in WAYS:
        if how == 'final':
            options = (True,)
        else:
            options = (False, True) if how in ('first', 'nested') else (False,)
        for frozen in options:
            for split in SPLITS[n]:
                cls, at, classes = RecordBase, 0, []
                for k, size in enumerate(split):
                    # the other tags of this class: none of the others carries the same annotations
                    cls = mk(f'K{k}', {FIELDS[i]: write(how, sets[i], i) for i in range(at, at + size)}, {FIELDS[i]: 5 for i in range(at, at + size) if i % 2}, bases=(cls,), frozen=frozen)
                    at += size
                    classes.append((cls, at))
                sibling = mk('Sib', {'other': write(how, (0, 1, 2), 7)}, bases=(classes[0][0],), frozen=frozen)
                where = lambda c: f'{c.__name__}, fields {dict(zip(FIELDS, sets))} written {how}, split {split}, frozen={frozen}'
                for c, upto in classes + [(sibling, None)]:
                    names = list(FIELDS[:upto]) if upto else list(FIELDS[:split[0]]) + ['other']
                    carries = {f: set(s) for f, s in zip(FIELDS, sets) if f in names}
                    if not upto:
                        carries['other'] = {0, 1, 2}
                    before = list(c._fields.items())
                    results = {}
                    for qi, q in enumerate(QUERIES):
                        idx = {3: 2, 5: 1}.get(qi, qi if qi < 3 else None)
                        exp = [f for f in names if idx in carries[f]]
                        r = attempt(c._fields.filter_by_tag, q())
                        ctx.op()
                        ctx.expect(r[0] == 'ok' and list(r[1]) == exp, 'filter', lambda: f'{where(c)}: {q()!r} gives {show(r)}, expected {exp}')
                        ctx.expect(type(r[1]) is FieldDict and all(r[1][f] is c._fields[f] for f in exp), 'filter', lambda: f'{where(c)}: {q()!r} gives {type(r[1])} {r[1]}')
                        results[qi] = exp
                        for qj, q2 in enumerate(QUERIES):
                            idx2 = {3: 2, 5: 1}.get(qj, qj if qj < 3 else None)
                            got = list(r[1].filter_by_tag(q2()))
                            ctx.expect(got == [f for f in exp if idx2 in carries[f]], 'filter twice', lambda: f'{where(c)}: {q()!r} then {q2()!r} gives {got}')
                        r[1].clear()
                        ctx.expect(list(c._fields.items()) == before, 'independent', lambda: f'{where(c)}: emptying the result of the filter changed the fields')
                    for f in names:
                        got = {t for t in c._fields[f].tags if not isinstance(t.inner, tuple) or t.inner[:1] != ('private',)}
                        ctx.expect(got == {T[i]() for i in carries[f]}, 'tags', lambda: f'{where(c)}: {f} carries {got}')
                    inst = attempt(lambda: c(**{f: 3 for f in names}))
                    ctx.expect(inst[0] == 'ok', 'construct', lambda: f'{where(c)}: {show(inst)}')
                    if how in ('first', 'mixed', 'final'):
                        for qi, q in enumerate(QUERIES):
                            d = inst[1].to_dict(include_defaults=True, blacklist_tags=q())
                            ctx.op()
                            ctx.expect(list(d) == [f for f in names if f not in results[qi]], 'export', lambda: f'{where(c)}: exports {d} without {q()!r}')
                    ctx.state(sets, how, split, frozen, c.__name__)
    ctx.trace()


# ---- tags change nothing else

def logfree(v):
    return v


def minus(v):
    if v == 9:
        raise ValueError
    return -v


# annotations as nested structures: ('ann', type, tokens...) with types as leaves or generics over more of them
A = lambda t, *toks: ('ann', t) + toks
CO = CallCoercion(int)
NEG = CallValidation(minus)
POS = AssertCallValidation(lambda v: v != 1)
MAP = MapCoercion({'a': 1, 'one': 'uno'})
ANNOTATIONS = [
    A(int), A(int, check), A(int, check_strict), A(int, check, CO), A(int, check, NEG), A(int, check, NEG, POS), A(int, check_strict, CO, NEG, POS), A(int, check, Loose), A(int, check, MAP, CO), A(int, NEG), A(str, check, MAP), A(int, check, Eval), A(int, check, Clamp(0, 3), NEG),
    A(float, check, Whole), A(object, Truth), A(None, check), A(Literal['a', 1], check), A(Type[int], check), A(bool, check, Loose),
    A(('gen', List, A(int, check)), check), A(('gen', List, A(int, check, CO, NEG)), check_strict), A(('gen', List, A(int, NEG)), NEG and check), A(('gen', Tuple, A(int, check, CO), A(str, check)), check), A(('gen', Tuple, A(int, check, NEG), ...), check), A(('gen', Set, A(int, check, NEG)), check),
    A(('gen', Dict, A(str, check), A(int, check, NEG)), check), A(('gen', Deque, A(int, check, CO)), check, Loose), A(('gen', Union, A(int, check, NEG), A(str, check)), check), A(('gen', Union, A(int, CO), A(None)), check), A(('gen', Union, A(int), A(bool)), check_strict), A(('gen', Optional, A(int, NEG)), check),
    A(('gen', Union, A(('gen', List, A(int, check, CO))), A(str)), check), A(('gen', List, A(('gen', Union, A(int, NEG), A(str)), check)), check), A(('gen', List, A(('gen', List, A(int, check, NEG)), check)), check), A(('gen', Union, A(int), A(str)), NEG), A(('new', A(int, check, NEG)), CO),
]
TO77, TO78 = CallCoercion(lambda v: 77), CallValidation(lambda v: 78)
TAGS = {
    'plain': lambda: Tag('x'), 'zero': lambda: Tag(0), 'none': lambda: Tag(None), 'check': lambda: Tag(check), 'strict': lambda: Tag(check_strict), 'hollow': lambda: Tag(hollow), 'coercer': lambda: Tag(TO77), 'validator': lambda: Tag(TO78),
    'token class': lambda: Tag(Loose), 'type': lambda: Tag(str), 'factory': lambda: Tag(Factory), 'tag': lambda: Tag(Tag('x')),
}
VALUES = [lambda v=v: copy.deepcopy(v) for v in (0, 1, 2, 9, -4, True, 1.0, 1.5, '', 'a', 'one', '5', 'x', '[1]', None, [], [1, 2], ['3', 9], (1, 'a'), ('2', 'b'), (), {'a': 1}, {1, 2}, [[1], [2]])] + [lambda: int, lambda: bool, lambda: deque([1, '2'])]


def places(a, path=()):
    """every position in the annotation where a token may be written"""
    if a[0] == 'ann':
        for i in range(2, len(a) + 1):
            yield path + (i,)
        yield from places(a[1], path + (1,)) if isinstance(a[1], tuple) else ()
    elif a[0] in ('gen', 'new'):
        for i, x in enumerate(a):
            if isinstance(x, tuple):
                yield from places(x, path + (i,))


def insert(a, path, tok):
    if len(path) == 1:
        return a[:path[0]] + (tok,) + a[path[0]:]
    i = path[0]
    return a[:i] + (insert(a[i], path[1:], tok),) + a[i + 1:]


def build(a, seen=None):
    if not isinstance(a, tuple):
        return a
    if a[0] == 'ann':
        return ann(build(a[1]), a[2:])
    if a[0] == 'new':
        return NewType('New', build(a[1]))
    args = tuple(build(x) for x in a[2:])
    return a[1][args if len(args) > 1 else args[0]]


def outcomes(cls):
    out = []
    for v in VALUES:
        r = attempt(lambda: cls(x=v()))
        if r[0] == 'ok':
            out.append(('ok', canon(r[1].x)))
        else:
            c = r[1].__cause__
            out.append(('err', type(r[1]).__name__, str(r[1]), type(c).__name__))
    return out


def neutral(ctx, i, tier):
    a = ANNOTATIONS[i]
    declare = lambda a, **kw: attempt(mk, 'K', {'x': build(a)}, **kw)
    ref = declare(a)
    exp = outcomes(ref[1]) if ref[0] == 'ok' else None
    ctx.outcome(f'{ref[0]}')
    pts = list(places(a))
    todo = [(p, t) for p in pts for t in TAGS]
    seqs = [(x,) for x in todo] + list(itertools.product([(p, t) for p in pts for t in ('plain', 'coercer')], [(p, t) for p in pts for t in ('zero', 'validator', 'check')]))
    if tier == 'thorough':
        seqs += list(itertools.product([(p, 'plain') for p in pts], [(p, 'strict') for p in pts], todo))
    for seq in seqs:
        b = a
        # later positions first, so that the earlier ones keep their meaning
        for p, t in sorted(seq, key=lambda s: s[0], reverse=True):
            b = insert(b, p, TAGS[t]())
        r = declare(b)
        ctx.op(len(VALUES))
        ctx.state(i, seq)
        where = lambda: f'{a} with {seq}: {build(b)}'
        ctx.expect(r[0] == ref[0] and (r[0] == 'ok' or type(r[1]) is type(ref[1])), 'declaration', lambda: f'{where()}: {show(r)}, without tags {show(ref)}')
        if exp is None:
            continue
        got = outcomes(r[1])
        for v, g, e in zip(VALUES, got, exp):
            if g != e:
                ctx.fail('influence', f'{where()}: {v()!r} gives {g}, without tags {e}')
        top = {TAGS[t]() for p, t in seq if len(p) == 1}
        inner = [t for p, t in seq if len(p) > 1]
        if not inner:
            tags = r[1]._fields['x'].tags
            ctx.expect(set(tags) == top, 'tags', lambda: f'{where()}: the field carries {tags}')
    ctx.trace()


def special(ctx):
    """aliases shared between classes, and tags added around them"""
    Alias = Annotated[int, Tag('shared'), check]
    one = mk('One', {'a': Alias, 'b': Annotated[Alias, Tag('more')], 'c': Annotated[Alias, check_strict]})
    two = mk('Two', {'a': Annotated[Alias, Tag('two')], 'b': Alias, 'c': Final[Alias]}, frozen=True)
    three = mk('Three', {'d': Annotated[Alias, Tag('three')]}, bases=(one,))
    exp = {one: {'shared': 'abc', 'more': 'b', 'two': ''}, two: {'shared': 'abc', 'more': '', 'two': 'a'}, three: {'shared': 'abcd', 'more': 'b', 'three': 'd'}}
    for c, e in exp.items():
        for t, names in e.items():
            got = ''.join(c._fields.filter_by_tag(Tag(t)))
            ctx.op()
            ctx.expect(got == names, 'alias', f'{c.__name__}: {t} gives {got}, expected {names}')
    # fields of an unrelated mapping
    fd = FieldDict({'z': one.b, 'a': one.a})
    got = fd.filter_by_tag(Tag('more')), fd.filter_by_tag(Tag('shared')), FieldDict().filter_by_tag(Tag('more'))
    ctx.expect([list(g) for g in got] == [['z'], ['z', 'a'], []], 'field dict', f'{got}')
    # tags of a user's own class
    class Sub(Tag):
        pass
    for frozen in (False, True):
        P = mk('P', {'p': Annotated[int, Sub(1), check], 'q': Annotated[int, Tag(2)]}, frozen=frozen)
        K = mk('K', {'a': Annotated[int, Tag(1), Sub(2)], 'b': Annotated[int, check, Sub('x')], 'c': Annotated[Annotated[int, Sub('x')], Tag('y')]}, bases=(P,), frozen=frozen)
        for t, e in ((Sub(1), 'p'), (Sub(2), 'a'), (Sub('x'), 'bc'), (Tag('y'), 'c'), (Tag(2), 'q'), (Sub('z'), '')):
            got = ''.join(K._fields.filter_by_tag(t))
            ctx.op()
            ctx.expect(got == e, 'subclass', f'{t!r} of {type(t)} gives {got}, expected {e}')
            got = ''.join(K(p=1, q=2, a=3, b=4, c=5).to_dict(blacklist_tags=t))
            ctx.expect(got == ''.join(x for x in 'pqabc' if x not in e), 'subclass', f'export without {t!r} of {type(t)}: {got}')
    # unhashable things may not be tags of a field, but tags of every hashable one are found again
    for name, make in INNER.items():
        x = make()
        cls = mk('K', {'a': Annotated[int, Tag(x)], 'b': int, 'c': Annotated[int, Tag('other'), Tag(x)]})
        got = list(cls._fields.filter_by_tag(Tag(x)))
        ctx.op()
        ctx.state('find', name)
        ctx.expect(got == ['a', 'c'], 'find', f'Tag({name}): {got}')
        got = list(cls(a=1, b=2, c=3).to_dict(blacklist_tags={Tag(x)}))
        ctx.expect(got == ['b'], 'export', f'without Tag({name}): {got}')
        # a field carries two tags, whichever they are
        for other, make2 in INNER.items():
            y = make2()
            cls = mk('K', {'a': Annotated[int, Tag(x), Tag(y)], 'b': Annotated[int, Tag(y), check], 'c': Annotated[Annotated[int, Tag(y)], Tag(x)], 'd': Annotated[int, check]})
            eq = Tag(x) == Tag(y)
            got = ''.join(cls._fields.filter_by_tag(Tag(x))), ''.join(cls._fields.filter_by_tag(Tag(y)))
            ctx.op()
            ctx.state('find', name, other)
            ctx.expect(got == ('abc' if eq else 'ac', 'abc'), 'find', f'Tag({name}) and Tag({other}): {got}')
    ctx.trace()


def cases(tier):
    yield from wide.cases('C30', tier)
    yield 'special',
    for a in INNER:
        yield 'equality', a
    for s in itertools.product(SUBSETS, repeat=3):
        yield 'assignment', s
    for s in itertools.product(SUBSETS if tier == 'thorough' else FEWSETS, repeat=4):
        yield 'assignment', s
    for i in range(len(ANNOTATIONS)):
        yield 'neutral', i, tier


def run(case, ctx):
    if case[0] == '__wide__':
        return wide.run('C30', ctx, case[1])
    {'special': special, 'equality': equality, 'assignment': assignment, 'neutral': neutral}[case[0]](ctx, *case[1:])

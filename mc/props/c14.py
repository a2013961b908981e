"""C14: parsing tries every registered parser of the class and its ancestors, and only those."""
import itertools
import json
import types

from mc.canon import canon
from mc import wide
from mc.lib import *  # noqa
from records import parser, SelectableFactory
from records.record import ParseFailure

BOUNDS = dict(quick=wide.TEXT + '; ' + '8 class hierarchies (chains, diamonds of record classes, mixins, overriding, siblings and derived classes) x 4 kinds of parser x every assignment of 12 behaviours to up to 3 parsers (30 behaviours for the first of 2) '
                    'x 2 naming/definition orders x 6 arguments; 24 unusual parser names; 18 records, namespaces and texts x parsers own or inherited x frozen or not', thorough='the same with every assignment to up to 4 parsers')
RULE = 'one case = hierarchy, parser kinds and first behaviour; inside: all assignments of the other behaviours, arguments and orders'


class Custom(Exception):
    pass


class WeirdInit(Exception):
    def __init__(self, a, b):
        super().__init__(a)


class Falsy:
    def __bool__(self):
        return False

    def __eq__(self, o):
        return True

    __hash__ = None


class BadEq:
    def __eq__(self, o):
        raise LookupError('eq')

    __hash__ = None


SAME, FALSY, BADEQ = object(), Falsy(), BadEq()
RAISES = {'ValueError': ValueError, 'ParseFailure': ParseFailure, 'KeyError': KeyError, 'StopIteration': StopIteration, 'TypeError': TypeError, 'Weird': lambda: WeirdInit(1, 2), 'Custom': Custom,
          'Assertion': AssertionError, 'Recursion': RecursionError, 'Attribute': AttributeError, 'OS': OSError, 'Warning': UserWarning, 'NI': NotImplementedError, 'EOF': EOFError, 'SAI': StopAsyncIteration,
          'Syntax': SyntaxError, 'Memory': MemoryError, 'Lookup': LookupError, 'Unicode': lambda: UnicodeDecodeError('ascii', b'x', 0, 1, 'r'), 'Arith': ZeroDivisionError, 'Group': lambda: ExceptionGroup('g', [ValueError()])}
RETURNS = {'ni': NotImplemented, 'dots': ..., 'exc': ParseFailure('returned'), 'false': False, 'exct': ParseFailure, 'same': SAME, 'none': None, 'zero': 0, 'falsy': FALSY, 'badeq': BADEQ, 'empty': ()}
QUICK = ['ValueError', 'ParseFailure', 'TypeError', 'StopIteration', 'Weird', 'same', 'none', 'zero', 'falsy', 'badeq', 'record', 'nested']
KINDS = ('static', 'class', 'selectable', 'mixed')
SHAPES = ('one', 'chain', 'two-bases', 'mixin', 'override-parser', 'override-plain', 'override-none', 'outsiders')
ARGS = [5, {'x': 1}, {'x': 'a', 'y': 1}, '{"x": 3}', 'text', None]
ORDERS = (('aa', 'bb', 'cc', 'dd'), ('zz', 'yy', 'xx', 'ww'))


def cases(tier):
    yield from wide.cases('C14', tier)
    n = 4 if tier == 'thorough' else 3
    for shape in SHAPES:
        for kind in KINDS:
            for first in QUICK + ['Custom', 'KeyError', 'Assertion', 'empty']:
                yield shape, kind, first, n
            for first in [*RAISES, *RETURNS]:
                if first not in QUICK:
                    yield shape, kind, first, 2
    for shape in SHAPES:
        for kind in KINDS:
            yield 'names', shape, kind, 0
    for kind in KINDS:
        for frozen in (False, True):
            yield 'records', kind, frozen, 0


# names a parser can have: nothing about a name keeps its parser from being tried
NAMES = ['_', '_p', '__p', '__p__', '_A__p', '_K__p', 'é', 'Z', 'from_', 'parse_', 'test_x', 'from_json_', 'x_', 'X', 'not an identifier', '0', '', 'p' * 300, 'fields', 'self', 'None', 'mro_', 'sorted', 'name']


def run_names(ctx, case):
    _, shape, kind, _ = case
    for n1, n2 in [(a, b) for i, a in enumerate(NAMES) for b in (NAMES[(i + 1) % len(NAMES)], 'aa', 'zz')]:
        for behaviours in (('same', 'ValueError'), ('ValueError', 'none'), ('zero', 'falsy'), ('ValueError', 'TypeError')):
            log = []
            K, live = build(shape, kind, behaviours, (n1, n2, 'cc', 'dd'), log)
            for arg in ('text', {'x': 1}):
                one(ctx, (shape, kind), K, live, behaviours, (n1, n2), arg, log)


def run_records(ctx, case):
    """instances of the class, its ancestors, heirs and others as arguments, and objects that several built-in parsers take"""
    _, kind, frozen, _ = case
    for where in ('own', 'parent'):
        for behaviours in [()] + [(b,) for b in QUICK] + [(a, b) for a in ('ValueError', 'same', 'none') for b in QUICK]:
            log = []
            P = [make_parser(kind, i, behave(b, log, lambda: K)) for i, b in enumerate(behaviours)]
            ps = dict(zip(('pp', 'aa'), P))
            A = mk('A', {'x': object}, {}, ps if where == 'parent' else {}, frozen=frozen)
            K = mk('K', {'y': object}, {'y': 0}, ps if where == 'own' else {}, bases=(A,), frozen=frozen)
            D = mk('D', {'z': object}, {'z': 0}, bases=(K,), frozen=frozen)
            S = mk('S', {'y': object}, {'y': 0}, bases=(A,), frozen=frozen)

            class Both(dict):
                x = 'attribute'

            class Text(str):
                x = 'attribute of a string'

            own, heir = K(x='own'), D(x='heir')
            args = [('own', own, [own]), ('own with default given', K(x=1, y=0), [K(x=1)]), ('heir', heir, [heir if frozen else K(x='heir')]), ('parent', A(x='parent'), [K(x='parent')]), ('sibling', S(x='s', y=5), [K(x='s', y=5)]),
                    ('namespace', types.SimpleNamespace(x=1, y=2, w=3), [K(x=1, y=2)]), ('namespace without x', types.SimpleNamespace(y=2), []), ('both', Both(x='key'), [1, 2]), ('attribute only', Both(y=3), [K(x='attribute')]),
                    ('text', Text('no json'), [K(x='attribute of a string')]), ('text and json', Text('{"x": 3}'), [1, 2]), ('bytes', b'{"x": 4}', [K(x=4)]), ('bytearray', bytearray(b'{"x": 5}'), [K(x=5)]), ('broken', '{"x": 3', []),
                    ('class', K, []), ('json list', '[["x", 1]]', []), ('list of pairs', [('x', 1)], []), ('unknown key', {'x': 1, 'w': 2}, []), ('mapping', types.MappingProxyType({'x': 6}), [K(x=6)])]
            success = [b for b in behaviours if b not in RAISES]
            for name, arg, builtin in args:
                if name == 'class':
                    continue
                del log[:]
                got = attempt(K.parse, arg)
                ctx.op()
                ctx.trace()
                ctx.state(case, where, behaviours, name)
                msg = lambda: f'{case[1:]} parsers {behaviours} ({where}): parse of {name} {arg!r}: {show(got)}'
                total = len(success) + len(builtin)
                ctx.outcome(min(total, 3))
                ctx.expect(sorted(b for b, v in log) == sorted(behaviours) and all(v is arg for _, v in log), 'not-tried', lambda: msg() + f', called {log}')
                if total == 0:
                    ctx.expect(got[0] == 'err' and isinstance(got[1], ParseFailure), 'no-parser', lambda: msg() + ', expected ParseFailure')
                elif total > 1:
                    ctx.expect(got[0] == 'err' and isinstance(got[1], TypeError) and not isinstance(got[1], ParseFailure), 'several-parsers', lambda: msg() + ', expected a TypeError that is not a ParseFailure')
                elif got[0] == 'err':
                    ctx.fail('rejected', msg() + f', {success or builtin} succeeds')
                elif builtin:
                    exp = builtin[0]
                    ctx.expect(type(got[1]) is type(exp) and got[1] == exp and (frozen or got[1] is not arg), 'result', lambda: msg() + f', expected {exp!r}')
                elif success[0] in RETURNS:
                    ctx.expect(got[1] is RETURNS[success[0]], 'result', lambda: msg() + f', expected the object returned by {success[0]}')
                else:
                    ctx.expect(type(got[1]) is K and got[1].x == dict(record='made', nested='nested')[success[0]], 'result', msg)


def behave(b, log, cls_of):
    def f(v):
        log.append((b, v))
        if b in RAISES:
            raise RAISES[b]()
        if b in RETURNS:
            return RETURNS[b]
        if b == 'record':
            return cls_of()(x='made')
        if b == 'nested':
            # a parser that itself parses with the same class something that only from_mapping parses
            return cls_of().from_mapping({'x': 'nested'})
        raise AssertionError(b)
    return f


def make_parser(kind, i, f):
    k = ('static', 'class', 'selectable')[i % 3] if kind == 'mixed' else kind
    if k == 'static':
        return parser(staticmethod(lambda v: f(v)))
    if k == 'class':
        return parser(classmethod(lambda cls, v: f(v)))

    class Sel(SelectableFactory):
        # a selectable factory that returns what its function returns
        def run(self, cls, args, kwargs, select):
            return self.func(cls, *args, **kwargs)

    def func(cls, v):
        return f(v)
    return parser(Sel(func))


def build(shape, kind, behaviours, names, log):
    """returns (class to parse with, behaviours of the parsers that have to be tried, others)"""
    holder = []
    P = [make_parser(kind, i, behave(b, log, lambda: holder[0])) for i, b in enumerate(behaviours)]
    n = dict(zip(names, P))
    N = list(n.items())
    ann = {'x': object, 'y': object}
    dy = {'y': 0}
    if shape == 'one':
        K = mk('K', ann, dy, n)
        live = behaviours
    elif shape == 'chain':
        A = mk('A', {'x': object}, {}, dict(N[:1]))
        B = mk('B', {'w': object}, {'w': 1}, dict(N[1:2]), bases=(A,))
        K = mk('K', {'y': object}, dy, dict(N[2:]), bases=(B,))
        live = behaviours
    elif shape == 'two-bases':
        A = mk('A', {'x': object}, {}, dict(N[:1]))
        B = mk('B', {'y': object}, dy, dict(N[1:2]))
        K = mk('K', {'w': object}, {'w': 1}, dict(N[2:]), bases=(A, B))
        live = behaviours
    elif shape == 'mixin':
        M = type('M', (), dict(N[:2]))
        K = mk('K', ann, dy, dict(N[2:]), bases=(M, RecordBase))
        live = behaviours
    elif shape.startswith('override'):
        A = mk('A', ann, dy, n)
        name = N[0][0]
        if shape == 'override-parser':
            K = mk('K', {'w': object}, {'w': 1}, {name: make_parser(kind, 0, behave('same', log, lambda: holder[0]))}, bases=(A,))
            live = ('same',) + behaviours[1:]
        elif shape == 'override-plain':
            K = mk('K', {'w': object}, {'w': 1}, {name: staticmethod(lambda v: SAME)}, bases=(A,))
            live = behaviours[1:]
        else:
            K = mk('K', {'w': object}, {'w': 1}, {name: None}, bases=(A,))
            live = behaviours[1:]
    else:
        A = mk('A', ann, dy)
        K = mk('K', {'w': object}, {'w': 1}, dict(N[:1]), bases=(A,))
        sib = mk('Sib', {'w': object}, {'w': 1}, dict(N[1:2]), bases=(A,))
        der = mk('Der', {'q': object}, {'q': 1}, dict(N[2:]), bases=(K,))
        live = behaviours[:1]
    holder.append(K)
    return K, live


def run(case, ctx):
    if case[0] == '__wide__':
        return wide.run('C14', ctx, case[1])
    if case[0] == 'names':
        return run_names(ctx, case)
    if case[0] == 'records':
        return run_records(ctx, case)
    shape, kind, first, n = case
    rest = QUICK
    for m in range(n):
        if shape in ('chain', 'two-bases', 'outsiders', 'mixin') and m == 0 and n > 1 and first != 'ValueError':
            continue
        for more in itertools.product(rest, repeat=m):
            behaviours = (first,) + more
            for names in ORDERS:
                log = []
                K, live = build(shape, kind, behaviours, names, log)
                for arg in ARGS:
                    one(ctx, case, K, live, behaviours, names, arg, log)


def one(ctx, case, K, live, behaviours, names, arg, log):
    success = [b for b in live if b not in RAISES]
    builtin = []
    if isinstance(arg, dict):
        builtin.append(arg)
    elif arg == '{"x": 3}':
        builtin.append({'x': 3})
    del log[:]
    got = attempt(K.parse, arg)
    ctx.op()
    ctx.trace()
    ctx.state(case[:2], behaviours, names[0], repr(arg))
    where = lambda: f'{case[:2]} parsers {behaviours} (tried: {live}) named {names[:len(behaviours)]}: parse({arg!r}): {show(got)}'
    stray = [b for b, v in log if b not in live]
    ctx.expect(not stray, 'foreign-parser', lambda: where() + f', called {stray}')
    ctx.expect(all(v is arg for _, v in log), 'argument', lambda: where() + ': a parser was given something else')
    total = len(success) + len(builtin)
    ctx.outcome(min(total, 3))
    if total == 0:
        ctx.expect(got[0] == 'err' and isinstance(got[1], ParseFailure), 'no-parser', lambda: where() + ', expected ParseFailure')
    elif total > 1:
        ctx.expect(got[0] == 'err' and isinstance(got[1], TypeError) and not isinstance(got[1], ParseFailure), 'several-parsers', lambda: where() + ', expected a TypeError that is not a ParseFailure')
    elif got[0] == 'err':
        ctx.fail('rejected', where() + f', {success or builtin} succeeds')
    elif builtin:
        ctx.expect(type(got[1]) is K and got[1] == K(**builtin[0]), 'result', lambda: where() + f', expected K({builtin[0]})')
    elif success[0] in RETURNS:
        ctx.expect(got[1] is RETURNS[success[0]], 'result', lambda: where() + f', expected the object returned by {success[0]}')
    else:
        x = dict(record='made', nested='nested')[success[0]]
        ctx.expect(type(got[1]) is K and got[1].x == x, 'result', where)

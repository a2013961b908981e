"""C26: errors of every class raised at every stage of filling a field, and what is reported."""
import builtins
import itertools
import types as _types

from mc.canon import canon
from mc import wide
from mc.lib import *  # noqa
from records import AssertCallValidation, CallCoercion, CallValidation, Clamp, Loose, MapCoercion, Within, Eval  # noqa
from typing import Dict, List, Literal, Optional, Tuple, Type, Union

BOUNDS = dict(quick=wide.TEXT + '; ' + '44 classes of exceptions x 18 stages, every built-in one and two user-defined ones derived from each x 4 stages x field positions in classes of 1-4 fields (own and inherited) x 6 construction routes x argument orders; rejected values of 20 built-in checks', thorough='also every pair of failing fields')
RULE = 'one case = exception class and stage, or one built-in check'


class Plain(Exception):
    pass


class TwoArgs(Exception):
    def __init__(self, a, b):
        super().__init__(a, b)


class NoArgs(ValueError):
    def __init__(self):
        super().__init__('nothing')


class KwOnly(TypeError):
    def __init__(self, *, code):
        super().__init__(code)


class Optionals(KeyError):
    def __init__(self, msg='', code=None):
        super().__init__(msg)
        self.code = code


class Code(Exception):
    """its constructor refuses messages with a ValueError"""

    def __init__(self, code):
        super().__init__(int(code))


class Mapped(Exception):
    """its constructor refuses messages with a KeyError"""

    def __init__(self, name):
        super().__init__({'known': 1}[name])


class Attr(LookupError):
    """its constructor refuses messages with an AttributeError"""

    def __init__(self, obj):
        super().__init__(obj.real.imag)


class Sub(UnicodeError):
    pass


class Falsy(Exception):
    def __bool__(self):
        return False


class Eq(Exception):
    def __eq__(self, other):
        return True
    __hash__ = None


class WithInit(OSError):
    pass


class Deep(Plain):
    pass


class Coded(Exception):
    """takes a message and keeps more arguments than that"""

    def __init__(self, m, *more):
        super().__init__(m, 1, *more)


class Told(Exception):
    """writes more than its message"""

    def __str__(self):
        return f'told: {self.args}'


class Quoted(ValueError):
    def __str__(self):
        return repr(self.args[0])


class Both(KeyError, ValueError):
    pass


class Slots(TypeError):
    __slots__ = 'code',

    def __init__(self, m):
        super().__init__(m)
        self.code = len(str(m))


class NewOnly(Exception):
    """its message comes from __new__"""

    def __new__(cls, *a):
        return super().__new__(cls, *a)

    def __init__(self, *a):
        pass


class Meta(type):
    def __call__(cls, *a, **k):
        e = super().__call__(*a, **k)
        e.made = True
        return e


class WithMeta(ValueError, metaclass=Meta):
    pass


class Sane:
    pass


Dynamic = type('Dynamic', (ValueError,), {'__str__': lambda self: ' '.join(map(str, self.args)) + '!'})


def chained():
    try:
        try:
            raise KeyError('inner')
        except KeyError as e:
            raise Deep('outer') from e
    except Deep as e:
        return e


ERRORS = {
    'TypeError': lambda: TypeError('t'), 'ValueError': lambda: ValueError('v'), 'KeyError': lambda: KeyError('k'), 'IndexError': lambda: IndexError(1, 2), 'RuntimeError': lambda: RuntimeError(),
    'StopIteration': lambda: StopIteration(5), 'OSError': lambda: OSError(2, 'no file', 'f'), 'FileNotFoundError': lambda: FileNotFoundError(2, 'x'), 'AssertionError': lambda: AssertionError(), 'ZeroDivisionError': lambda: ZeroDivisionError('z'),
    'UnicodeDecodeError': lambda: UnicodeDecodeError('utf8', b'a', 0, 1, 'r'), 'AttributeError': lambda: AttributeError('a', name='n', obj=1), 'ImportError': lambda: ImportError('i', name='m'), 'RecursionError': lambda: RecursionError('r'),
    'UserWarning': lambda: UserWarning('w'), 'MemoryError': lambda: MemoryError(), 'ExceptionGroup': lambda: ExceptionGroup('g', [ValueError(1)]), 'NotImplementedError': lambda: NotImplementedError('n'),
    'Plain': lambda: Plain('p'), 'TwoArgs': lambda: TwoArgs(1, 2), 'NoArgs': lambda: NoArgs(), 'KwOnly': lambda: KwOnly(code=1), 'Optionals': lambda: Optionals('o', 3), 'Code': lambda: Code(5), 'Mapped': lambda: Mapped('known'),
    'Attr': lambda: Attr(5), 'Sub': lambda: Sub('s'), 'Falsy': lambda: Falsy('f'), 'Eq': lambda: Eq('e'), 'WithInit': lambda: WithInit(1, 'x'), 'Deep': chained,
    'Coded': lambda: Coded('c', 2), 'Told': lambda: Told('t', 2), 'Quoted': lambda: Quoted('q'), 'Both': lambda: Both('b'), 'Slots': lambda: Slots('s'), 'NewOnly': lambda: NewOnly('n', 1), 'WithMeta': lambda: WithMeta('w'), 'Dynamic': lambda: Dynamic('d'),
    'SyntaxError': lambda: SyntaxError('s', ('f', 1, 2, 'text')), 'LookupError': lambda: LookupError('l'), 'ArithmeticError': lambda: ArithmeticError('a', 'b'), 'TimeoutError': lambda: TimeoutError('t'), 'Exception': lambda: Exception('e'),
}

# every built-in class of exceptions, and a class of one's own derived from each
MORE = {}
for _n, _c in sorted(vars(builtins).items()):
    if isinstance(_c, type) and issubclass(_c, Exception) and attempt(_c, 'm')[0] == 'ok':
        for _d in (_c, type(f'My{_n}', (_c,), {}), type(f'Also{_n}', (Sane, _c), {'__module__': 'elsewhere'})):
            if _d.__name__ not in ERRORS and _d.__name__ not in MORE:
                MORE[_d.__name__] = lambda c=_d: c('m')

FIELDS = ('alpha_field', 'beta_field', 'gamma_field', 'delta_field')


class Boom:
    """raises the error when asked to"""

    def __init__(self, err):
        self.err = err

    def __call__(self, v):
        raise self.err


def sentinel(v):
    """values the failing callbacks fail on"""
    return isinstance(v, Bad)


class Bad(int):
    """the value that is refused"""


# stage -> (annotation for an error-raising callback, good value, bad value)
def stages(err):
    def fail(v):
        if sentinel(v) or v == 'bad':
            raise err
        return v

    def failing(v):
        raise err

    def pred(v):
        if sentinel(v) or v == 'bad':
            raise err
        return True
    bad = Bad(7)
    ok = CallValidation(lambda v: v)
    wrong = CallCoercion(lambda v: object())
    return {
        'validator': (Annotated[int, check, CallValidation(fail)], 5, bad), 'hollow-validator': (Annotated[int, CallValidation(fail)], 5, bad), 'second-validator': (Annotated[int, check, ok, CallValidation(fail)], 5, bad),
        'assert-func': (Annotated[int, check, AssertCallValidation(pred)], 5, bad), 'assert-err': (Annotated[int, check, AssertCallValidation(lambda v: not sentinel(v), err=err)], 5, bad),
        'within-err': (Annotated[int, check, Within(lt=7, err=err)], 5, bad),
        'coercer': (Annotated[int, check, CallCoercion(failing)], 5, 'bad'), 'last-coercer': (Annotated[int, check, wrong, CallCoercion(failing)], 5, 'bad'), 'strict-coercer': (Annotated[int, check_strict, CallCoercion(failing)], 5, True),
        'validator-after-coercion': (Annotated[int, check, CallCoercion(lambda v: bad), CallValidation(fail)], 5, 'x'), 'factory-map': (Annotated[int, check, MapCoercion(factory_map={'bad': lambda: fail('bad')})], 5, 'bad'),
        'list-element': (Annotated[List[Annotated[int, check, CallValidation(fail)]], check], [1, 2], [1, bad, 3]), 'tuple-element': (Annotated[Tuple[int, Annotated[int, check, CallValidation(fail)]], check], (1, 2), (1, bad)),
        'vtuple-element': (Annotated[Tuple[Annotated[int, check, CallCoercion(failing)], ...], check], (), (1, 'bad')), 'dict-key': (Annotated[Dict[Annotated[str, check, CallValidation(fail)], int], check], {'a': 1}, {'a': 1, 'bad': 2}),
        'dict-value': (Annotated[Dict[str, Annotated[int, check, CallValidation(fail)]], check], {}, {'a': bad}), 'nested': (Annotated[List[Annotated[List[Annotated[int, check, CallValidation(fail)]], check]], check], [[1]], [[1], [bad]]),
        'union-last': (Annotated[Union[str, Annotated[int, CallValidation(fail)]], check], 's', bad), 'optional': (Annotated[Optional[Annotated[int, check, CallValidation(fail)]], check], None, bad),
    }


BUILTIN = [
    (Annotated[int, check], 5, 'x', TypeError), (Annotated[int, check_strict], 5, True, TypeError), (Annotated[List[int], check], [], (), TypeError), (Annotated[Literal['a', 'b'], check], 'a', 'c', ValueError),
    (Annotated[Literal['a'], check], 'a', 5, TypeError), (Annotated[Tuple[int, int], check], (1, 2), (1,), ValueError), (Annotated[Type[int], check], bool, str, ValueError), (Annotated[Type[int], check], int, 5, TypeError),
    (Annotated[int, check, Loose], 5, 'zz', ValueError), (Annotated[int, check, Loose], 5, [], TypeError), (Annotated[int, check, Within(ge=0)], 5, -1, ValueError), (Annotated[None, check], None, 0, TypeError),
    (Annotated[int, check, MapCoercion({'a': 1})], 5, 'b', TypeError), (Annotated[int, check, Eval], 5, '1/0', None), (Annotated[Union[int, str], check], 5, 1.5, None), (Annotated[Optional[List[int]], check], None, 'x', None),
    (Annotated[int, check, AssertCallValidation(lambda v: v > 0)], 5, -5, ValueError), (Annotated[int, check, AssertCallValidation(lambda v: v > 0, err='too small')], 5, -5, ValueError),
    (Annotated[Dict[str, Annotated[int, check]], check], {}, {'a': 'b'}, TypeError), (Annotated[int, check, CallCoercion(lambda v: 'wrong')], 5, 'x', TypeError),
]

# (number of fields, failing field, number of inherited fields)
POSITIONS = [(1, 0, 0), (2, 0, 0), (2, 1, 0), (2, 0, 1), (2, 1, 1), (3, 1, 2), (4, 3, 2), (4, 0, 0), (4, 2, 0)]


def declare(hint, n, at, inherited, **kw):
    anns = [(f, hint if i == at else Annotated[object, hollow]) for i, f in enumerate(FIELDS[:n])]
    bases = (RecordBase,)
    if inherited:
        bases = (mk('Base', anns[:inherited]),)
        anns = anns[inherited:]
    return mk('K', anns, bases=bases, **kw)


def routes(cls, d, n):
    yield 'keywords', lambda: cls(**d)
    yield 'reversed keywords', lambda: cls(**dict(reversed(list(d.items()))))
    yield 'from_mapping', lambda: cls.from_mapping(d)
    yield 'from_mapping two', lambda: cls.from_mapping({k: d[k] for k in list(d)[:1]}, {k: d[k] for k in list(d)[1:]})
    yield 'from_instance', lambda: cls.from_instance(_types.SimpleNamespace(**d))
    if n == 1:
        yield 'positional', lambda: cls(next(iter(d.values())))
    yield 'select', lambda: cls.from_mapping.select(keys_to_rename=[('renamed', next(iter(d)))])({'renamed' if i == 0 else k: v for i, (k, v) in enumerate(d.items())})


def cases(tier):
    yield from wide.cases('C26', tier)
    names = list(stages(ValueError()))
    for e in ERRORS:
        for s in names:
            yield 'raise', e, s
    for e in MORE:
        for s in ('validator', 'coercer', 'list-element', 'optional') if tier != 'thorough' else names:
            yield 'raise', e, s
    for i in range(len(BUILTIN)):
        yield 'builtin', i, 0
    for e in ERRORS:
        for other in ERRORS if tier == 'thorough' else ('TypeError', 'TwoArgs', 'Code'):
            yield 'pair', e, other
    yield 'nested', 0, 0


def constructible(e):
    return attempt(type(e), 'error filling field x')[0] == 'ok'


def report(ctx, where, r, name, err, exact=True):
    """r: outcome of the construction; err: the underlying error, or its type if exact is False"""
    ctx.op()
    if r[0] == 'ok':
        ctx.fail('accepted', f'{where()}: {show(r)}')
        return
    e = r[1]
    cause = e.__cause__
    if exact:
        ctx.expect(cause is err, 'cause', lambda: f'{where()}: raised {e!r} with cause {cause!r}, the underlying error is {err!r}')
    else:
        ctx.expect(isinstance(cause, Exception) and (err is None or type(cause) is err), 'cause', lambda: f'{where()}: raised {e!r} with cause {cause!r}, expected {err}')
    if cause is None:
        return
    exp = type(cause) if constructible(cause) else ValueError
    ctx.expect(type(e) is exp, 'type', lambda: f'{where()}: raised {type(e).__name__} {e!r}, expected {exp.__name__}')
    ctx.expect(e is not cause, 'type', lambda: f'{where()}: the underlying error itself was raised')
    ctx.expect(name in str(e), 'name', lambda: f'{where()}: {e!r} does not name {name}')
    ctx.outcome(f'{type(cause).__name__}->{type(e).__name__}')


def run(case, ctx):
    if case[0] == '__wide__':
        return wide.run('C26', ctx, case[1])
    kind, a, b = case
    if kind == 'nested':
        return nested(ctx)
    if kind == 'pair':
        return pair(ctx, a, b)
    if kind == 'raise':
        err = (MORE | ERRORS)[a]()
        hint, good, bad = stages(err)[b]
        exact = True
        if b in ('union-last', 'optional'):
            exact, err = False, None  # which alternative's error it is, is left open
    else:
        hint, good, bad, err = BUILTIN[a]
        exact = False
    for n, at, inherited in POSITIONS:
        for frozen in (False, True):
            cls = declare(hint, n, at, inherited, frozen=frozen)
            goods = {f: good if i == at else ['value', i] for i, f in enumerate(FIELDS[:n])}
            other = cls(**goods)
            before = canon(other)
            for shuffle in {tuple(goods), tuple(reversed(goods))}:
                d = {f: bad if f == FIELDS[at] else goods[f] for f in shuffle}
                for route, f in routes(cls, d, n):
                    snap = canon(dict(d))
                    ids = {k: id(v) for k, v in d.items()}
                    where = lambda: f'{case}, field {at} of {n} ({inherited} inherited) frozen={frozen} through {route} with {list(d)}'
                    for rep in range(2):
                        report(ctx, where, attempt(f), FIELDS[at], err, exact)
                    ctx.expect(canon(dict(d)) == snap and ids == {k: id(v) for k, v in d.items()}, 'arguments', lambda: f'{where()}: the arguments became {d}')
                    ctx.expect(canon(other) == before, 'others', lambda: f'{where()}: another instance became {other}')
                    ok = attempt(cls, **goods)
                    ctx.expect(ok[0] == 'ok' and canon(ok[1]) == before, 'class', lambda: f'{where()}: afterwards valid values give {show(ok)}')
                    ctx.state(case, n, at, inherited, frozen, shuffle, route)
                    ctx.trace()


def pair(ctx, a, b):
    """two fields fail: one of them is reported, with its own error"""
    ea, eb = ERRORS[a](), ERRORS[b]()

    def boom(e):
        def f(v):
            raise e
        return f
    for n in (2, 3):
        anns = {'alpha_field': Annotated[int, check, CallValidation(boom(ea))], 'beta_field': Annotated[int, check, CallCoercion(boom(eb))], 'gamma_field': object}
        names = list(anns)[:n]
        for order in itertools.permutations(names):
            cls = mk('K', [(k, anns[k]) for k in order])
            for args in itertools.permutations(names):
                r = attempt(cls, **{k: {'alpha_field': 5, 'beta_field': 'x', 'gamma_field': 0}[k] for k in args})
                where = lambda: f'{a} and {b}: {order} {args}'
                if r[0] == 'err' and r[1].__cause__ is eb and eb is not ea:
                    report(ctx, where, r, 'beta_field', eb)
                else:
                    report(ctx, where, r, 'alpha_field', ea)
                ctx.state(a, b, order, args)
        ctx.trace()


def nested(ctx):
    """records inside records: each level reports its own field and has the error of the level below as its cause"""
    for name in ERRORS:
        err = ERRORS[name]()

        def f(v):
            raise err

        class In(RecordBase):
            inner_field: Annotated[int, CallValidation(f)]

        class Mid(RecordBase):
            middle_field: Annotated[In, check, CallCoercion(lambda v: In(inner_field=v))]

        class Out(RecordBase):
            outer_field: Annotated[List[Annotated[Mid, check, CallCoercion(lambda v: Mid(middle_field=v))]], check]
        r = attempt(Out, outer_field=['x'])
        ctx.op()
        e = r[1]
        names = []
        while isinstance(e, Exception) and e is not err and len(names) < 9:
            names.append(str(e))
            under = e.__cause__
            exp = type(under) if under is not None and constructible(under) else ValueError
            ctx.expect(type(e) is exp, 'nested', lambda: f'{name}: {e!r} caused by {under!r}')
            e = under
        ctx.expect(r[0] == 'err' and e is err and len(names) == 3 and all(f in m for f, m in zip(('outer_field', 'middle_field', 'inner_field'), names)), 'nested', lambda: f'{name}: {names} ending in {e!r}')
        ctx.state('nested', name)
    # errors that are no rejection of a field: not wrapped

    class K(RecordBase):
        aa: object = Factory(lambda: (_ for _ in ()).throw(Plain('factory')))

        def post_new(self):
            raise Deep('post')
    r = attempt(K, aa=1)
    ctx.expect(r[0] == 'err' and type(r[1]) is Deep and r[1].args == ('post',), 'post', lambda: show(r))
    for exc in (KeyboardInterrupt, SystemExit, GeneratorExit):
        def g(v):
            raise exc()
        L = mk('L', {'x': Annotated[int, CallValidation(g)]})
        try:
            L(x=1)
            got = None
        except BaseException as e:
            got = type(e)
        ctx.expect(got is exc, 'interrupt', f'{exc}: {got}')
    ctx.trace()

"""Kinds: for every property, the same statement on one object of each of many kinds: objects with a special method that fails or lies, enumeration members, objects of the standard library, parts of the library itself."""
import array
import ast
import asyncio
import collections
import collections.abc
import contextvars
import copy
import dataclasses
import datetime
import decimal
import enum
import fractions
import functools
import inspect
import io
import ipaddress
import itertools
import json
import logging
import operator
import pathlib
import pickle
import queue
import random
import re
import threading
import time
import types as _types
import typing
import unittest.mock
import uuid
import warnings
import weakref
from typing import *  # noqa

from mc.lib import *  # noqa
from records import Loose, Whole, parser
from collections import ChainMap, Counter, OrderedDict, UserDict, UserList, UserString, defaultdict, deque, namedtuple
from collections import abc
from records.record import ParseFailure
from records.select import Select

BOTH = (TypeError, ValueError)


class Broken(Exception):
    """what a failing special method raises"""


def failing(*methods, error=Broken, base=object, name=None):
    def refuse(self, *a, **k):
        raise error(f'do not {methods[0]}')
    return type(name or f'No{methods[0].strip("_")}', (base,), {m: refuse for m in methods})


def lying(method, result, base=object, **more):
    return type(f'Lies{method.strip("_")}', (base,), {method: lambda self, *a, **k: result, **more})


class Unsure:
    """what comparisons of arrays give"""

    def __bool__(self):
        raise ValueError('ambiguous')


METHODS = ['__repr__', '__str__', '__format__', '__eq__', '__ne__', '__lt__', '__le__', '__gt__', '__ge__', '__bool__', '__len__', '__iter__', '__next__', '__contains__', '__getitem__', '__setitem__', '__call__',
           '__getattr__', '__setattr__', '__delattr__', '__dir__', '__int__', '__index__', '__float__', '__complex__', '__round__', '__trunc__', '__neg__', '__add__', '__radd__', '__sub__', '__mod__', '__mul__', '__and__', '__or__', '__ror__', '__enter__',
           '__bytes__', '__fspath__', '__length_hint__', '__reversed__', '__copy__', '__deepcopy__', '__reduce_ex__', '__getstate__', '__sizeof__', '__get__', '__set__', '__set_name__', '__await__', '__missing__', 'keys', 'items', '__parser__', '__post_init__',
           '__instancecheck__', '__subclasscheck__', '__init_subclass__', '__class_getitem__', '__mro_entries__', '__call_coercer__', 'to_dict', 'apply', 'bind', 'fill', 'inner', '__wrapped__', '__func__', '__name__', '__annotations__', '__origin__', '__args__']


class Color(enum.Enum):
    a = 1
    b = 'x'


class Level(enum.IntEnum):
    a = 1
    z = 0


class IntMix(int, enum.Enum):
    a = 1


class Word(enum.StrEnum):
    a = 'a'
    e = ''


class StrMix(str, enum.Enum):
    a = 'a'


class Mask(enum.IntFlag):
    a = 1
    b = 2


class Bits(enum.Flag):
    a = 1


class FloatMix(float, enum.Enum):
    a = 1.5


class TupMix(tuple, enum.Enum):
    a = (1, 2)


@dataclasses.dataclass
class DC:
    x: int = 1


@dataclasses.dataclass(frozen=True, eq=False)
class DF:
    x: int = 1


class TD(TypedDict):
    x: int


class NTup(NamedTuple):
    x: int = 1


class Rec(RecordBase):
    x: int = 1


class FRec(RecordBase, frozen=True):
    x: int = 1


class ORec(RecordBase, frozen=True, ordered=True):
    x: int
    y: str = 'q'


class Slotted:
    __slots__ = 'x',

    def __init__(self):
        self.x = 1


class WithProp:
    x = property(lambda self: 1 / 0)


class Tracker:
    def __setattr__(self, k, v):
        raise AttributeError(k)


class Ab(abc.Sequence):
    def __len__(self):
        return 1

    def __getitem__(self, i):
        return (1,)[i]


class AbMap(abc.Mapping):
    def __len__(self):
        return 1

    def __iter__(self):
        return iter('x')

    def __getitem__(self, k):
        return {'x': 1}[k]


class Ctx:
    def __enter__(self):
        return self

    def __exit__(self, *a):
        return True


async def _co():
    pass


def _gen():
    yield 1


def _closed_gen():
    g = _gen()
    g.close()
    return g


def _released():
    m = memoryview(b'ab')
    m.release()
    return m


def _caught():
    try:
        raise KeyError('k')
    except KeyError as e:
        return e


def _tb():
    return _caught().__traceback__


def _frame():
    return _tb().tb_frame


KEEP = A0()  # for weak references
KINDS = {}
for _m in METHODS:
    KINDS[f'fails {_m}'] = lambda c=failing(_m): c()
for _m in ('__eq__', '__ne__', '__lt__', '__le__', '__gt__', '__ge__', '__contains__', '__bool__', '__len__', '__call__', '__getattr__'):
    KINDS[f'type error {_m}'] = lambda c=failing(_m, error=TypeError): c()
    KINDS[f'attribute error {_m}'] = lambda c=failing(_m, error=AttributeError): c()
for _b in (int, str, list, dict, tuple, float):
    for _m in ('__eq__', '__repr__', '__hash__', '__bool__', '__len__', '__iter__', '__lt__', '__format__', '__str__', '__int__', '__contains__', '__getitem__'):
        KINDS[f'{_b.__name__} fails {_m}'] = lambda c=failing(_m, base=_b): c()
for _m, _r in (('__eq__', True), ('__eq__', False), ('__eq__', None), ('__eq__', NotImplemented), ('__eq__', Unsure()), ('__ne__', True), ('__ne__', False), ('__ne__', Unsure()), ('__lt__', True), ('__gt__', True), ('__gt__', False), ('__ge__', True), ('__le__', True), ('__bool__', False),
               ('__len__', 0), ('__len__', 7), ('__iter__', iter(())), ('__contains__', True), ('__contains__', False), ('__call__', None), ('__call__', True), ('__getattr__', None), ('__getattr__', True), ('__repr__', ''), ('__repr__', 'K()'), ('__hash__', -1), ('__hash__', 0),
               ('__copy__', None), ('__deepcopy__', None), ('keys', ()), ('items', ()), ('keys', ['x']), ('__int__', 1), ('__index__', 1), ('__float__', 1.0), ('__get__', 'got'), ('__reduce_ex__', 'None'), ('__instancecheck__', True), ('__or__', 5), ('__await__', iter(()))):
    KINDS[f'{_m} gives {type(_r).__name__ if isinstance(_r, Unsure) or hasattr(_r, "__next__") else _r!r}'] = lambda c=lying(_m, _r): c()
for _c in (Color, Level, IntMix, Word, StrMix, Mask, Bits, FloatMix, TupMix):
    for _e in _c:
        KINDS[f'{_c.__name__}.{_e.name}'] = lambda e=_e: e
KINDS.update({
    'Mask a|b': lambda: Mask.a | Mask.b, 'Mask 0': lambda: Mask(0), 'Bits 0': lambda: Bits(0), 'Color': lambda: Color, 'no parent': lambda: enum.Enum,
    'OrderedDict': lambda: OrderedDict(x=1), 'Counter': lambda: Counter('ab'), 'defaultdict': lambda: defaultdict(list, x=1), 'UserDict': lambda: UserDict(x=1), 'UserList': lambda: UserList([1]), 'UserString': lambda: UserString('a'), 'ChainMap': lambda: ChainMap({'x': 1}), 'proxy': lambda: _types.MappingProxyType({'x': 1}),
    'deque': lambda: deque([1], 3), 'NTup': NTup, 'time': lambda: time.gmtime(0), 'array': lambda: array.array('i', [1]), 'memoryview': lambda: memoryview(b'ab'), 'released': _released, 'bytearray': lambda: bytearray(b'x'), 'range': lambda: range(1), 'empty range': lambda: range(0), 'slice': lambda: slice(1),
    'keys': lambda: {'x': 1}.keys(), 'items': lambda: {'x': 1}.items(), 'values': lambda: {'x': 1}.values(), 'generator': _gen, 'closed generator': _closed_gen, 'map': lambda: map(str, [1]), 'zip': lambda: zip(), 'enumerate': lambda: enumerate('ab'), 'count': itertools.count, 'iterator': lambda: iter([1]), 'reversed': lambda: reversed([1]),
    'partial': lambda: functools.partial(int), 'partial of parser': lambda: functools.partial(parser), 'partialmethod': lambda: functools.partialmethod(int), 'lru': lambda: functools.lru_cache(lambda: 1), 'cached property': lambda: functools.cached_property(lambda s: 1), 'lambda': lambda: (lambda *a: None), 'builtin': lambda: len, 'bound builtin': lambda: [].append, 'slot': lambda: int.__add__,
    'method wrapper': lambda: (1).__add__, 'bound': lambda: Ctx().__enter__, 'getset': lambda: type.__dict__['__dict__'], 'member': lambda: Slotted.__dict__['x'], 'itemgetter': lambda: operator.itemgetter(0), 'attrgetter': lambda: operator.attrgetter('x'), 'methodcaller': lambda: operator.methodcaller('x'),
    'module': lambda: _types.ModuleType('m'), 'code': lambda: _gen.__code__, 'frame': _frame, 'traceback': _tb, 'cell': lambda: _types.CellType(1), 'int': lambda: int, 'type': lambda: type, 'object': lambda: object, 'NoneType': lambda: type(None), 'Ab': lambda: Ab, 'Meta': lambda: Meta,
    'List[int]': lambda: List[int], 'list[int]': lambda: list[int], 'Union': lambda: Union[int, str], 'int | str': lambda: int | str, 'Any': lambda: Any, 'TypeVar': lambda: TypeVar('T'), 'ForwardRef': lambda: ForwardRef('int'), 'Literal': lambda: Literal[1], 'Annotated': lambda: Annotated[int, 1], 'ClassVar': lambda: ClassVar[int], 'Final': lambda: Final[int],
    'NewType': lambda: NewType('N', int), 'Protocol': lambda: Protocol, 'TypedDict': lambda: TD(x=1), 'weakref': lambda: weakref.ref(KEEP), 'weak proxy': lambda: weakref.proxy(KEEP), 'dead ref': lambda: weakref.ref(A0()), 'WeakSet': lambda: weakref.WeakSet(), 'WeakKey': lambda: weakref.WeakKeyDictionary(),
    'exception': lambda: ValueError('x'), 'caught': _caught, 'group': lambda: ExceptionGroup('g', [ValueError(1)]), 'StopIteration': lambda: StopIteration(1), 'exception class': lambda: KeyError, 'warning': lambda: UserWarning('w'), 'SystemExit': lambda: SystemExit(1), 'KeyboardInterrupt': lambda: KeyboardInterrupt(), 'GeneratorExit': lambda: GeneratorExit(),
    'StringIO': lambda: io.StringIO('{"x": 1}'), 'BytesIO': lambda: io.BytesIO(b'x'), 'closed': lambda: [f := io.StringIO(), f.close()][0], 'date': lambda: datetime.date(2020, 1, 1), 'datetime': lambda: datetime.datetime(2020, 1, 1), 'aware': lambda: datetime.datetime(2020, 1, 1, tzinfo=datetime.timezone.utc), 'timedelta': lambda: datetime.timedelta(0), 'midnight': lambda: datetime.time(0),
    'Decimal': lambda: decimal.Decimal(1), 'Decimal nan': lambda: decimal.Decimal('nan'), 'Decimal snan': lambda: decimal.Decimal('snan'), 'Decimal inf': lambda: decimal.Decimal('inf'), 'Fraction': lambda: fractions.Fraction(1, 3), 'Fraction 1': lambda: fractions.Fraction(1), 'complex': lambda: 1 + 0j, 'inf': lambda: float('inf'), 'nan': lambda: float('nan'), '-0.0': lambda: -0.0,
    'uuid': lambda: uuid.UUID(int=1), 'path': lambda: pathlib.PurePath('a'), 'address': lambda: ipaddress.ip_address('1.1.1.1'), 'pattern': lambda: re.compile('a'), 'match': lambda: re.match('a', 'a'), 'namespace': lambda: _types.SimpleNamespace(x=1), 'empty namespace': lambda: _types.SimpleNamespace(), 'DC': DC, 'DF': DF, 'DC class': lambda: DC, 'Slotted': Slotted, 'WithProp': WithProp,
    'Tracker': Tracker, 'Ab()': Ab, 'AbMap()': AbMap, 'context': Ctx, 'lock': threading.Lock, 'local': threading.local, 'thread': lambda: threading.Thread(), 'queue': queue.Queue, 'event': asyncio.Event, 'contextvar': lambda: contextvars.ContextVar('v'), 'random': random.Random, 'logger': lambda: logging.getLogger('mc'), 'ast': lambda: ast.parse('1'), 'json': lambda: json,
    'mock': unittest.mock.Mock, 'magic': unittest.mock.MagicMock, 'sentinel': lambda: unittest.mock.sentinel.x, 'any': lambda: unittest.mock.ANY, 'call': lambda: unittest.mock.call(1),
    'Rec': Rec, 'Rec2': lambda: Rec(x=2), 'FRec': FRec, 'ORec': lambda: ORec(x=1), 'Rec class': lambda: Rec, 'RecordBase': lambda: RecordBase, 'to_dict': lambda: Rec().to_dict, 'bound exporter': lambda: Rec().to_dict.export_with(sort=True), 'class exporter': lambda: Rec.to_dict, 'importer': lambda: Rec.from_mapping, 'fields': lambda: Rec._fields, 'field': lambda: Rec._fields['x'],
    'Tag': lambda: Tag('x'), 'Select': lambda: Select(keys_to_remove='x'), 'empty select': lambda: Select.empty, 'Factory class': lambda: Factory, 'check': lambda: check, 'hollow': lambda: hollow, 'Loose': lambda: Loose, 'Loose()': Loose, 'CallCoercion': lambda: CallCoercion(int), 'CallValidation': lambda: CallValidation(int), 'parser': lambda: parser(lambda v: {'x': v}),
    'ParseFailure': lambda: ParseFailure('x'), 'bytes': lambda: b'\xff', 'str': lambda: '\ud800', 'json text': lambda: '{"x": 1}', 'long': lambda: 'x' * 5000, 'huge': lambda: 10 ** 5000, 'nested': lambda: [[[]]], 'self list': lambda: [l := [], l.append(l)][0], 'self dict': lambda: [d := {}, d.update(x=d)][0], 'dict x': lambda: {'x': 1}, 'dict int': lambda: {1: 2}, 'dict self': lambda: {'self': 1},
    'set': lambda: {1}, 'frozenset': lambda: frozenset([1]), 'tuple x': lambda: ('x',), 'pair': lambda: ('x', 1), 'pairs': lambda: [('x', 1)], 'None': lambda: None, '...': lambda: ..., 'NotImplemented': lambda: NotImplemented, 'True': lambda: True, '0': lambda: 0, "''": lambda: '', '()': lambda: (), '[]': list, '{}': dict})
TEXT = f'kinds: the same statement for an object of each of {len(KINDS)} kinds (each special method failing or lying, enumeration members, standard library objects, the parts of this library themselves)'
PART = 24


def cases(prop, tier):
    if prop in ONCE:
        for i in range(len(ONCE[prop])):
            yield '__wide__', f'once {i}'
    if prop in ALL:
        labels = list(KINDS)
        for i in range(0, len(labels), PART):
            yield '__wide__', f'kinds {i}'


def run(prop, ctx, case):
    i = int(case.split()[1])
    if case.startswith('once'):
        ONCE[prop][i](ctx)
        ctx.trace()
        return
    for label in list(KINDS)[i:i + PART]:
        ctx.state('kind', prop, label)
        for f in ALL[prop]:
            f(ctx, label, KINDS[label])
        ctx.trace()


def say(r):
    """a description that does not depend on the object"""
    if r[0] == 'ok':
        return f'ok:{type(r[1]).__name__}'
    try:
        return f'{type(r[1]).__name__}: {r[1]}'[:300]
    except Exception:
        return type(r[1]).__name__


def ok(ctx, r, v, key, label, where):
    ctx.op()
    ctx.expect(r[0] == 'ok' and r[1] is v, key, lambda: f'{label}: {where}: {say(r)}')


def no(ctx, r, errors, key, label, where):
    ctx.op()
    ctx.expect(r[0] == 'err' and isinstance(r[1], errors), key, lambda: f'{label}: {where}: {say(r)}, expected {errors}')


class Mark:
    pass


class Mark2(Mark):
    pass


class Unrelated:
    pass


def isinst(v, t):
    """what isinstance() says, or None if it cannot say"""
    try:
        return isinstance(v, t)
    except Exception:
        return None


# construction

def stored(ctx, label, make):
    v = make()
    for style in (hollow, check):
        for fz in (False, True):
            for t in (object, Any, Optional[object]) if style is check else (object, int, List[int]):
                K = mk('K', {'x': t, 'y': object, 'z': int}, {'y': None, 'z': 0}, frozen=fz, default_type_check=style)
                for kw in ({'x': v}, {'x': 1, 'y': v}, {'y': v, 'x': v}, {'z': 3, 'x': v}):
                    r = attempt(lambda: K(**kw))
                    ctx.op()
                    ctx.expect(r[0] == 'ok' and type(r[1]) is K, 'refused', lambda: f'{label}: {style} {t} {sorted(kw)}: {say(r)}')
                    want = {'y': None, 'z': 0, **kw}
                    got = {k: r[1].__dict__[k] for k in K._fields}
                    ctx.expect(all(got[k] is want[k] and getattr(r[1], k) is want[k] for k in want), 'stored', lambda: f'{label}: {style} {t} {sorted(kw)}')
                no(ctx, attempt(lambda: K(x=v, q=v)), TypeError, 'unknown', label, 'an unknown argument')
                no(ctx, attempt(lambda: K(y=v)), TypeError, 'missing', label, 'a missing argument')


def default(ctx, label, make):
    v = make()
    calls = []
    if isinst(v, Factory) or hasattr(type(v), '__set_name__') or hasattr(type(v), '__get__') and hasattr(type(v), '__set__'):
        return
    for fz in (False, True):
        for style in (hollow, check):
            r = attempt(lambda: mk('K', {'x': int, 'y': object, 'z': object, 'w': Annotated[int, CallValidation(calls.append)] if style is not hollow else int}, {'x': v, 'y': Factory(lambda: calls.append(1) or [v]), 'z': v, 'w': v}, frozen=fz, default_type_check=style))
            ctx.op()
            ctx.expect(r[0] == 'ok', 'declaration', lambda: f'{label} as a default: {say(r)}')
            K = r[1]
            for n in range(2):
                r = attempt(K)
                ctx.op()
                ctx.expect(r[0] == 'ok' and calls == [1], 'refused', lambda: f'{label} as a default: {say(r)}, calls {len(calls)}')
                d = r[1].__dict__
                ctx.expect(d['x'] is v and d['z'] is v and d['w'] is v and len(d['y']) == 1 and d['y'][0] is v, 'default', lambda: f'{label} as a default is not what is stored')
                del calls[:]
            o = [v]
            for given in (o, v, None, 0, ''):
                r = attempt(lambda: K(y=given, z=given))
                ctx.op()
                ctx.expect(r[0] == 'ok' and not calls and r[1].__dict__['y'] is given and r[1].__dict__['z'] is given and r[1].__dict__['x'] is v, 'supplied', lambda: f'{label} as a default, another value supplied: {say(r)}, {len(calls)} calls')


CLASSES = [int, str, float, bool, complex, bytes, list, tuple, dict, set, frozenset, type, object, Exception, OrderedDict, Counter, deque, defaultdict, Mark, Color, Level, Mask, DC, Rec, FRec, Tag, datetime.date, pathlib.PurePath, decimal.Decimal, fractions.Fraction, io.StringIO, UserDict]
ABSTRACT = [abc.Mapping, abc.Sequence, abc.Iterable, abc.Callable, abc.Hashable, abc.Sized, abc.Container, abc.Iterator]


def classes(ctx, label, make):
    v = make()
    for style in (check, check_strict):
        for t in CLASSES + ABSTRACT:
            if t in ABSTRACT and style is check_strict:
                continue
            if t is Counter or t in (dict, OrderedDict, defaultdict, list, set, frozenset, deque, tuple, UserDict) or t in ABSTRACT:
                pass
            fits = isinst(v, t)
            if fits is None:
                continue
            if style is check_strict:
                fits = type(v) is t
            r = attempt(lambda: mk('K', {'x': t}, default_type_check=style)(x=v).__dict__['x'])
            (ok if fits else no)(ctx, r, v if fits else TypeError, 'class', label, f'{style} {t}')
        for t in (List[int], Tuple[int, int], Dict[str, int], Set[int], Literal[1], Literal['a', ''], Union[int, str], Type[int], None):
            r = attempt(lambda: mk('K', {'x': t}, default_type_check=style)(x=v).__dict__['x'])
            ctx.op()
            if r[0] == 'ok':
                ctx.expect(r[1] is v, 'changed', lambda: f'{label} is not what is stored in a field of {t}')
            o = getattr(t, '__origin__', None)
            want = {None: v is None, Literal: None, Union: isinst(v, (int, str)) if style is check else type(v) in (int, str)}.get(o)
            if o is Literal:
                want = any(type(v) is type(m) and v == m for m in get_args(t))
            elif o is type:
                want = (type(v) is type if style is check_strict else isinstance(v, type)) and issubclass(v, int)
                if style is check_strict and isinstance(v, type):
                    want = None
            elif isinstance(o, type) and not isinst(v, o):
                want = False
            if want is not None:
                ctx.expect((r[0] == 'ok') == want, 'generic', lambda: f'{label} in a field of {t} {style}: {say(r)}')
            if r[0] == 'err' and not isinst(v, o if isinstance(o, type) else ()):
                ctx.expect(isinstance(r[1], BOTH), 'generic', lambda: f'{label} in a field of {t} {style}: {say(r)}')


def elements(ctx, label, make):
    v = make()
    for style in (hollow, check):
        for con, t in ((list, List), (tuple, lambda: 0), (deque, None)):
            if con is deque:
                continue
            K = mk('K', {'x': Annotated[List[Annotated[object, CallValidation(lambda x: x), check]] if con is list else Tuple[Annotated[object, CallValidation(lambda x: x), check], ...], check]})
            c = con([v, v, 1])
            ok(ctx, attempt(lambda: K(x=c).x), c, 'elements', label, f'in a {con.__name__}')
            K = mk('K', {'x': Annotated[List[Annotated[object, CallValidation(lambda x: 2 if x is c else x), check]] if con is list else Tuple[Annotated[object, CallValidation(lambda x: 2 if x is c else x), check], ...], check]})
            d = con([v, c, v])
            r = attempt(lambda: K(x=d).x)
            ctx.op()
            ctx.expect(r[0] == 'ok' and type(r[1]) is con and len(r[1]) == 3 and r[1][0] is v and r[1][2] is v and r[1][1] == 2 and d[1] is c, 'elements', lambda: f'{label} beside an element that is converted in a {con.__name__}: {say(r)}')
            K = mk('K', {'x': Annotated[List[Annotated[object, CallValidation(lambda x: v), check]] if con is list else Tuple[Annotated[object, CallValidation(lambda x: v), check], ...], check]})
            d = con([c, v])
            r = attempt(lambda: K(x=d).x)
            ctx.op()
            ctx.expect(r[0] == 'ok' and type(r[1]) is con and len(r[1]) == 2 and r[1][0] is v and r[1][1] is v and d[0] is c, 'elements', lambda: f'{label} as the result for an element of a {con.__name__}: {say(r)}')
    K = mk('K', {'x': Annotated[Dict[Annotated[str, check], Annotated[object, check, CallValidation(lambda x: v if type(x) is int else x)]], check]})
    d = {'a': v, 'b': v}
    if type(v) is not int:
        ok(ctx, attempt(lambda: K(x=d).x), d, 'elements', label, 'as a value of a dictionary')
    d = {'a': v, 'b': 0}
    if type(v) is not int:
        r = attempt(lambda: K(x=d).x)
        if True:
            ctx.expect(r[0] == 'ok' and r[1]['a'] is v and r[1]['b'] is v and d['b'] == 0, 'elements', lambda: f'{label} as the result for a value of a dictionary: {say(r)}')
    K = mk('K', {'x': Annotated[List[Annotated[int, check]], check]})
    if not isinst(v, int):
        no(ctx, attempt(lambda: K(x=[1, v])), TypeError, 'elements', label, 'in a list of integers')


# tokens

def coercion(ctx, label, make):
    v = make()
    seen = []
    for style in (check, check_strict):
        for t in (Mark, object):
            res = Mark()
            K = mk('K', {'x': Annotated[t, style, CallCoercion(lambda a: seen.append(a) or 1 / 0), CallCoercion(lambda a: seen.append(a) or a), CallCoercion(lambda a: seen.append(a) or res)]})
            r = attempt(lambda: K(x=v).x)
            fits = t is object
            if t is object:
                if style is check_strict:
                    del seen[:]
                    continue
                ok(ctx, r, v, 'called', label, 'fits')
            else:
                ok(ctx, r, res, 'coerced', label, f'to {t}')
            n = 0 if fits else 3
            ctx.expect(len(seen) == n and all(s is v for s in seen), 'calls', lambda: f'{label}: coercers of {t} got {len(seen)} calls')
            del seen[:]
    # as the result of a coercer
    K = mk('K', {'x': Annotated[Mark, check, CallCoercion(lambda a: v)]})
    no(ctx, attempt(lambda: K(x=1)), Exception, 'result', label, 'the result of a coercer to another type')
    cls = type(v)
    if isinstance(cls, type) and cls.__module__ != 'typing' and not issubclass(cls, (type(None), type(...), type)) and isinst(v, cls) and cls not in (dict, list, tuple, set, type(int | str)):
        for style in (check, check_strict):
            r0 = attempt(lambda: mk('K', {'x': Annotated[cls, style, CallCoercion(lambda a: v)]}))
            if r0[0] == 'ok':
                o = Unrelated()
                if isinst(o, cls) is False:
                    ok(ctx, attempt(lambda: r0[1](x=o).x), v, 'result', label, 'the result of a coercer to its type')


def validation(ctx, label, make):
    v = make()
    seen = []
    for style in (hollow, check):
        K = mk('K', {'x': Annotated[object, style, CallValidation(lambda a: seen.append(a) or v), CallValidation(lambda a: seen.append(a) or a)]})
        o = object()
        ok(ctx, attempt(lambda: K(x=o).__dict__['x']), v, 'result', label, 'as the result of a validator')
        ctx.expect(len(seen) == 2 and seen[0] is o and seen[1] is v, 'chain', lambda: f'{label}: {len(seen)} calls')
        del seen[:]
        ok(ctx, attempt(lambda: K(x=v).__dict__['x']), v, 'result', label, 'through a validator')
        del seen[:]
        # as the result of an assertion
        want = attempt(bool, v)
        for warn in (False, True):
            K = mk('K', {'x': Annotated[object, style, AssertCallValidation(lambda a: v, warn=warn)]})
            with warnings.catch_warnings(record=True) as ws:
                warnings.simplefilter('always')
                r = attempt(lambda: K(x=o).x)
            ctx.op()
            fine = want == ('ok', True) if want[0] == 'ok' else False
            if want[0] == 'err':
                ctx.expect(r[0] == 'err', 'assertion', lambda: f'{label} as the result of an assertion: {say(r)}')
            else:
                ctx.expect((r[0] == 'ok' and r[1] is o) if fine or warn else r[0] == 'err' and isinstance(r[1], ValueError), 'assertion', lambda: f'{label} as the result of an assertion: {say(r)}')
                ws = [w for w in ws if w.category is UserWarning]
                ctx.expect(len(ws) == (warn and not fine), 'warnings', lambda: f'{label} as the result of an assertion: {len(ws)} warnings')
        for warn in (False, True):
            K = mk('K', {'x': Annotated[object, style, AssertCallValidation(lambda a: False, warn=warn)]})
            with warnings.catch_warnings(record=True) as ws:
                warnings.simplefilter('always')
                r = attempt(lambda: K(x=v).__dict__['x'])
            if warn:
                ok(ctx, r, v, 'warned', label, 'failing an assertion that warns')
            else:
                no(ctx, r, ValueError, 'assertion', label, 'failing an assertion')
            ctx.expect(len(ws) == warn, 'warnings', lambda: f'{label} failing an assertion: {len(ws)} warnings')


def unions(ctx, label, make):
    v = make()
    for alts in (Union[Mark, object], Union[object, Mark], Union[int, object], Union[object, str, int], Union[Mark, Any], Union[object, Mark, None]):
        K = mk('K', {'x': Annotated[alts, check]})
        ok(ctx, attempt(lambda: K(x=v).__dict__['x']), v, 'stored', label, f'{alts}')
    for order in itertools.permutations([Annotated[object, check, CallValidation(lambda a: a)], Annotated[Mark, check, CallValidation(lambda a: Unrelated())], Annotated[Mark2, check, CallCoercion(lambda a: Mark2())]]):
        K = mk('K', {'x': Union[order]})
        r = attempt(lambda: K(x=v).__dict__['x'])
        ok(ctx, r, v, 'best', label, f'{order}'[:200])
    for order in itertools.permutations([Annotated[Mark, check, CallCoercion(lambda a: Mark())], Annotated[Mark2, check_strict], Annotated[object, hollow]]):
        K = mk('K', {'x': Union[order]})
        r = attempt(lambda: K(x=v).__dict__['x'])
        ctx.op()
        ctx.expect(r[0] == 'ok' and type(r[1]) is Mark, 'best', lambda: f'{label}: {order}: {say(r)}'[:400])
    # as the result of two alternatives: the same object, or two
    for same_ in (True, False):
        if not same_ and make() is v:
            continue
        K = mk('K', {'x': Union[Annotated[Mark, check, CallValidation(lambda a: v)], Annotated[Mark2, hollow, CallValidation(lambda a: 3)], Annotated[NewType('N', Mark), check, CallValidation(lambda a: v if same_ else make())]]})
        m = Mark()
        r = attempt(lambda: K(x=m).__dict__['x'])
        if same_:
            ok(ctx, r, v, 'same', label, 'the result of two alternatives')
        else:
            no(ctx, r, ValueError, 'ambiguous', label, 'two objects as the results of two alternatives')


def cross(ctx, label, make):
    """what a class has done with the object does not matter later"""
    v = make()

    def build():
        return mk('K', {'x': Annotated[Union[int, str, Mark], check, Whole], 'y': Annotated[List[int], check], 'z': object}, {'y': Factory(list), 'z': None}), mk('F', {'x': object, 'y': Annotated[int, check]}, {'y': 0}, frozen=True)

    def probe(K, F):
        out = []
        for a in (lambda: K(x=1), lambda: K(x=True), lambda: K(x='a'), lambda: K(x=1.0), lambda: K(x=None), lambda: K(x=1, y=[1]), lambda: K(x=1, y=[True, 1]), lambda: K(x=1, y=['a']), lambda: F(x=1), lambda: F(1), lambda: F(x=1, y='a'), lambda: F.parse({'x': 1}), lambda: K.from_mapping({'x': 1})):
            r = attempt(a)
            out.append((r[0], canon_(r[1])))
        return out

    def canon_(x):
        return repr(x) if not isinstance(x, Exception) else (type(x).__name__, str(x))
    K, F = build()
    want = probe(K, F)
    for use in (lambda: K(x=v), lambda: K(x=1, y=[v]), lambda: K(x=1, z=v), lambda: F(x=v), lambda: F(v), lambda: F(x=1, y=v), lambda: F.parse(v), lambda: K.from_mapping(v), lambda: K.from_instance(v), lambda: K(x=1, z=v) == K(x=1, z=v), lambda: hash(F(x=v)), lambda: copy.deepcopy(K(x=1, z=v)), lambda: repr(F(x=v)),
                lambda: F.to_dict(v), lambda: K(**{'x': 1, 'w': v})):
        attempt(use)
        got = probe(K, F)
        ctx.op()
        ctx.expect(got == want, 'history', lambda: f'{label}: {got} after, {want} before'[:800])


def truth(ctx, label, make):
    from records import FullMatch, Truth, Within
    v = make()
    want = attempt(bool, v)
    r = attempt(lambda: mk('K', {'x': Annotated[object, Truth()]})(x=v).__dict__['x'])
    if want == ('ok', True):
        ok(ctx, r, v, 'truth', label, 'Truth')
    else:
        no(ctx, r, ValueError if want[0] == 'ok' else Exception, 'truth', label, 'Truth')
    for p, t in (('a?', str), (b'a?', bytes)):
        r = attempt(lambda: mk('K', {'x': Annotated[object, FullMatch(p)]})(x=v).__dict__['x'])
        if t is bytes and isinst(v, (bytes, bytearray, memoryview, array.array)):
            continue
        fits = isinst(v, t) and attempt(lambda: v.__class__ and str.__eq__(v, 'a') or str.__len__(v) == 0) == ('ok', True)
        (ok if fits else no)(ctx, r, v if fits else Exception, 'match', label, 'FullMatch')
    for w in (Within(), Within(g_eq=False), Within(l_eq=True)):
        if type(v).__lt__ is object.__lt__ and type(v).__gt__ is object.__gt__ and type(v).__le__ is object.__le__ and type(v).__ge__ is object.__ge__ and label not in ('fails __getattr__',):
            ok(ctx, attempt(lambda: mk('K', {'x': Annotated[object, w]})(x=v).__dict__['x']), v, 'within', label, 'no bounds')


# parsing

def parsing(ctx, label, make):
    v = make()
    for single in (True, False):
        K = mk('K', {'x': object} if single else {'x': object, 'y': object}, {} if single else {}, unary_parse=False)
        r = attempt(lambda: K(v).__dict__['x'])
        if single:
            ok(ctx, r, v, 'positional', label, 'for the only required field')
        else:
            no(ctx, r, TypeError, 'positional', label, 'where there is no reading')
        no(ctx, attempt(lambda: K(v, x=v)), TypeError, 'positional', label, 'alongside the field')
    for fail in (True, False):
        got, results = [], [Unrelated()]

        def p(a):
            got.append(a)
            if fail:
                raise KeyError('no')
            return results[-1]
        K = mk('K', {'x': object, 'y': object}, body={'p': parser(p)})
        builtin = isinst(v, RecordBase) or isinst(v, (str, bytes, bytearray)) or isinst(v, abc.Mapping) or getattr(type(v), '__getattr__', None) is not None or isinst(v, unittest.mock.Mock) or type(v).__class__ is unittest.mock.Mock
        r = attempt(lambda: K.parse(v))
        ctx.op()
        if not builtin:
            if fail:
                ctx.expect(r[0] == 'err' and isinstance(r[1], ParseFailure), 'failure', lambda: f'{label}: {say(r)}')
            else:
                ctx.expect(r == ('ok', results[0]), 'parsed', lambda: f'{label}: {say(r)}')
                r = attempt(lambda: K(v))
                ctx.expect(r == ('ok', results[0]), 'parsed', lambda: f'{label}: {say(r)}')
        ctx.expect(len(got) >= 1 and all(g is v for g in got), 'argument', lambda: f'{label}: {len(got)} calls of the parser')
    if isinst(v, abc.Iterator) and label not in ('weak proxy', 'closed', 'count', 'mock', 'magic', 'fails __next__', 'any', 'StringIO', 'BytesIO'):
        want = list(make())
        for name in ('a', 'from_n', 'zz'):
            K = mk('K', {'x': object, 'y': object}, body={name: parser(lambda a: list(a) + ['end'])})
            r = attempt(lambda: K.parse(make()))
            ctx.expect(r == ('ok', want + ['end']), 'consumed', lambda: f'{label} for a parser named {name}: {say(r)}')
    # as what a parser returns
    K = mk('K', {'x': object, 'y': object}, body={'p': parser(lambda a: v)})
    r = attempt(lambda: K.parse(7))
    ctx.op()
    if isinst(v, abc.Mapping) is False and not isinst(v, RecordBase) and not hasattr(type(v), 'keys') and not getattr(type(v), '__getattr__', None):
        try:
            dict(v)
        except Exception:
            ctx.expect(r[0] == 'err' and isinstance(r[1], ParseFailure) or r[0] == 'ok', 'escaped', lambda: f'{label} as the result of a parser: {say(r)}')


def exceptions_of_parsers(ctx, label, make):
    e = make()
    if not isinst(e, Exception) or isinstance(e, type):
        return

    def p(a):
        raise e
    K = mk('K', {'x': object, 'y': object}, body={'p': parser(p)})
    no(ctx, attempt(lambda: K.parse(7)), ParseFailure, 'escaped', label, 'raised by a parser')
    r = attempt(lambda: K.parse({'x': 1, 'y': 2}))
    ctx.expect(r[0] == 'ok' and r[1].x == 1, 'parsed', lambda: f'{label} raised by another parser: {say(r)}')


def attributes(ctx, label, make):
    """class attributes that are not parsers are not used"""
    v = make()
    if label == 'parser' or hasattr(type(v), '__set_name__'):
        return
    r = attempt(lambda: mk('K', {'x': object, 'y': object}, body={'p': v, 'a': v, 'zz': v}))
    ctx.op()
    if getattr(type(v), '__getattr__', None) is not None or isinst(v, unittest.mock.NonCallableMock) or label in ('any', 'fails __parser__') or getattr(type(v), '__parser__', None):
        return
    ctx.expect(r[0] == 'ok', 'declaration', lambda: f'{label} as a class attribute: {say(r)}')
    K = r[1]
    for arg, fine in ((7, False), ({'x': 1, 'y': 2}, True), ('{"x": 1, "y": 2}', True), (None, False)):
        r = attempt(lambda: K.parse(arg))
        ctx.op()
        ctx.expect(r[0] == 'ok' and r[1].x == 1 and r[1].y == 2 if fine else r[0] == 'err' and isinstance(r[1], ParseFailure), 'attribute', lambda: f'{label} as a class attribute, parsing {arg}: {say(r)}')


# the rest

def assignment(ctx, label, make):
    v = make()
    for fz in (False, True):
        for parent in (None, False, True):
            P = (RecordBase,) if parent is None else (mk('P', {'x': object, 'y': object}, {'y': 0}, frozen=parent),)
            K = mk('K', {'x': object, 'y': object} if parent is None else {'w': object}, {'y': 0} if parent is None else {'w': 0}, bases=P, frozen=fz)
            i, other = K(x=1), K(x=2)
            for name in ('x', 'y', 'new', '_hash2', '__weird__'):
                r = attempt(setattr, i, name, v)
                ctx.op()
                if fz:
                    ctx.expect(r[0] == 'err' and isinstance(r[1], TypeError) and name not in i.__dict__ or r[0] == 'err' and isinstance(r[1], TypeError) and i.x == 1 and i.y == 0, 'assigned', lambda: f'{label} to {name}: {say(r)}')
                else:
                    ctx.expect(r[0] == 'ok' and i.__dict__[name] is v and getattr(i, name) is v and other.x == 2 and other.y == 0 and name not in ({*other.__dict__} - {'x', 'y'}), 'assigned', lambda: f'{label} to {name}: {say(r)}')
            j = K(x=v)
            no(ctx, attempt(setattr, j, 'x', 5), TypeError, 'assigned', label, 'in a frozen instance') if fz else None
            no(ctx, attempt(delattr, j, 'x'), TypeError, 'deleted', label, 'in a frozen instance') if fz else None
            ctx.expect(not fz or j.__dict__['x'] is v, 'changed', lambda: label)


def equality(ctx, label, make):
    v = make()
    for fz in (False, True):
        K, L = mk('K', {'x': object}, frozen=fz), mk('L', {'x': object}, frozen=fz)
        a, b = K(x=1), K(x=v)
        for i in (a, b):
            if not isinst(v, K):
                r = attempt(lambda: (i == v, i != v))
                ctx.op()
                ctx.expect(r == ('ok', (False, True)), 'non-record', lambda: f'{label}: {say(r)} {r[1] if r[0] == "ok" else ""}')
        c, d = K(x=v), L(x=v)
        r = attempt(lambda: (b == d, b != d))
        ctx.expect(r == ('ok', (False, True)), 'classes', lambda: f'{label} in records of different classes: {say(r)}')
        for w in (v, make(), 1, None):
            k = K(x=w)
            e, n = attempt(lambda: b == k), attempt(lambda: b != k)
            ctx.op(2)
            ctx.expect(e[0] == n[0] and (e[0] == 'err' or type(e[1]) is bool and type(n[1]) is bool and e[1] is not n[1]), 'negation', lambda: f'{label}: == {say(e)} {e[0] == "ok" and e[1]}, != {say(n)} {n[0] == "ok" and n[1]}')
        if fz:
            h = attempt(hash, v)
            h1, h2 = attempt(hash, b), attempt(hash, c)
            ctx.op()
            if h[0] == 'ok':
                ctx.expect(h1[0] == h2[0] == 'ok' and h1[1] == h2[1] == hash(b), 'hash', lambda: f'{label}: {say(h1)} {say(h2)}')
                ctx.expect(b in {b} and {b: 1}[b] == 1, 'lookup', lambda: label)
        else:
            no(ctx, attempt(hash, b), TypeError, 'hash', label, 'in an instance of a class that is not frozen')


OPS = {'<': operator.lt, '<=': operator.le, '>': operator.gt, '>=': operator.ge}


def ordering(ctx, label, make):
    v = make()
    for fz in (False, True):
        K = mk('K', {'x': object, 'z': object}, {'z': 0}, frozen=fz, ordered=True)
        a, b, c = K(x=v, z=1), K(x=v, z=2), K(x=1)
        for n, op in OPS.items():
            alone = attempt(op, object(), v)
            if not isinst(v, K) and alone[0] == 'err' and isinstance(alone[1], TypeError):
                no(ctx, attempt(op, c, v), TypeError, 'unrelated', label, f'a record {n} it')
            w = make()
            for p, q in (((v, 1), (w, 2)), ((v, 1), (v, 1)), ((1, v), (1, w)), ((1, v), (2, v)), ((2, v), (1, v))):
                i, j = K(x=p[0], z=p[1]), K(x=q[0], z=q[1])
                want, got = attempt(op, p, q), attempt(op, i, j)
                ctx.op()
                ctx.expect(want[0] == got[0] and (want[0] == 'err' or want[1] is got[1]), 'ordering', lambda: f'{label}: {n}: {say(got)}, tuples {say(want)}')
        N = mk('N', {'x': object}, frozen=fz)
        for n, op in OPS.items():
            no(ctx, attempt(op, N(x=v), N(x=v)), TypeError, 'not ordered', label, n)
            no(ctx, attempt(op, N(x=v), c), TypeError, 'not ordered', label, n)


def simple(v):
    """its equality is that of objects in general"""
    return type(v).__eq__ is object.__eq__ and type(v).__ne__ is object.__ne__


def export(ctx, label, make):
    v = make()
    for fz in (False, True):
        d = mk('D', {'x': object, 'y': object, 'w': object}, {'y': 5, 'w': Factory(list)}, frozen=fz)
        i = d(x=v)
        for kw in ({}, {'include_defaults': True}, {'sort': True}, {'sort': -1}, {'whitelist_keys': ['x', 'y']}, {'blacklist_tags': Tag('no')}, {'sort': len, 'include_defaults': True}):
            r = attempt(lambda: i.to_dict(**kw))
            ctx.op()
            ctx.expect(r[0] == 'ok' and type(r[1]) is dict and r[1]['x'] is v and set(r[1]) == {'x', 'w'} | ({'y'} if 'include_defaults' in kw or 'whitelist_keys' in kw else set()), 'export', lambda: f'{label} {sorted(kw)}: {say(r)} {list(r[1]) if r[0] == "ok" else ""}')
            f = type('O', (), {'x': 1})()
            f.__dict__.update(x=v, w=v)
            r = attempt(lambda: d.to_dict(f, **kw))
            ctx.expect(r[0] == 'ok' and r[1]['x'] is v and r[1]['w'] is v, 'foreign', lambda: f'{label} as an attribute of another object, {sorted(kw)}: {say(r)}')
        ctx.expect(i.__dict__['x'] is v, 'changed', lambda: label)
        # a default
        if not hasattr(type(v), '__set_name__') and not (hasattr(type(v), '__get__') and hasattr(type(v), '__set__')):
            K = mk('K', {'x': object, 'y': object}, {'x': v, 'y': 0}, frozen=fz)
            if simple(v):
                r = attempt(lambda: list(K().to_dict()))
                ctx.expect(r == ('ok', []), 'default', lambda: f'{label} as a default: {say(r)}')
            r = attempt(lambda: K(x=v, y=1).to_dict(include_defaults=True))
            ctx.expect(r[0] == 'ok' and r[1]['x'] is v and list(r[1]) == ['x', 'y'], 'default', lambda: f'{label} as a default, included: {say(r)}')


class Only:
    """a container that supports membership tests only"""

    def __init__(self, *what):
        self.what = what

    def __contains__(self, o):
        return any(w == o for w in self.what)

    def __iter__(self):
        raise Broken('not to be iterated over')

    __len__ = __bool__ = __hash__ = __eq__ = __iter__


def selects(ctx, label, make):
    v = make()
    src = {'a': v, 'b': 1, 'c': v}
    for s, want in ((Select(keys_to_remove='b'), {'a': v, 'c': v}), (Select(keys_to_rename=[('a', 'z')]), {'z': v, 'b': 1, 'c': v}), (Select(keys_to_add={'n': v}), {**src, 'n': v}), (Select(keys_to_add=[('n', v)]), {**src, 'n': v}), (Select(keys_to_maybe_add={'a': 1, 'n': v}), {**src, 'n': v}), (Select(keys_to_maybe_add={'b': v}), src), (Select(keys_to_maybe_rename={'a': 'q', 'w': 'e'}), {'q': v, 'b': 1, 'c': v}),
                    (Select(keys_to_maybe_remove=['b', 'w']), {'a': v, 'c': v}), (Select(keys_to_remove='a', keys_to_add={'a': v}), src)):
        d = dict(src)
        r = attempt(lambda: s(d))
        if r[0] == 'ok' and r[1] is not None:
            d = r[1]
        ctx.op()
        ctx.expect(r[0] == 'ok' and d.keys() == want.keys() and all(d[k] is want[k] for k in want), 'select', lambda: f'{label}: {say(r)} {list(d)}')
    K = mk('K', {'a': object, 'b': object, 'n': object}, {'n': 0})
    r = attempt(lambda: K(a=v, b=v).to_dict.select(keys_to_rename={'a': 'z'}, keys_to_add={'q': v}, keys_to_remove=['b'])())
    ctx.op()
    ctx.expect(r[0] == 'ok' and set(r[1]) == {'z', 'q'} and r[1]['z'] is v and r[1]['q'] is v, 'select', lambda: f'{label} exported: {say(r)}')
    r = attempt(lambda: K.from_mapping.select(keys_to_rename={'z': 'a'}, keys_to_add={'b': v}, keys_to_remove=['q'])({'z': v, 'q': v}))
    ctx.expect(r[0] == 'ok' and r[1].__dict__['a'] is v and r[1].__dict__['b'] is v, 'select', lambda: f'{label} imported: {say(r)}')


def imports(ctx, label, make):
    v = make()
    for fz in (False, True):
        K = mk('K', {'x': object, 'y': object}, {'y': Factory(lambda: 'none')}, frozen=fz)
        ns = type('O', (), {})()
        ns.__dict__.update(x=v, y=1)
        other = mk('M', {'x': object, 'y': object, 'w': object}, {'w': 3})(x=v, y=1)
        m = {'x': v, 'y': 1}
        for what, f in (('mapping', lambda: K.from_mapping(m)), ('keywords', lambda: K.from_mapping(x=v, y=1)), ('both', lambda: K.from_mapping({'x': v}, {'x': 0, 'y': 1})), ('chain', lambda: K.from_mapping(ChainMap({'x': v}, {'y': 1}))), ('proxy', lambda: K.from_mapping(_types.MappingProxyType(m))),
                        ('instance', lambda: K.from_instance(ns)), ('own', lambda: K.from_instance(K(x=v, y=1))), ('other', lambda: K.from_instance(other)), ('override', lambda: K.from_instance(K(x=0, y=1), {'x': v})), ('keyword', lambda: K.from_instance(K(x=0, y=1), {'x': 5}, x=v)), ('parse', lambda: K.parse(m))):
            if what == 'parse' and isinst(v, object) is None:
                continue
            r = attempt(f)
            ctx.op()
            ctx.expect(r[0] == 'ok' and type(r[1]) is K and r[1].__dict__['x'] is v and r[1].y == 1, 'import', lambda: f'{label} from {what}: {say(r)}')
        ctx.expect(m['x'] is v and len(m) == 2, 'changed', lambda: label)


def copies(ctx, label, make):
    v = make()
    if isinst(v, unittest.mock.NonCallableMock):
        return
    for fz in (False, True):
        K = mk('K', {'x': object, 'y': object, 'z': object}, {'y': Factory(list), 'z': 0}, frozen=fz)
        i = K(x=v, z=3)
        r = attempt(copy.copy, i)
        ctx.op()
        ctx.expect(r[0] == 'ok' and (r[1] is i if fz else r[1] is not i and type(r[1]) is K and r[1].__dict__['x'] is v and r[1].y is i.y and r[1].z == 3), 'copy', lambda: f'{label}: {say(r)}')
        memo = {}
        want = attempt(lambda: copy.deepcopy([v, v]))
        r = attempt(lambda: copy.deepcopy([i, v, i]))
        ctx.op()
        ctx.expect(r[0] == want[0], 'deepcopy', lambda: f'{label}: {say(r)}, alone {say(want)}')
        if r[0] == 'ok':
            c, w, c2 = r[1]
            ctx.expect(c is c2 and c is not i and type(c) is K and c.__dict__['x'] is w and c.y is not i.y and type(w) is type(want[1][0]) and (w is v) == (want[1][0] is v) and c.z == 3, 'deepcopy', lambda: f'{label}: copied {w is v}, alone {want[1][0] is v}')
    # inside other objects
    for wrap, unwrap in ((lambda o: (1, o), lambda t: t[1]), (lambda o: frozenset([o]), lambda t: next(iter(t))), (lambda o: {'k': (o,)}, lambda t: t['k'][0]), (lambda o: {o: 1}, lambda t: next(iter(t))), (lambda o: deque([o]), lambda t: t[0]), (lambda o: OrderedDict(k=o), lambda t: t['k']), (lambda o: _types.SimpleNamespace(k=o), lambda t: t.k),
                         (lambda o: NTup(o), lambda t: t.x), (lambda o: FRec2(x=o), lambda t: t.x), (lambda o: slice_of(o), lambda t: t.args[0])):
        w0 = attempt(wrap, v)
        if w0[0] == 'err':
            continue
        alone = attempt(lambda: copy.deepcopy([w0[1], v]))
        K = mk('K', {'x': object, 'y': object})
        r = attempt(lambda: copy.deepcopy(K(x=w0[1], y=v)))
        ctx.op()
        ctx.expect(r[0] == alone[0], 'deepcopy', lambda: f'{label} inside a {type(w0[1]).__name__}: {say(r)}, alone {say(alone)}')
        if r[0] == 'ok':
            d = r[1].__dict__
            ctx.expect((d['x'] is w0[1]) == (alone[1][0] is w0[1]) and (d['y'] is v) == (alone[1][1] is v) and (unwrap(d['x']) is d['y']) == (unwrap(alone[1][0]) is alone[1][1]), 'sharing', lambda: f'{label} inside a {type(w0[1]).__name__}')


class FRec2(RecordBase, frozen=True):
    x: object


def slice_of(o):
    return functools.partial(int, o)


def inherit(ctx, label, make):
    v = make()
    if hasattr(type(v), '__set_name__') or hasattr(type(v), '__get__') and hasattr(type(v), '__set__'):
        return
    A = mk('A', {'x': int, 'q': Annotated[int, check]}, {'x': v, 'q': v})
    B = mk('B', {'y': int}, {'y': v})
    for kw in ({}, {'frozen': True}):
        C = mk('C', {'z': object}, {'z': v}, bases=(A, B), **kw)
        D = mk('D', {'w': object}, {'w': 0}, bases=(C,))
        for K, names in ((C, 'xqyz'), (D, 'xqyzw')):
            r = attempt(K)
            ctx.op()
            ctx.expect(r[0] == 'ok' and ''.join(K._fields) == names and all(r[1].__dict__[k] is v for k in 'xqyz'), 'inherited', lambda: f'{label} as an inherited default: {say(r)}')
            no(ctx, attempt(lambda: K(q='a')), TypeError, 'style', label, 'an inherited default, a bad value')
    # mixins with attributes of the names of fields
    if getattr(type(v), '__getattr__', None) is not None:
        return
    M = type('M', (), {'x': v, 'y': v, 'other': v})
    for bases in ((A, B, M), (A, M, B), (M, A, B), (A, M), (M, A)):
        r = attempt(lambda: mk('E', {'z': object}, {'z': 1}, bases=bases))
        ctx.op()
        ctx.expect(r[0] == 'ok', 'mixin', lambda: f'{label} as an attribute of a mixin: {say(r)}')
        want = ['x', 'q', 'y', 'z'] if B in bases else ['x', 'q', 'z']
        ctx.expect(list(r[1]._fields) == want, 'mixin', lambda: f'{label} as an attribute of a mixin: fields {list(r[1]._fields)}')
        i = attempt(lambda: r[1](x=1, q=2))
        if not (hasattr(type(v), '__set__') or hasattr(type(v), '__get__')):
            ctx.expect(i[0] == 'ok' and i[1].x == 1 and i[1].q == 2, 'mixin', lambda: f'{label} as an attribute of a mixin: {say(i)}')
    ctx.expect(list(A._fields) == ['x', 'q'] and list(B._fields) == ['y'], 'parents', lambda: label)


def keys(ctx, label, make):
    """as the key of a part, only the right ones work"""
    v = make()

    def build(how):
        T = {'tuple': Tuple[int, int], 'list': List[int], 'dict': Dict[str, int], 'union': Union[int, str], 'plain': int}[how]
        return T
    for how in ('tuple', 'list', 'dict', 'union', 'plain'):
        if label in ('...', 'None', '0', 'True', 'int') or isinst(v, (int, str, type)) or isinst(v, (type, abc.Callable)) or type(v).__eq__ is not object.__eq__:
            continue
        err = []

        seen = []

        def pre(cls):
            for add in (cls.x.add_validator, cls.x.add_coercer, cls.x.add_assert_validator):
                try:
                    add(lambda a: seen.append(a) or a, sub_key=v)
                    err.append('accepted')
                except Exception as e:
                    err.append(type(e).__name__)
        K = mk('K', {'x': build(how)}, body={'pre_bind': classmethod(pre)}, default_type_check=check)
        good = {'tuple': (1, 2), 'list': [1], 'dict': {'a': 1}, 'union': 1, 'plain': 1}[how]
        r = attempt(lambda: K(x=good).x)
        ctx.op()
        ctx.expect(r[0] == 'ok' and r[1] is good and not seen and 'accepted' not in err, 'key', lambda: f'{label} as the key of a part of {how}: {say(r)}, {err}, {len(seen)} calls')


def rejected(ctx, label, make):
    v = make()
    for t in (Mark, Optional[Mark], Union[Mark, FRec2], Literal['zz', 77]):
        if isinst(v, FRec2) or v is None:
            continue
        K = mk('K', {'a': object, 'offender': t, 'b': object}, {'a': 0, 'b': 0}, default_type_check=check)
        for kw in ({'offender': v}, {'a': v, 'offender': v}, {'offender': v, 'b': v}):
            r = attempt(lambda: K(**kw))
            ctx.op()
            ctx.expect(r[0] == 'err' and isinstance(r[1], BOTH) and r[1].__cause__ is not None and type(r[1]) is type(r[1].__cause__) and 'offender' in str(r[1]), 'error', lambda: f'{label} for {t}: {say(r)} from {type(getattr(r[1], "__cause__", None))}')
    for t, E in (('validator', CallValidation), ('assertion', AssertCallValidation)):
        def f(a):
            raise KeyError('inner')
        K = mk('K', {'offender': Annotated[object, check, E(f)]})
        r = attempt(lambda: K(offender=v))
        ctx.op()
        ctx.expect(r[0] == 'err' and type(r[1]) is KeyError and type(r[1].__cause__) is KeyError and r[1].__cause__.args == ('inner',) and 'offender' in str(r[1]), 'error', lambda: f'{label} refused by a {t}: {say(r)}')
    for E, args in ((ValueError, ('w',)), (TypeError, (v,)), (LookupError, (v, v)), (OSError, (v, v)), (ValueError, ())):
        r = attempt(E, *args)
        if r[0] == 'err':
            continue
        e = r[1]

        def f(a):
            raise e
        K = mk('K', {'offender': Annotated[object, check, CallValidation(f)]})
        r = attempt(lambda: K(offender=v))
        ctx.op()
        ctx.expect(r[0] == 'err' and type(r[1]) is (type(e) if E is not OSError else type(r[1])) and isinstance(r[1], E) and r[1].__cause__ is e and 'offender' in str(r[1]), 'error', lambda: f'{label} in the arguments of an error: {say(r)}')
    # an error with attributes set later
    for E in (ValueError, TypeError, OSError, KeyError, ImportError, SyntaxError, StopIteration, AttributeError, NameError, UserWarning, FileNotFoundError, RecursionError, MemoryError, ArithmeticError, EOFError):
        for name in ('errno', 'strerror', 'filename', 'args2', 'msg', 'lineno', 'name', 'obj', 'value', 'code', 'message', '__notes__', 'reason', 'path'):
            def f(a):
                e = E('w')
                try:
                    setattr(e, name, [v] if name == '__notes__' else v)
                except Exception:
                    pass
                raise e
            K = OFFENDERS[0]
            OFFENDERS[1] = f
            r = attempt(lambda: K(offender=1))
            ctx.op()
            ctx.expect(r[0] == 'err' and type(r[1]) is E and type(r[1].__cause__) is E and attempt(lambda: 'offender' in str(r[1])) == ('ok', True), 'error', lambda: f'{label} as the {name} of a {E.__name__}: {say(r)}')
    if isinst(v, Exception) and not isinstance(v, type):
        def f(a):
            raise v
        OFFENDERS[1] = f
        r = attempt(lambda: OFFENDERS[0](offender=1))
        ctx.op()
        want = type(v)
        try:
            want('m')
        except Exception:
            want = ValueError
        ctx.expect(r[0] == 'err' and type(r[1]) is want and r[1].__cause__ is v and 'offender' in str(r[1]), 'error', lambda: f'{label} raised: {say(r)}')


OFFENDERS = [None, None]
OFFENDERS[0] = mk('Off', {'offender': Annotated[object, check, CallValidation(lambda a: OFFENDERS[1](a))]})


def declare(ctx, label, make):
    v = make()
    if hasattr(type(v), '__set_name__'):
        return
    r = attempt(lambda: mk('K', {'x': int, 'c': ClassVar[object], 'y': int}, {'y': 1}, {'plain': v, 'c': v}))
    ctx.op()
    if getattr(type(v), '__getattr__', None) is not None or isinst(v, unittest.mock.NonCallableMock) or label in ('any', 'fails __parser__'):
        return
    ctx.expect(r[0] == 'ok' and list(r[1]._fields) == ['x', 'y'] and vars(r[1])['plain'] is v and vars(r[1])['c'] is v, 'attribute', lambda: f'{label} as a class attribute: {say(r)}')
    i = attempt(lambda: r[1](x=1))
    ctx.expect(i[0] == 'ok' and 'plain' not in vars(i[1]) and list(i[1].to_dict(include_defaults=True)) == ['x', 'y'], 'attribute', lambda: f'{label} as a class attribute: {say(i)}')
    no(ctx, attempt(lambda: r[1](x=1, plain=v)), TypeError, 'attribute', label, 'assigned to a class attribute')


def replacement(ctx, label, make):
    v = make()
    for fz in (False, True):
        seen = []
        K = mk('K', {'x': object, 'y': object}, {'y': 0}, {'post_new': lambda self: seen.append(self.__dict__.get('x')) or v}, frozen=fz)
        for what, f in (('keywords', lambda: K(x=1)), ('mapping', lambda: K.from_mapping({'x': 1})), ('instance', lambda: K.from_instance(Unr(1))), ('json', lambda: K.from_json('{"x": 1}'))):
            del seen[:]
            r = attempt(f)
            ctx.op()
            ctx.expect(r[0] == 'ok' and (type(r[1]) is K if v is None else r[1] is v) and seen == [1], 'replacement', lambda: f'{label} from {what}: {say(r)}, {len(seen)} calls')
        seen2 = []
        K = mk('K', {'x': object}, {}, {'post_new': lambda self: seen2.append(self.__dict__['x'])}, frozen=fz)
        r = attempt(lambda: K(x=v))
        ctx.expect(r[0] == 'ok' and type(r[1]) is K and len(seen2) == 1 and seen2[0] is v, 'hook', lambda: f'{label} as a value: {say(r)}')
        if isinst(v, Exception) and not isinstance(v, type):
            def hook(self):
                raise v
            K = mk('K', {'x': object}, {}, {'post_new': hook}, frozen=fz)
            r = attempt(lambda: K(x=1))
            ctx.expect(r[0] == 'err' and r[1] is v, 'propagated', lambda: f'{label} raised by the hook: {say(r)}')


class Unr:
    def __init__(self, x):
        self.x = x


def tags(ctx, label, make):
    v = make()
    h = attempt(hash, v)
    if h[0] == 'err':
        return
    t, u = Tag(v), Tag(v)
    r = attempt(lambda: (hash(t) == hash(u)))
    ctx.op()
    ctx.expect(r == ('ok', True), 'hash', lambda: f'{label}: {say(r)}')
    if simple(v):
        other = Tag(object())
        ctx.expect(t == u and not t != u and t != other and t in {u} and t != v and other not in {t}, 'equality', lambda: label)
        for e in (make(),):
            ctx.expect((t == Tag(e)) is (v is e), 'equality', lambda: f'{label} and another one')
        T = mk('T', {'a': Annotated[object, t], 'b': Annotated[object, other], 'c': Annotated[object, other, u], 'd': object})
        r = attempt(lambda: list(T._fields.filter_by_tag(Tag(v))))
        ctx.expect(r[0] == 'ok' and [n if isinstance(n, str) else n.name for n in r[1]] == ['a', 'c'], 'filter', lambda: f'{label}: {say(r)}')
        r = attempt(lambda: T(a=1, b=2, c=3, d=4).to_dict(blacklist_tags=Tag(v)))
        ctx.expect(r[0] == 'ok' and list(r[1]) == ['b', 'd'], 'export', lambda: f'{label}: {say(r)}')
        r = attempt(lambda: T(a=1, b=2, c=3, d=4).to_dict(blacklist_tags=[Tag(object()), Tag(v)]))
        ctx.expect(r[0] == 'ok' and list(r[1]) == ['b', 'd'], 'export', lambda: f'{label}: {say(r)}')


class Carrier:
    """shows what it was made of"""

    def __init__(self, *a, **k):
        self.a, self.k = a, k


CONSTRAINTS = [int, float, str, complex, object, type(None), bool, (int, str), (float,), list, abc.Sized, abc.Callable, Mark]


def builtin_coercers(ctx, label, make):
    from records import Eval, LooseUnpack, LooseUnpackMap, MapCoercion
    v = make()
    extra = object()

    def one(tok, t=Carrier):
        return attempt(lambda: mk('K', {'x': Annotated[t, check, tok]})(x=v).__dict__['x'])
    if isinst(v, Carrier):
        return
    for c in [None, *CONSTRAINTS]:
        fits = True if c is None else isinst(v, c)
        if fits is None:
            continue
        loose = Loose if c is None else Loose.constrain(c)
        r = one(loose(extra, k=extra))
        ctx.op()
        if fits:
            ctx.expect(r[0] == 'ok' and len(r[1].a) == 2 and r[1].a[0] is v and r[1].a[1] is extra and r[1].k == {'k': extra}, 'loose', lambda: f'{label} for a coercer constrained to {c}: {say(r)}')
        else:
            ctx.expect(r[0] == 'err' and isinstance(r[1], TypeError), 'constraint', lambda: f'{label} for a coercer constrained to {c}: {say(r)}')
        if c is not None:
            # as an element, as a value
            for tok, w in ((LooseUnpack.constrain(c), [v]), (LooseUnpack.constrain(c, ...), (v, v)), (LooseUnpack.constrain(c, object), (v, 1)), (LooseUnpackMap.constrain(k=c), {'k': v}), (LooseUnpackMap.constrain(k=c, j=object), {'j': 1, 'k': v})):
                r = attempt(lambda: mk('K', {'x': Annotated[Carrier, check, tok(n=extra)]})(x=w).__dict__['x'])
                ctx.op()
                if fits:
                    got = [*r[1].a, *[a for n, a in r[1].k.items() if n != 'n']] if r[0] == 'ok' else []
                    want = list(w.values()) if isinstance(w, dict) else list(w)
                    ctx.expect(r[0] == 'ok' and len(got) == len(want) and all(a is b for a, b in zip(got, want)) and r[1].k['n'] is extra, 'unpack', lambda: f'{label} in {type(w).__name__} for a coercer constrained to {c}: {say(r)}')
                else:
                    ctx.expect(r[0] == 'err' and isinstance(r[1], TypeError), 'constraint', lambda: f'{label} in {type(w).__name__} for a coercer constrained to {c}: {say(r)}')
    if not isinst(v, str):
        no(ctx, one(Eval(v=1), int) if not isinst(v, int) else ('err', TypeError()), Exception, 'eval', label, 'Eval')
    r = one(CallCoercion(Carrier, extra, k=v))
    ctx.expect(r[0] == 'ok' and r[1].a[0] is v and r[1].a[1] is extra and r[1].k['k'] is v, 'call', lambda: f'{label}: {say(r)}')
    c = Carrier()
    r = attempt(lambda: {v: 1})
    if simple(v) and r[0] == 'ok':
        ok(ctx, one(MapCoercion({v: c})), c, 'map', label, 'a map with it')
        ok(ctx, one(MapCoercion({}, {v: lambda: c})), c, 'map', label, 'a factory map with it')
        no(ctx, one(MapCoercion({object(): c})), TypeError, 'map', label, 'a map without it')


def round_trips(ctx, label, make):
    v = make()
    for proto in range(2, pickle.HIGHEST_PROTOCOL + 1):
        want = attempt(lambda: pickle.loads(pickle.dumps([v], proto)))
        i = Box(x=v)
        r = attempt(lambda: Box.from_pickle(i.to_pickle(proto)))
        ctx.op()
        ctx.expect(r[0] == want[0], 'pickle', lambda: f'{label}, protocol {proto}: {say(r)}, alone {say(want)}')
        if r[0] == 'ok':
            ctx.expect(type(r[1]) is Box and type(r[1].__dict__['x']) is type(want[1][0]) and (r[1].__dict__['x'] is v) == (want[1][0] is v), 'pickle', lambda: f'{label}, protocol {proto}')
            f = io.BytesIO()
            i.to_pickle(proto, io=f)
            f.seek(0)
            r = attempt(lambda: Box.from_pickle_io(f))
            ctx.expect(r[0] == 'ok' and type(r[1]) is Box and type(r[1].__dict__['x']) is type(want[1][0]), 'pickle', lambda: f'{label}, protocol {proto}, file: {say(r)}')
    r = attempt(lambda: Box(**Box(x=v).to_dict()))
    ctx.op()
    ctx.expect(r[0] == 'ok' and r[1].__dict__['x'] is v, 'dictionary', lambda: f'{label}: {say(r)}')
    want, r = attempt(lambda: json.dumps({'x': v})), attempt(lambda: Box(x=v).to_json())
    ctx.op()
    ctx.expect(r[0] == want[0] and (r[0] == 'err' or r[1] == want[1]), 'json', lambda: f'{label}: {say(r)}, alone {say(want)}')
    if r[0] == 'ok' and attempt(lambda: json.loads(r[1])['x'])[0] == 'ok':
        back = json.loads(r[1])['x']
        got = attempt(lambda: Box.from_json(r[1]).__dict__['x'])
        ctx.expect(got[0] == 'ok' and same(got[1], back), 'json', lambda: f'{label}: {say(got)}')
        for enc in () if attempt(json.dump, [v], io.StringIO())[0] == 'err' else ('utf-8', 'ascii', 'latin-1', 'utf-16', 'cp1252', 'utf-8-sig', 'utf-7', 'utf-32'):
            raw = io.BytesIO()
            f = io.TextIOWrapper(raw, encoding=enc, newline='')
            got = attempt(lambda: [Box(x=[v, 'é€\U0001f600']).to_json(io=f), f.flush(), f.seek(0), Box.from_json_io(f)][-1].__dict__['x'])
            ctx.expect(got[0] == 'ok' and same(got[1], [back, 'é€\U0001f600']), 'json', lambda: f'{label} in a file encoded as {enc}: {say(got)}')
    want, r = attempt(lambda: f'Box(x={v!r})'), attempt(lambda: repr(Box(x=v)))
    ctx.op()
    ctx.expect(r[0] == want[0] and (r[0] == 'err' or r[1] == want[1]), 'repr', lambda: f'{label}: {say(r)}, alone {say(want)}')


class Box(RecordBase):
    x: object


ALL = dict(C12=[builtin_coercers], C21=[round_trips], C01=[stored], C02=[default], C03=[classes], C04=[classes], C05=[stored], C06=[coercion], C07=[validation], C08=[unions], C09=[elements], C10=[cross], C11=[truth], C13=[parsing], C14=[parsing, exceptions_of_parsers, attributes], C15=[assignment], C16=[equality],
           C17=[ordering], C18=[export], C19=[selects], C20=[imports], C22=[copies], C23=[inherit], C24=[keys], C26=[rejected], C27=[declare], C28=[replacement], C30=[tags])


# what does not depend on the kind of one object

def containers(ctx):
    """tags and names to select by, in containers of every kind, also those that only support membership tests"""
    a, b, c = Tag('a'), Tag('b'), Tag('c')
    for fz in (False, True):
        K = mk('K', {'x': Annotated[int, a], 'y': Annotated[int, b, c], 'z': int, 'w': Annotated[int, a, b]}, {'w': 5, 'z': 6}, frozen=fz)
        i = K(x=1, y=2)
        fields = {'x': (a,), 'y': (b, c), 'z': (), 'w': (a, b)}

        class Where:
            def __init__(self, f):
                self.f = f

            def __contains__(self, o):
                return self.f(o)
        forms = [list, tuple, set, frozenset, deque, dict.fromkeys, lambda s: dict.fromkeys(s).keys(), lambda s: Only(*s), lambda s: Where(lambda o: o in s), lambda s: UserList(s), lambda s: _types.MappingProxyType(dict.fromkeys(s)), lambda s: ChainMap(dict.fromkeys(s)), lambda s: OrderedDict.fromkeys(s), lambda s: dict.fromkeys(s, 0),
                 lambda s: Counter(s)]
        tag_sets = [[], [a], [b], [c], [a, b], [a, c], [Tag('other')], [b, c, Tag('other')]]
        key_sets = [[], ['x'], ['z'], ['w', 'z'], ['no'], ['x', 'no']]
        for tags_ in tag_sets:
            for keys_ in key_sets:
                for inc in (False, True):
                    want = [k for k in fields if k in keys_ or not any(t in tags_ for t in fields[k]) and (inc or k in 'xy')]
                    for f in forms:
                        for g in (forms if f in forms[:3] else [list, f]):
                            bl, wl = f(tags_), g(keys_)
                            for what, run_ in (('export', lambda: list(i.to_dict(blacklist_tags=bl, whitelist_keys=wl, include_defaults=inc))), ('exporter', lambda: list(i.to_dict.export_with(blacklist_tags=bl, whitelist_keys=wl, include_defaults=inc)())), ('json', lambda: list(json.loads(K.to_json(i) if False else i.to_json.export_with(blacklist_tags=bl, whitelist_keys=wl, include_defaults=inc)())))):
                                r = attempt(run_)
                                ctx.op()
                                ctx.expect(r == ('ok', want), 'container', lambda: f'{what} with tags {len(tags_)} and keys {keys_} in a {type(bl).__name__} and a {type(wl).__name__}: {say(r)} {r[1] if r[0] == "ok" else ""}, expected {want}')
        for t in (a, b, c):
            for k in ('x', 'z', 'w', 'no'):
                want = [n for n in fields if n == k or t not in fields[n] and n in 'xy']
                r = attempt(lambda: list(i.to_dict(blacklist_tags=t, whitelist_keys=k)))
                ctx.expect(r == ('ok', want), 'container', lambda: f'a single tag and key {k}: {say(r)}')


class Custom(Exception):
    def __init__(self, code, *, detail):
        super().__init__(f'code {code}')
        self.code, self.detail = code, detail


class TwoArgs(ValueError):
    def __init__(self, a, b):
        super().__init__(a)


def loggers(ctx):
    """warnings go to whatever logger is given, once for each failing value"""
    class Duck:
        def __init__(self):
            self.got = []

        def warning(self, m):
            self.got.append(m)

    class Slim(logging.Logger):
        def __init__(self):
            super().__init__('slim')
            self.got = []

        def warning(self, m, *a, **k):
            self.got.append(m)

    class False_(Slim):
        __len__ = lambda self: 3

    class Adapter(logging.LoggerAdapter):
        def __init__(self, *a):
            super().__init__(*a)
            self.got = []

        def warning(self, m, *a, **k):
            self.got.append(m)

    def real(level=0, disabled=False, filters=(), propagate=True, handler=True):
        l = logging.Logger('real', level)
        l.got, l.disabled, l.propagate = [], disabled, propagate
        for f in filters:
            l.addFilter(f)

        class H(logging.Handler):
            def emit(self, rec):
                l.got.append(rec.msg)
        if handler:
            l.addHandler(H())
        else:
            l.addHandler(logging.NullHandler())
        return l
    for label, make, n in (('duck', Duck, 1), ('logger', Slim, 1), ('with a length', False_, 1), ('adapter', lambda: Adapter(logging.getLogger('x'), {}), 1), ('real', real, 1), ('warning level', lambda: real(logging.WARNING), 1), ('error level', lambda: real(logging.ERROR), 0), ('off', lambda: real(1000), 0), ('disabled', lambda: real(disabled=True), 0), ('filtered', lambda: real(filters=[lambda r: False]), 0),
                           ('no propagation', lambda: real(propagate=False), 1), ('no handler', lambda: real(handler=False), 0)):
        for err in ('message', ValueError('v'), KeyError('k'), Custom(1, detail=2), UserWarning('u'), None):
            for style in (hollow, check):
                lg = make()
                kw = {} if err is None else {'err': err}
                later = []
                K = mk('K', {'x': Annotated[int, style, AssertCallValidation(lambda v: v > 0, warn=lg, **kw), CallValidation(lambda v: later.append(v) or v + 1)]})
                for k in range(3):
                    for v in (5, -5, 0, 7):
                        del lg.got[:], later[:]
                        with warnings.catch_warnings(record=True) as ws:
                            warnings.simplefilter('always')
                            r = attempt(lambda: K(x=v).x)
                        ctx.op()
                        ctx.state('logger', label, str(type(err)), v)
                        ctx.expect(r == ('ok', v + 1) and later == [v], 'logger', lambda: f'{label}: {v}: {say(r)}')
                        ctx.expect(len(lg.got) == (n if v <= 0 else 0) and not ws, 'logger', lambda: f'{label}: {v}: {len(lg.got)} messages, {len(ws)} warnings')
    level = logging.root.manager.disable
    try:
        logging.disable(logging.CRITICAL)
        K = mk('K', {'x': Annotated[int, AssertCallValidation(lambda v: False, warn=logging.getLogger('mc.off'))]})
        ctx.expect(attempt(lambda: K(x=1).x) == ('ok', 1), 'logger', 'logging is disabled altogether')
    finally:
        logging.disable(level)


def own_errors(ctx):
    """an exception given is the one raised, every time"""
    for err in (ValueError('v'), KeyError('k', 1), Custom(1, detail=2), TwoArgs(1, 2), OSError(2, 'no', 'f'), UnicodeDecodeError('utf8', b'a', 0, 1, 'r'), UserWarning('u'), ExceptionGroup('g', [ValueError(1)]), StopIteration(3), SyntaxError('s', ('f', 1, 2, 't'))):
        for style in (hollow, check):
            K = mk('K', {'x': Annotated[int, style, AssertCallValidation(lambda v: v > 0, err=err)]})
            L = mk('L', {'x': Annotated[int, style, AssertCallValidation(lambda v: v > 0, err=err, warn=False)]})
            want = type(err)
            try:
                want('m')
            except Exception:
                want = ValueError
            args = err.args
            for n in range(4):
                for C in (K, L, K):
                    r = attempt(lambda: C(x=-1))
                    ctx.op()
                    ctx.expect(r[0] == 'err' and type(r[1]) is want and r[1].__cause__ is err and err.args == args and 'x' in str(r[1]), 'own-error', lambda: f'{type(err).__name__}, failure {n}: {say(r)} from {r[1].__cause__!r}')
                    ctx.expect(attempt(lambda: C(x=1).x) == ('ok', 1), 'own-error', lambda: type(err).__name__)
            if isinstance(err, Warning) or True:
                W = mk('W', {'x': Annotated[int, style, AssertCallValidation(lambda v: v > 0, err=err if isinstance(err, Warning) else 'msg', warn=True)]})
                for n in range(3):
                    with warnings.catch_warnings(record=True) as ws:
                        warnings.simplefilter('always')
                        r = attempt(lambda: W(x=-1).x)
                    ctx.op()
                    ctx.expect(r == ('ok', -1) and len(ws) == 1 and (not isinstance(err, Warning) or ws[0].message is err), 'warning', lambda: f'{type(err).__name__}: {say(r)}, {len(ws)} warnings')


def union_styles(ctx):
    """a style written on a union is that of the alternatives without one of their own, whatever else is written on them"""
    add = CallValidation(lambda v: v)
    yes = AssertCallValidation(lambda v: True)
    many = [(), (add,), (yes,), (Tag('t'),), (add, yes), (Tag('t'), add), (CallCoercion(lambda v: 1 / 0),), (add, CallCoercion(lambda v: 1 / 0)), (CallCoercion(lambda v: 1 / 0), yes, Tag('u'))]
    values = [1, True, MyInt(3), 'a', MyStr('b'), None, 1.5, [1], object()]
    n = 0
    for default in (hollow, check, check_strict):
        for S in (None, hollow, check, check_strict):
            for t1 in many:
                for t2 in many:
                    for own1, own2 in ((None, None), (check, None), (None, check_strict), (hollow, None)):
                        for extra in ((), (add,), (Tag('z'),)):
                            if extra and (t1 not in many[:4] or t2 not in many[:4]):
                                continue
                            n += 1
                            a1, a2 = (*((own1,) if own1 else ()), *t1), (*t2, *((own2,) if own2 else ()))
                            A = attempt(lambda: mk('A', {'x': ann(Union[ann(int, a1), ann(str, a2)], (*((S,) if S else ()), *extra))}, default_type_check=default))
                            e1, e2 = own1 or S or default, own2 or S or default
                            B = attempt(lambda: mk('B', {'x': ann(Union[ann(int, (e1, *t1)), ann(str, (e2, *t2))], extra)}))
                            ctx.op()
                            ctx.expect(A[0] == B[0], 'union-style', lambda: f'{default} {S} {a1} {a2} {extra}: {say(A)}, spelled out {say(B)}')
                            if A[0] == 'err':
                                continue
                            for v in values:
                                p, q = attempt(lambda: A[1](x=v).x), attempt(lambda: B[1](x=v).x)
                                ctx.op()
                                ctx.expect(p[0] == q[0] and (p[1] is q[1] if p[0] == 'ok' else type(p[1]) is type(q[1])), 'union-style', lambda: f'{default} {S} {a1} {a2} {extra}, {v!r}: {say(p)}, spelled out {say(q)}')
                                if not t1 and not t2 and not extra:
                                    # and against the statement
                                    def fits(t, e):
                                        return True if e is hollow else isinstance(v, t) if e is check else type(v) is t
                                    ctx.expect((p[0] == 'ok') == (fits(int, e1) or fits(str, e2)), 'union-style', lambda: f'{default} {S} {a1} {a2}, {v!r}: {say(p)}')
    ctx.state('union styles', n)


def flags(ctx):
    """a compiled pattern matches what it matches, with all its flags"""
    from records import FullMatch
    pats = ['a', 'A+', r'\w+', r'\d', r'\s', '.', '.*', '^a$', '^b', 'a b', 'a#b', '(?s).', '(?i)a', 'É', '[a-z]', '[^a]', 'a|ab', '', '$', r'\Aa\Z', 'a*?', r'\b\w\b']
    subjects = ['', 'a', 'A', 'aA', 'é', 'É', '\u0661', '1', ' ', '\u00a0', '\n', 'a\n', 'a\nb', 'b', 'ab', 'a b', 'a#b', 'ſ', 'k', 'K', 'İ', 'aa', '\u3000']
    fl = [re.A, re.I, re.M, re.S, re.X, re.U]
    for k in range(len(fl) + 1):
        for combo in itertools.combinations(fl, k):
            f = functools.reduce(operator.or_, combo, re.RegexFlag(0))
            for p in pats:
                for kind in (str, bytes):
                    pat = p if kind is str else p.encode('latin-1')
                    for extra in (0, re.L) if kind is bytes and not f & re.A else (0,):
                        try:
                            rx = re.compile(pat, f | extra)
                        except ValueError:
                            continue
                        K = mk('K', {'x': Annotated[object, FullMatch(rx)]})
                        for s in subjects:
                            s = s if kind is str else s.encode('utf-8')
                            want = bool(re.compile(pat, f | extra).fullmatch(s))
                            r = attempt(lambda: K(x=s).x)
                            ctx.op()
                            ctx.expect((r[0] == 'ok' and r[1] is s) if want else r[0] == 'err' and isinstance(r[1], ValueError), 'flags', lambda: f'{pat!r} with {f | extra!r} on {s!r}: {say(r)}')


def almost_parsers(ctx):
    """functions that look like parsers"""
    @parser
    def real(v):
        return {'x': v, 'y': 0}

    def wrapper(**kw):
        def f(v):
            return 'wrong'
        for k, v in kw.items():
            setattr(f, k, v)
        return f
    things = {'wrapped attribute': (wrapper(__wrapped__=real), False), 'wraps without attributes': (functools.wraps(real, updated=())(lambda v: 'wrong'), False), 'name': (functools.wraps(real, assigned=('__name__', '__qualname__', '__doc__'), updated=())(wrapper()), False), 'false': (wrapper(__parser__=False), False), 'none': (wrapper(__parser__=None), False), 'zero': (wrapper(__parser__=0), False),
              'func': (wrapper(__func__=real), False), 'self': (wrapper(__self__=real), False), 'other attribute': (wrapper(parser=True, _parser=True, is_parser=True, __parsers__=True), False), 'partial': (functools.partial(wrapper(), 1), False), 'property': (property(real), False), 'list': ([real], False), 'dict': ({'p': real}, False), 'lambda': (lambda v: 'wrong', False),
              'static': (staticmethod(wrapper()), False), 'class method': (classmethod(lambda cls, v: 'wrong'), False), 'class': (type('P', (), {'p': staticmethod(real), '__init__': lambda self, v: None}), False), 'callable': (type('P', (), {'__call__': lambda self, v: 'wrong'})(), False), 'wraps': (functools.wraps(real)(lambda v: 'right'), True), 'marked': (wrapper(__parser__=True), None),
              'static parser': (staticmethod(parser(lambda v: 'right')), None), 'parser of static': (parser(staticmethod(lambda v: 'right')), True), 'class parser': (classmethod(parser(lambda cls, v: 'right')), None), 'parser of class': (parser(classmethod(lambda cls, v: 'right')), True)}
    for label, (t, is_parser) in things.items():
        for name in ('p', 'a', 'zz', '_p', 'parse_int', 'real'):
            for place in ('own', 'parent', 'mixin'):
                if place == 'own':
                    r = attempt(lambda: mk('K', {'x': object, 'y': object}, body={name: t}))
                elif place == 'parent':
                    r = attempt(lambda: mk('K', {'z': object}, {'z': 0}, bases=(mk('P', {'x': object, 'y': object}, body={name: t}),)))
                else:
                    r = attempt(lambda: mk('K', {'x': object, 'y': object}, bases=(type('M', (), {name: t}), RecordBase)))
                ctx.op()
                ctx.expect(r[0] == 'ok', 'declaration', lambda: f'{label}: {say(r)}')
                K = r[1]
                for arg, own in ((7, False), (None, False), ({'x': 1, 'y': 2}, True), (real, False)):
                    r = attempt(lambda: K.parse(arg))
                    ctx.op()
                    if is_parser is False:
                        ctx.expect(r[0] == 'ok' and type(r[1]) is K if own else r[0] == 'err' and isinstance(r[1], ParseFailure), 'not-a-parser', lambda: f'{label} named {name} in {place}, parsing {arg}: {say(r)} {r[1] if r[0] == "ok" else ""}')
                    elif is_parser:
                        ctx.expect(r[0] == 'err' and isinstance(r[1], TypeError) and not isinstance(r[1], ParseFailure) if own else r == ('ok', 'right'), 'parser', lambda: f'{label} named {name} in {place}, parsing {arg}: {say(r)}')


NAMES = ['class', 'class_', 'Class', '_class', 'from', 'from_', 'x', 'x_', '_x', '__x', 'X', 'x1', 'x 1', 'x-1', 'x.1', 'x[1]', 'é', 'e\u0301', 'fi', 'ﬁ', 'camelCase', 'camel_case', 'camelcase', 'CAMEL_CASE', 'camel-case', '', ' ', 'x ', ' x', '1', '_K__x', '_', '__', 'None', 'none', 'xx', 'xs', 'x\x00', 'ı', 'i', 'İ', 'ß', 'ss', 'self_', 'x*', '**', 'K.x', 'x=', 'x:', 'x?', 'name', 'names']


def spellings(ctx):
    """no name stands for another one"""
    for fz in (False, True):
        for f in NAMES:
            for d in (False, True):
                r = attempt(lambda: mk('K', {f: object, 'other': object}, {'other': 0, **({f: 1} if d else {})}, frozen=fz))
                if r[0] == 'err' or list(r[1]._fields) != [f, 'other']:
                    continue
                K = r[1]
                for a in NAMES:
                    for more in ({}, {'other': 5}, {f: 2}):
                        kw = {a: 7, **more}
                        want = {f: kw.get(f, 1), 'other': kw.get('other', 0)} if kw.keys() <= {f, 'other'} and (d or f in kw) else None
                        for what, run_ in (('keywords', lambda: K(**kw)), ('mapping', lambda: K.from_mapping(kw)), ('json', lambda: K.from_json(json.dumps(kw))), ('parse', lambda: K.parse(kw)), ('select', lambda: K.from_mapping.select(keys_to_add=kw)({}))):
                            if what == 'parse' and d:
                                continue
                            r = attempt(run_)
                            ctx.op()
                            if want is None:
                                ctx.expect(r[0] == 'err' and isinstance(r[1], TypeError if what != 'parse' else Exception), 'spelling', lambda: f'{a!r} for a class with a field {f!r}, {what}: {say(r)}')
                            else:
                                ctx.expect(r[0] == 'ok' and {k: v for k, v in vars(r[1]).items() if k in K._fields} == want, 'spelling', lambda: f'{kw} for a class with a field {f!r}, {what}: {say(r)}')


def type_variables(ctx):
    """containers of a type variable accept exactly the instances of the container"""
    T, U = typing.TypeVar('T'), typing.TypeVar('U')
    B, C = typing.TypeVar('B', bound=int), typing.TypeVar('C', int, str)
    values = [[], [1, 'a'], (), (1, 'a'), (1,), {1, 'a'}, frozenset(), {}, {'a': 1}, collections.defaultdict(list), collections.deque([1]), 'ab', b'ab', iter([1]), range(2), int, str, 5, None, len]
    for V in (T, B, C):
        hints = [(typing.List[V], list), (list[V], list), (typing.Set[V], set), (typing.FrozenSet[V], frozenset), (typing.Deque[V], collections.deque), (typing.Dict[V, U], dict), (dict[V, V], dict),
                 (typing.DefaultDict[V, U], collections.defaultdict), (typing.Tuple[V], tuple), (tuple[V, U], tuple), (typing.Sequence[V], collections.abc.Sequence), (typing.Mapping[V, U], collections.abc.Mapping),
                 (typing.Iterable[V], collections.abc.Iterable), (typing.Iterator[V], collections.abc.Iterator), (typing.Type[V], type), (typing.Collection[V], collections.abc.Collection)]
        for hint, origin in hints:
            for strict in (False, True):
                style = check_strict if strict else check
                if strict and inspect.isabstract(origin):
                    continue
                for how, decl in (('class', lambda: mk('K', {'x': hint}, default_type_check=style)), ('field', lambda: mk('K', {'x': Annotated[hint, style]})),
                                  ('optional', lambda: mk('K', {'x': Optional[hint]}, default_type_check=style)), ('element', lambda: mk('K', {'x': List[hint]}, default_type_check=style))):
                    K = attempt(decl)
                    ctx.op()
                    if K[0] != 'ok':
                        ctx.fail('type-variable', f'{hint} ({how}, {style}): {say(K)}')
                        continue
                    for v in values:
                        r = attempt(lambda: K[1](x=[v] if how == 'element' else v).x)
                        ok = type(v) is origin if strict else isinstance(v, origin)
                        if how == 'optional' and v is None:
                            ok = True
                        got = r[0] == 'ok' and (r[1][0] if how == 'element' else r[1]) is v
                        ctx.op()
                        ctx.expect(got if ok else r[0] == 'err', 'type-variable', lambda: f'{hint} ({how}, {style}) and {v!r}: {say(r)}')
        ctx.state('type variables', repr(V))


def partial_variables(ctx):
    """what is declared of the elements counts, whether or not another argument is a type variable"""
    T = typing.TypeVar('T')
    E = Annotated[int, check, CallCoercion(lambda v: int(v[1:])), CallValidation(lambda v: -v if v >= 100 else v)]

    def made(v):
        return -v if isinstance(v, int) and v >= 100 else v if isinstance(v, int) else int(v[1:]) if isinstance(v, str) and v[:1] == 'c' else FAIL
    FAIL = object()
    other = [1, 'c5', None, []]
    for e in (1, 100, True, 'c7', 'x', None, 2.0):
        exp = made(e)
        for o in other:
            forms = [(typing.Dict[E, T], {e: o}, {exp: o}), (dict[E, T], {e: o}, {exp: o}), (typing.Mapping[E, T], {e: o}, {exp: o}), (typing.Tuple[E, T], (e, o), (exp, o)), (typing.Tuple[T, E], (o, e), (o, exp)), (tuple[T, E, T], (o, e, o), (o, exp, o)),
                     (typing.MutableMapping[E, T], collections.OrderedDict({e: o}), collections.OrderedDict({exp: o})), (typing.DefaultDict[E, T], collections.defaultdict(list, {e: o}), collections.defaultdict(list, {exp: o}))]
            if o != []:
                forms += [(typing.Dict[T, E], {o: e}, {o: exp}), (typing.Mapping[T, E], {o: e}, {o: exp})]
            for hint, given, want in forms:
                for how, T_, wrap in (('field', Annotated[hint, check], lambda v: v), ('element', Annotated[List[Annotated[hint, check]], check], lambda v: [v]), ('alternative', Union[Annotated[hint, check], Annotated[bytes, check]], lambda v: v)):
                    K = attempt(lambda: mk('K', {'x': T_}))
                    ctx.op()
                    if K[0] != 'ok':
                        ctx.fail('partial-variable', f'{hint} ({how}): {say(K)}')
                        continue
                    r = attempt(lambda: K[1](x=wrap(given)).x)
                    good = r[0] == 'err' if exp is FAIL else r[0] == 'ok' and r[1] == wrap(want) and (type(exp) is not type(e) or exp is not e or how == 'element' or r[1] is given)
                    ctx.expect(good, 'partial-variable', lambda: f'{hint} ({how}) and {given!r}: {say(r)}')
    ctx.state('partial variables')


def opaque_elements(ctx):
    """what cannot be interpreted as a type may stand anywhere in a hollow class: its values are stored as they are, and a container around it is checked on its own"""
    T = typing.TypeVar('T')

    class Box(Generic[T]):
        pass
    opaque = [int | None, int | str, typing.LiteralString, typing.Self, typing.Final[int], typing.ClassVar[int], typing.Required[int], Box[int], typing.IO[str], typing.ParamSpec('P'), typing.TypeVarTuple('Ts'), typing.TypeGuard[int], typing.Concatenate[int, ...], 5, (), (3, 1), lambda v: v, 2.5, object()]
    values = [1, 'a', None, 2.5, [1], (1, 'a'), (), {}, {'a': 1}, {1}, iter([1]), int, len, object()]
    n = 0
    for o in opaque:
        forms = [('plain', lambda: o, None)]
        if attempt(lambda: typing.List[o])[0] == 'ok':
            forms += [('list', lambda: typing.List[o], list), ('sequence', lambda: typing.Sequence[o], abc.Sequence), ('set', lambda: typing.FrozenSet[o], frozenset), ('dict value', lambda: typing.Dict[str, o], dict), ('dict key', lambda: typing.Dict[o, str], dict), ('mapping', lambda: typing.Mapping[o, o], abc.Mapping),
                      ('tuple', lambda: typing.Tuple[str, o], tuple), ('tuple of many', lambda: typing.Tuple[o, ...], tuple), ('one-tuple', lambda: typing.Tuple[o], tuple), ('optional', lambda: typing.Optional[o], None), ('union', lambda: typing.Union[str, o, int], None), ('list of lists', lambda: typing.List[typing.List[o]], list),
                      ('list of unions', lambda: typing.List[typing.Union[o, str]], list), ('class', lambda: typing.Type[o], None), ('iterable', lambda: typing.Iterable[o], abc.Iterable), ('callable', lambda: typing.Callable[[o], o], None)]
        forms += [('own list', lambda: list[o], list), ('own dict', lambda: dict[str, o], dict), ('own tuple', lambda: tuple[o, str], tuple), ('own tuples', lambda: tuple[o, ...], tuple)]
        for label, hint, outer in forms:
            h = attempt(hint)
            if h[0] != 'ok' or isinstance(h[1], str) or h[1] == typing.Optional[typing.Any]:
                continue
            styles = [('hollow class', lambda: mk('K', {'x': h[1]}), None), ('two fields', lambda: mk('K', {'x': h[1], 'y': h[1]}, {'y': 0}), None), ('inherited', lambda: mk('K', {'y': int}, {'y': 0}, bases=(mk('B', {'x': h[1]}),), default_type_check=check), None)]
            if outer:
                styles += [('container checked', lambda: mk('K', {'x': Annotated[h[1], check]}), outer), ('container hollow', lambda: mk('K', {'x': Annotated[h[1], hollow]}), None)]
            if label == 'class':
                styles = styles[:1]
            for how, decl, origin in styles:
                K = attempt(decl)
                ctx.op()
                n += 1
                if label in ('callable', 'class') or typing.get_origin(o) in (typing.ClassVar, typing.Final, typing.Required) or o is typing.Self or o == ():
                    # not sayable of itself
                    if K[0] == 'err':
                        continue
                if K[0] != 'ok':
                    ctx.fail('opaque', f'{label} of {o!r} ({how}): {say(K)}')
                    continue
                for v in values:
                    r = attempt(lambda: K[1](x=v).x)
                    ok = origin is None or isinstance(v, origin)
                    if how == 'container checked' and label in ('tuple', 'one-tuple', 'own tuple'):
                        ok = ok and len(v) == len(typing.get_args(h[1]))
                    ctx.op()
                    ctx.expect(r[0] == 'ok' and r[1] is v if ok else r[0] == 'err', 'opaque', lambda: f'{label} of {o!r} ({how}) and {v!r}: {say(r)}')
    ctx.state('opaque', n)


def own_tokens(ctx, kind='validator'):
    """a token of one's own is asked once per place for its function, told the type stored there and the filler; functions are given what was preset after the value"""
    from records.fillers.validators import GlobalValidationToken
    from records.fillers.coercers import GlobalCoercionToken
    from records.fillers.filler import Filler
    base, Call = (GlobalValidationToken, CallValidation) if kind == 'validator' else (GlobalCoercionToken, CallCoercion)
    places = [('checked', int, lambda t: Annotated[int, check, t], lambda v: v), ('strict', int, lambda t: Annotated[int, check_strict, t], lambda v: v), ('string', str, lambda t: Annotated[str, check, t], lambda v: v),
              ('element', int, lambda t: Annotated[List[Annotated[int, check, t]], check], lambda v: [v]), ('tuple', int, lambda t: Annotated[Tuple[str, Annotated[int, check, t]], check], lambda v: ('s', v)), ('tuples', int, lambda t: Annotated[Tuple[Annotated[int, check, t], ...], check], lambda v: (v, v)),
              ('key', int, lambda t: Annotated[Dict[Annotated[int, check, t], str], check], lambda v: {v: 's'}), ('value', int, lambda t: Annotated[Dict[str, Annotated[int, check, t]], check], lambda v: {'s': v}), ('optional', int, lambda t: Optional[Annotated[int, check, t]], lambda v: v), ('own class', MyInt, lambda t: Annotated[MyInt, check, t], lambda v: v),
              ('newtype', int, lambda t: typing.NewType('N', Annotated[int, check, t]), lambda v: v), ('list', list, lambda t: Annotated[List[int], check, t], lambda v: v), ('float', float, lambda t: Annotated[float, check, t], lambda v: v), ('bytes', bytes, lambda t: Annotated[bytes, check, t], lambda v: v)]
    if kind == 'validator':
        places += [('hollow', int, lambda t: Annotated[int, hollow, t], lambda v: v), ('class default', str, lambda t: Annotated[str, t], lambda v: v)]
    good = {int: 3, str: 'a', MyInt: MyInt(4), list: [1, 2], float: 1.5, bytes: b'b'}
    for label, T, decl, wrap in places:
        for given in ('instance', 'class', 'mixed bases', 'two'):
            asked, made = [], []

            class Own(base):
                def __call__(self, stored_type, filler):
                    asked.append((stored_type, filler))

                    def f(v):
                        made.append((stored_type, filler, v))
                        return v if kind == 'validator' else good[stored_type]
                    return f
            if given == 'mixed bases':
                class Own(Own, tuple):
                    pass
            tok = Own if given == 'class' else Own()
            K = attempt(lambda: mk('K', [('x', decl(tok)), *([('y', decl(tok))] if given == 'two' else [])]))
            ctx.op()
            if K[0] != 'ok':
                ctx.fail('own-token', f'{label} ({given}): {say(K)}')
                continue
            n = 2 if given == 'two' else 1
            ctx.expect(len(asked) == n and all(len(a) == 2 and a[0] is T and isinstance(a[1], Filler) and a[1].origin is T for a in asked), 'own-token', lambda: f'{label} ({given}): asked with {asked}')
            if len({id(a[1]) for a in asked}) != n:
                ctx.fail('own-token', f'{label} ({given}): told the same filler for two fields')
            for rep in range(2):
                for v in [good[T]] if kind == 'validator' else [good[T], Broken]:
                    del made[:]
                    r = attempt(lambda: K[1](**{k: wrap(v) for k in ('x', 'y')[:n]}))
                    ctx.op()
                    want = wrap(good[T])
                    calls = n * (2 if label == 'tuples' else 1) if kind == 'validator' or v is Broken else 0
                    ctx.expect(r[0] == 'ok' and all(getattr(r[1], k) == want for k in ('x', 'y')[:n]) and len(made) == calls and all(m[2] is v for m in made), 'own-token', lambda: f'{label} ({given}): {v!r}: {say(r)}, called with {made}')
            ctx.expect(len(asked) == n, 'own-token', lambda: f'{label} ({given}): asked {len(asked)} times after use')
    # what was preset
    a, b, c = object(), [], {}
    for args in ((), (a,), (a, b), (None,), (b, b, a), (0, '')):
        for kw in ({}, {'k': c}, {'k': None, 'v': a}, {'err': a, 'warn': b}, {'default': 0, 'args': (), 'kwargs': {}}):
            for label, T, decl, wrap in places:
                got = []

                def f(*ar, **k):
                    got.append((ar, k))
                    return good[T]
                v = good[T] if kind == 'validator' else Broken
                K = attempt(lambda: mk('K', {'x': decl(Call(f, *args, **kw))}))
                if K[0] != 'ok':
                    ctx.fail('preset', f'{label}: {args} {kw}: {say(K)}')
                    continue
                for rep in range(2):
                    del got[:]
                    r = attempt(lambda: K[1](x=wrap(v)))
                    ctx.op()
                    ctx.expect(r[0] == 'ok' and r[1].x == wrap(good[T]) and len(got) == (2 if label == 'tuples' else 1) and all(len(ar) == len(args) + 1 and ar[0] is v and all(p is q for p, q in zip(ar[1:], args)) and k.keys() == kw.keys() and all(k[q] is kw[q] for q in kw) for ar, k in got), 'preset', lambda: f'{label}: {args} {kw}: {say(r)}, called with {got}')
    if kind == 'coercer':
        # the other functions that take preset arguments
        for args in ((), (a,), (a, b)):
            for kw in ({}, {'k': c}, {'k': None, 'method': a}):
                for m in ('make', 'plain', 'inherited'):
                    got = []

                    class P:
                        @classmethod
                        def inherited(cls, *ar, **k):
                            got.append((cls, ar, k))
                            return cls()

                    class Q(P):
                        @classmethod
                        def make(cls, *ar, **k):
                            got.append((cls, ar, k))
                            return cls()

                        @staticmethod
                        def plain(*ar, **k):
                            got.append((Q, ar, k))
                            return Q()
                    if 'method' in kw:
                        kw = {'k': None, 'm': a}
                    for style in (check, check_strict):
                        K = attempt(lambda: mk('K', {'x': Annotated[Q, style, ClassMethodCoercion(m, *args, **kw)]}))
                        for v in (5, 'a', None, b):
                            del got[:]
                            r = attempt(lambda: K[1](x=v).x)
                            ctx.op()
                            ctx.expect(r[0] == 'ok' and type(r[1]) is Q and len(got) == 1 and got[0][0] is Q and got[0][1][0] is v and len(got[0][1]) == len(args) + 1 and all(p is q for p, q in zip(got[0][1][1:], args)) and got[0][2] == kw, 'preset', lambda: f'{m}: {args} {kw}: {say(r)}, called with {got}')
    ctx.state('own tokens', kind)


def evaluations(ctx):
    """a text means the same whatever was evaluated before it"""
    texts = ['(a := 5)', 'a', 'b', '(b := 7) + 1', '[a for a in (1,)][0]', '(lambda a: a)(1)', 'a + 1', '(int := 2)', 'int', 'int("7")', '(True, a := 3)[1]', '[b := 4, b][1]', '3', 'x', "'s'", 'None', '(n := n0)', 'n', 'n0', 'A', '(A := 6)', '1 +', '(yield)', 'a.b', 'a if a else b', '[(c := 1) for _ in (1,)][0]', 'c', 'globals()', '__name__', '9 ** 2', '-1', '1.0', 'True', 'print', 'self', 'v', 'ns', 'ret', 'origin']
    from records import Eval
    tables = [((), {}), ((), {'n0': 8}), ((int,), {}), ((..., int), {'a': 4}), ((len, int), {'x': 1, 'b': 2})]

    class A(int):
        pass
    def alone(names, v):
        try:
            r = eval(v, {'__builtins__': dict(names)})
        except Exception:
            return None
        return r
    for args, kw in tables:
        for T in (int, A):
            names = {**kw, **{a.__name__: a for a in args if a is not ...}, **({T.__name__: T} if args[:1] == (...,) else {})}
            exp = {t: alone(names, t) for t in texts}
            for first in texts:
                for shape in ('one field', 'two fields', 'one token'):
                    tok = Eval(*args, **kw)
                    if shape == 'one field':
                        Ks = [mk('K', {'x': Annotated[T, check, tok]})] * 2
                    elif shape == 'two fields':
                        K = mk('K', [('x', Annotated[T, check, tok]), ('y', Annotated[T, check, tok])])
                        Ks = [K, K]
                    else:
                        Ks = [mk('K', {'x': Annotated[T, check, tok]}), mk('L', {'x': Annotated[T, check, tok]})]
                    for second in texts:
                        for K, t in zip(Ks, (first, second)):
                            r = attempt(lambda: K(x=t, y=T(1)).x if shape == 'two fields' and t is first else K(x=T(1), y=t).y if shape == 'two fields' else K(x=t).x)
                            ctx.op()
                            e = exp[t]
                            if isinstance(e, T):
                                ctx.expect(r[0] == 'ok' and type(r[1]) is type(e) and r[1] == e, 'evaluation', lambda: f'{args} {kw}: {t!r} ({shape}, after {first!r}): {say(r)}, expected {e}')
                            else:
                                ctx.expect(r[0] == 'err', 'evaluation', lambda: f'{args} {kw}: {t!r} ({shape}, after {first!r}): {say(r)}')
    ctx.state('evaluations')


def odd_selectors(ctx):
    """names and tags of one's own classes, given alone or in any container"""
    class S(str):
        pass

    class Never(str):
        def __contains__(self, x):
            return False

    class Always(str):
        def __contains__(self, x):
            return True

    class E(str, enum.Enum):
        F = 'xy'
        G = 'x'

    class T(Tag):
        pass

    class U(Tag):
        def __bool__(self):
            return False

        def __len__(self):
            return 0

    class Holds:
        """nothing but a container"""
        def __init__(self, *xs):
            self.xs = xs

        def __contains__(self, x):
            return x in self.xs
    tags = {'plain': Tag('a'), 'subclass': T('a'), 'falsish': U('a'), 'tuple': Tag(('x', 1)), 'set': Tag(frozenset([Tag('a')])), 'tag': T(T('a')), 'name': Tag('x'), 'letters': Tag('xy')}
    holders = [('list', lambda *x: list(x)), ('tuple', lambda *x: x), ('set', lambda *x: set(x)), ('frozenset', lambda *x: frozenset(x)), ('dict', lambda *x: dict.fromkeys(x)), ('dict values', lambda *x: dict(enumerate(x)).values()), ('keys', lambda *x: dict.fromkeys(x).keys()), ('deque', lambda *x: deque(x)), ('container', Holds), ('counter', lambda *x: Counter(x)), ('user list', lambda *x: UserList(x))]
    fields = ['x', 'xy', 'y', 'yx', 'xyz']
    for tk, tag in tags.items():
        K = mk('K', [(n, Annotated[int, tag] if n in ('x', 'yx') else int) for n in fields], {n: 0 for n in fields})
        i = K()
        same_ = type(tag)(tag.inner)
        for what, b in [('alone', tag), ('equal', same_)] + [(h, f(tag)) for h, f in holders] + [(h, f(Tag('other'), same_)) for h, f in holders]:
            for wn, w in [(None, frozenset())] + [(c.__name__, c('xy')) for c in (str, S, Never, Always)] + [('member', E.F)] + [(h, f(S('xy'))) for h, f in holders] + [(h, f('x', E.F)) for h, f in holders] + [(h, f()) for h, f in holders]:
                named = {'x', 'xy'} if not isinstance(w, (str, type(None))) and 'x' in w else {'xy'} if wn and (isinstance(w, str) or 'xy' in w) else set()
                for inc in (False, True):
                    want = [n for n in fields if n in named or inc and n not in ('x', 'yx')]
                    outs = [('instance', attempt(lambda: list(i.to_dict(blacklist_tags=b, whitelist_keys=w, include_defaults=inc)))), ('class', attempt(lambda: list(K.to_dict(i, blacklist_tags=b, whitelist_keys=w, include_defaults=inc)))),
                            ('handle', attempt(lambda: list(K.to_dict.export_with(blacklist_tags=b, whitelist_keys=w, include_defaults=inc)(i)))), ('json', attempt(lambda: list(json.loads(i.to_json.export_with(blacklist_tags=b, whitelist_keys=w, include_defaults=inc)()))))]
                    for how, r in outs:
                        ctx.op()
                        ctx.expect(r == ('ok', want), 'selector', lambda: f'{tk} {what}, names {wn}, defaults {inc}, {how}: {say(r)} {r[1]}, expected {want}')
        ctx.state('selectors', tk)


def tags_of_tags(ctx):
    """a tag whose object is made of the tags, names or fields of the class is a tag like any other"""
    class T(Tag):
        pass
    a, b = Tag('a'), Tag('b')
    base = [a, b, T('a'), Tag(a), Tag((a,)), Tag((a, b)), Tag(frozenset([a])), Tag(frozenset([a, b])), Tag(frozenset()), Tag(()), Tag('x'), Tag('ab'), Tag(None), Tag(int), Tag(''), Tag(frozenset([Tag(frozenset([a]))])), Tag(('a', 'b')), Tag(frozenset(['a'])), Tag(range(2)), Tag(check), Tag(Tag), Tag(...)]
    sets = [()] + [(t,) for t in base] + list(itertools.permutations(base, 2))
    for group in itertools.zip_longest(*[iter(sets)] * 6, fillvalue=()):
        P = mk('P', [(n, ann(int, ts)) for n, ts in zip('xyz', group)])
        K = mk('K', [(n, ann(int, ts)) for n, ts in zip('uvw', group[3:])], bases=(P,))
        carried = dict(zip('xyzuvw', group))
        for q in base + [Tag('c')]:
            for C, names in ((P, 'xyz'), (K, 'xyzuvw')):
                r = attempt(lambda: list(C._fields.filter_by_tag(q)))
                want = [n for n in names if any(type(t) is type(q) and t.inner == q.inner for t in carried[n])]
                ctx.op()
                ctx.expect(r == ('ok', want), 'filter', lambda: f'{q} among {[carried[n] for n in names]}: {say(r)} {r[1]}, expected {want}')
    ctx.state('tags of tags', len(sets))


def unchecked_generics(ctx):
    """a generic whose arguments cannot be checked is declarable exactly if none of them is"""
    gens = [(typing.Iterable, 1), (typing.Iterator, 1), (typing.Reversible, 1), (typing.Collection, 1), (typing.Container, 1), (typing.AsyncIterator, 1), (typing.AsyncIterable, 1), (typing.ContextManager, 1), (typing.AsyncContextManager, 1), (typing.Generator, 3), (typing.AsyncGenerator, 2),
            (abc.Iterable, 1), (abc.Generator, 3), (abc.AsyncGenerator, 2), (abc.Reversible, 1)]
    styles = {None: None, 'hollow': hollow, 'check': check, 'strict': check_strict}
    forms = [lambda T, a: ann(T, a), lambda T, a: typing.NewType('N', ann(T, a)), lambda T, a: Optional[ann(T, a)], lambda T, a: List[ann(T, a)], lambda T, a: ann(ann(T, a), (Tag('z'),))]
    for G, n in gens:
        for combo in itertools.product(styles, repeat=n):
            for form in forms if n == 1 else forms[:2]:
                for own in (None, hollow, check):
                    for default in (hollow, check):
                        for place in ('field', 'list', 'optional', 'tuple', 'value', 'element of own'):
                            if n == 3 and place not in ('field', 'list'):
                                continue
                            args = tuple(form(int, () if s is None else (styles[s],)) for s in combo)
                            hint = attempt(lambda: ann(G[args if n > 1 else args[0]], () if own is None else (own,)))
                            if hint[0] != 'ok':
                                continue
                            hint = hint[1]
                            checked = any((styles[s] or default) is not hollow for s in combo)
                            if form is forms[3] or form is forms[2]:
                                checked = checked or default is not hollow
                            full = {'field': lambda: hint, 'list': lambda: ann(List[hint], (check,)), 'optional': lambda: Optional[hint], 'tuple': lambda: ann(Tuple[int, hint], (check,)), 'value': lambda: ann(Dict[str, hint], (check,)), 'element of own': lambda: ann(list[hint], (check,))}[place]()
                            r = attempt(lambda: mk('K', {'x': full}, default_type_check=default))
                            ctx.op()
                            ctx.expect((r[0] == 'err' and isinstance(r[1], TypeError)) if checked else r[0] == 'ok', 'unchecked', lambda: f'{G} of {combo} (form {forms.index(form)}, {own}) as {place}, class {default}: {say(r)}')
        ctx.state('unchecked', repr(G))


def pattern_library(ctx):
    """patterns are compiled by the library that is in the extras module when they are declared"""
    from records import FullMatch, extras

    class Lib:
        def __init__(self, flag):
            self.flag, self.seen = flag, []

        def __getattr__(self, name):
            return getattr(re, name)

        def compile(self, pattern, flags=0):
            self.seen.append(pattern)
            return re.compile(pattern, flags | self.flag) if isinstance(pattern, (str, bytes)) else pattern

    class Own:
        """a pattern of a library of one's own"""
        def __init__(self, pattern):
            self.pattern = pattern

        def fullmatch(self, v):
            return [] if v != self.pattern[::-1] else True

    class Ownlib:
        compile = Own
    libs = {'none': (lambda: re, lambda p, v: re.fullmatch(p, v)), 'any case': (lambda: Lib(re.I), lambda p, v: re.fullmatch(p, v, re.I)), 'dot': (lambda: Lib(re.S), lambda p, v: re.fullmatch(p, v, re.S)), 'own': (Ownlib, lambda p, v: v == p[::-1])}
    pats = ['a', 'ab', '.', 'a|b', b'a', b'.']
    subjects = ['a', 'A', 'b', 'ab', 'ba', 'AB', '\n', 'x', '.', 'b|a']
    real = extras.re
    try:
        for seq in itertools.product(libs, repeat=3):
            made = []
            for name in seq:
                extras.re = libs[name][0]()
                for p in pats:
                    made.append((name, p, mk('K', {'x': Annotated[object, FullMatch(p)]})))
            # those declared before go on with the library of their time
            for name, p, K in made:
                for s_ in subjects:
                    v = s_ if isinstance(p, str) else s_.encode()
                    r = attempt(lambda: K(x=v).x)
                    ctx.op()
                    ctx.expect((r[0] == 'ok' and r[1] is v) if libs[name][1](p, v) else r[0] == 'err' and isinstance(r[1], ValueError), 'pattern-library', lambda: f'{seq}: {p!r} made with {name} on {v!r}: {say(r)}')
            ctx.state('pattern libraries', seq)
    finally:
        extras.re = real


def single_required(ctx):
    """the positional argument goes to the single required field, wherever it stands and whatever the others have for defaults"""
    ZERO = object()
    defaults = {'required': None, 'none': None, 'zero': 0, 'empty': '', 'object': ZERO, 'dots': ..., 'factory': Factory(lambda: ZERO), 'none factory': Factory(lambda: None), 'ni': NotImplemented}
    names = ['b', 'a', 'c']
    for n in (1, 2, 3):
        for kinds in itertools.product(defaults, repeat=n):
            if n == 3 and kinds.count('required') > 2:
                continue
            req = [m for m, k in zip(names, kinds) if k == 'required']
            fields = list(zip(names, kinds))
            for split in range(n):
                for unary in (None, False) if n < 3 else (None,):
                    dd = {m: defaults[k] for m, k in fields if k != 'required'}
                    if split:
                        P = mk('P', [(m, object) for m, _ in fields[:split]], {m: dd[m] for m, _ in fields[:split] if m in dd})
                        K = mk('K', [(m, object) for m, _ in fields[split:]], {m: dd[m] for m, _ in fields[split:] if m in dd}, bases=(P,), **({} if unary is None else dict(unary_parse=unary)))
                    else:
                        K = mk('K', [(m, object) for m, _ in fields], dd, **({} if unary is None else dict(unary_parse=unary)))
                    for arg in (5, None, ZERO, ...):
                        for k in range(n + 1):
                            for given in itertools.combinations(names[:n], k):
                                for val in (None, 3):
                                    kw = dict.fromkeys(given, val)
                                    if not kw and len(req) != 1 and unary is None:
                                        continue
                                    r = attempt(lambda: K(arg, **kw))
                                    ctx.op()
                                    if len(req) == 1 and req[0] not in kw:
                                        want = {m: arg if m == req[0] else kw[m] if m in kw else d.func() if isinstance(d := dd[m], Factory) else d for m in names[:n]}
                                        ctx.expect(r[0] == 'ok' and type(r[1]) is K and all(getattr(r[1], m) is want[m] for m in want), 'positional', lambda: f'{fields} split {split}: {arg!r} with {kw}: {say(r)}')
                                    else:
                                        ctx.expect(r[0] == 'err' and isinstance(r[1], TypeError), 'positional', lambda: f'{fields} split {split}: {arg!r} with {kw}: {say(r)}')
    ctx.state('single required')


def export_steps(ctx):
    """export arguments given in steps, by position or by keyword, are those given at once"""
    t, u = Tag('t'), Tag('u')
    fields = {'d': int, 'b': Annotated[int, t], 'a': Annotated[int, u], 'c': int}
    K = mk('K', list(fields.items()), {'b': 2, 'a': 1, 'c': 3})
    steps = [((), {}), ((True,), {}), ((False,), {}), ((True, True), {}), ((True, -1), {}), ((1, None, t), {}), ((True, 1, {t, u}, 'b'), {}), ((), dict(include_defaults=True)), ((), dict(sort=True)), ((), dict(sort=-1)), ((), dict(blacklist_tags=t)), ((), dict(whitelist_keys='a')), ((True,), dict(sort=1)), ((t,), {}), (('b',), {})]
    for values in ({'d': 0}, {'d': 4, 'b': 7, 'a': 9}):
        i = K(**values)
        for depth in (1, 2, 3):
            for seq in itertools.product(steps, repeat=depth):
                if depth == 3 and sum(map(bool, (s[0] for s in seq))) < 2:
                    continue
                args = sum((s[0] for s in seq), ())
                kw = {k: v for s in seq for k, v in s[1].items()}
                want = attempt(lambda: list(i.to_dict(*args, **kw).items()))
                last = seq[-1]

                def chain(h, sel=False, n=depth):
                    for a, k in seq[:n]:
                        h = h.export_with(*a, **k)
                        if sel:
                            h = h.select(keys_to_maybe_remove='zz')
                    return h
                outs = [('instance', lambda: chain(i.to_dict)()), ('class', lambda: chain(K.to_dict)(i)), ('call', lambda: chain(i.to_dict, n=depth - 1)(*last[0], **last[1])), ('class call', lambda: chain(K.to_dict, n=depth - 1)(i, *last[0], **last[1])), ('selecting', lambda: chain(i.to_dict, True)()),
                        ('json', lambda: json.loads(chain(i.to_json)())), ('class json', lambda: json.loads(chain(K.to_json, True)(i)))]
                for how, f in outs:
                    r = attempt(lambda: list(f().items()))
                    ctx.op()
                    ctx.expect(r == want if want[0] == 'ok' else r[0] == 'err' and type(r[1]) is type(want[1]), 'steps', lambda: f'{seq}, {how}: {say(r)} {r[1]}, at once {say(want)} {want[1]}')
    # and at once is what the statement says
    for inc, srt, bl, wl in itertools.product((False, True), (None, 1, -1), (frozenset(), t, {t, u}), ((), 'a', ('b', 'a'))):
        i = K(d=0, c=5)
        bs, ws = {bl} if isinstance(bl, Tag) else bl, {wl} if isinstance(wl, str) else set(wl)
        want = [n for n in ('d', 'b', 'a', 'c') if n in ws or not (n == 'b' and t in bs or n == 'a' and u in bs) and (inc or n in 'dc')]
        want = sorted(want, reverse=srt == -1) if srt else want
        r = attempt(lambda: list(i.to_dict(inc, srt, bl, wl)))
        ctx.op()
        ctx.expect(r == ('ok', want), 'positional', lambda: f'{inc} {srt} {bl} {wl}: {say(r)} {r[1]}')
    ctx.state('export steps')


def libraries(ctx):
    """a replacement gets what was given, and nothing else"""
    from records import extras
    got = []

    def rec(name, f):
        def call(*a, **k):
            got.append((name, a, k))
            return f(*a)
        return call
    K = mk('K', {'x': object, 'y': object}, {'y': 0})

    def lib(result):
        return type('L', (), {n: staticmethod(rec(n, f)) for n, f in (('dumps', lambda v, *a: 'text'), ('dump', lambda v, io_, *a: None), ('loads', lambda v, *a: result()), ('load', lambda io_, *a: result()))})
    real = extras.json, extras.pickle
    src = object()
    try:
        extras.json, extras.pickle = lib(lambda: {'x': 7}), lib(lambda: K(x=7))
        i = K(x=1)
        for args in ((), (src,), (2, src)):
            for kw in ({}, {'protocol': 2}, {'k': src, 'cls': None}, {'v': 1} if args else {}):
                outs = [('to_json', lambda: i.to_json(*args, **kw), 'dumps', ({'x': 1}, *args), 'text'), ('class to_json', lambda: K.to_json(i, *args, **kw), 'dumps', ({'x': 1}, *args), 'text'), ('to_json io', lambda: i.to_json(*args, io=src, **kw), 'dump', ({'x': 1}, src, *args), None),
                        ('to_pickle', lambda: i.to_pickle(*args, **kw), 'dumps', (i, *args), 'text'), ('to_pickle io', lambda: i.to_pickle(*args, io=src, **kw), 'dump', (i, src, *args), None)]
                if 'v' not in kw and 'cls' not in kw:
                    outs += [('from_pickle', lambda: K.from_pickle(b'', *args, **kw), 'loads', (b'', *args), K(x=7)), ('from_pickle_io', lambda: K.from_pickle_io(src, *args, **kw), 'load', (src, *args), K(x=7))]
                    if not args:
                        outs += [('from_json', lambda: K.from_json('t', **kw), 'loads', ('t',), K(x=7)), ('from_json_io', lambda: K.from_json_io(src, **kw), 'load', (src,), K(x=7))]
                for how, f, name, a, result in outs:
                    if 'to_json' in how and 'v' in kw:
                        continue
                    del got[:]
                    r = attempt(f)
                    ctx.op()
                    ctx.expect(r == ('ok', result) and got == [(name, a, kw)], 'library', lambda: f'{how} with {args} {kw}: {say(r)}, called {got}')
    finally:
        extras.json, extras.pickle = real
    ctx.state('libraries')


def own_coercers(ctx):
    own_tokens(ctx, 'coercer')


def mixin_hooks(ctx):
    """mixins with hooks of their own for being derived from"""
    for frozen, ordered, level, order, cooperative in itertools.product((False, True), (False, True), (1, 2), (0, 1), (True, False)):
        got = []

        class Reg:
            def __init_subclass__(cls, label='none', **kw):
                got.append((cls.__name__, label, kw))
                if cooperative:
                    super().__init_subclass__(**kw)

        if order == 0 and not cooperative:
            continue  # the hook of such a mixin does not let the record's own run
        flags = dict(frozen=frozen, ordered=ordered)
        bases = (Reg, RecordBase) if order == 0 else (RecordBase, Reg)

        def declare(name, bases, ann, **kw):
            return type(name, bases, {'__annotations__': ann, '__module__': 'mc_mixins'}, **kw)
        exp = []
        for kw in ({}, {'label': 'x'}, {'label': None}):
            ctx.op()
            cls = declare('A', bases, {'x': int}, **flags, **kw)
            want = [('A', kw.get('label', 'none'), flags if order == 0 else {})]
            if level == 2:
                cls = declare('B', (cls,), {'y': int}, **flags, **kw)
                want.append(('B', *want[0][1:]))
            ctx.expect(got == want, 'hook', lambda: f'hooks of mixins got {got}, expected {want}')
            ctx.expect(list(cls._fields) == ['x', 'y'][:level] and cls.is_frozen() is frozen, 'hook', lambda: f'with a hook: {list(cls._fields)} frozen={cls.is_frozen()}')
            kws = dict(x=1, y=2) if level == 2 else dict(x=1)
            ctx.expect(attempt(lambda: cls(**kws).to_dict()) == ('ok', kws), 'hook', lambda: f'with a hook: {say(attempt(lambda: cls(**kws)))}')
            del got[:]
        # nobody takes it
        ctx.op()
        if cooperative:
            r = attempt(declare, 'A', bases, {'x': int}, nobodys=3)
            ctx.expect(r[0] == 'err' and type(r[1]) is TypeError, 'hook', lambda: f'declared with a keyword that nobody takes: {say(r)}')
    r = attempt(lambda: type('A', (RecordBase,), {'__annotations__': {'x': int}}, nobodys=3))
    ctx.expect(r[0] == 'err' and type(r[1]) is TypeError, 'hook', lambda: f'declared with a keyword that nobody takes: {say(r)}')
    ctx.state('mixin hooks')


ONCE = dict(C23=[mixin_hooks], C13=[single_required], C21=[libraries], C12=[evaluations], C30=[tags_of_tags], C06=[own_coercers], C09=[partial_variables], C03=[type_variables], C04=[type_variables], C01=[spellings], C20=[spellings], C18=[containers, odd_selectors, export_steps], C07=[loggers, own_errors, own_tokens], C26=[own_errors], C05=[union_styles, opaque_elements, unchecked_generics], C11=[flags, pattern_library], C14=[almost_parsers])

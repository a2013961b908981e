"""C12: the built-in coercers against hand-written oracles, over a common alphabet of inputs."""
import abc
import decimal
import itertools
import typing
from ast import literal_eval
import keyword
from collections import ChainMap, OrderedDict, defaultdict, deque
from collections.abc import Mapping
from fractions import Fraction as Fr
from typing import List, Tuple, Union, Dict

from mc import wide
from mc.lib import *  # noqa

try:
    from records.fillers.builtin_fillers.std_fillers import ToBytes
except ImportError:  # an internal location: the checks of ToBytes are skipped if it moves
    ToBytes = getattr(__import__('records'), 'ToBytes', None)

BOUNDS = dict(quick=wide.TEXT + '; ' + '~130 coercer configurations (every built-in coercer, preset arguments, constraints, called or not, nested compositions, shared between fields) x target types x '
                    '2 checking styles x 8 positions (field, list element, union alternative, through ComposeCoercer, something composed onto it, second and third field with the same annotation, inherited) x 90 input values',
              thorough='the same with every ordered pair of coercers on one field')
RULE = 'one case = coercer configuration, checking style and position; inside: every value of the alphabet, compared with a hand-written oracle'

FAIL = object()


class No(Exception):
    pass


class Rec:
    """a target type that records how it was called"""
    calls = 0

    def __init__(self, *a, **k):
        Rec.calls += 1
        if a and a[0] == 'refuse':
            raise KeyError('refuse')
        self.a, self.k = a, k

    def __eq__(self, o):
        return type(o) is type(self) and len(self.a) == len(o.a) and all(x is y or same(x, y) for x, y in zip(self.a, o.a)) and same(self.k, o.k)

    __hash__ = None

    def __repr__(self):
        return f'{type(self).__name__}{self.a}{self.k}'

    @classmethod
    def cm(cls, v, *a, **k):
        return cls('cm', v, *a, **k)

    @classmethod
    def wrong(cls, v):
        return 'not a Rec'

    @staticmethod
    def sm(v):
        return SubRec('sm', v)


class SubRec(Rec):
    pass


class Abstract(abc.ABC):
    @abc.abstractmethod
    def f(self):
        pass


class It:
    """a one-shot iterator"""

    def __init__(self, *a):
        self.i = iter(a)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self.i)

    def __repr__(self):
        return 'It'

    def __eq__(self, o):
        return isinstance(o, It)

    __hash__ = object.__hash__


class BadBool:
    def __bool__(self):
        raise LookupError('no truth')


class Len0:
    def __len__(self):
        return 0


class Full0(tuple):
    """truthy at any length"""

    def __bool__(self):
        return True


class Void(list):
    """falsish at any length"""

    def __bool__(self):
        return False


class Void0:
    """its truth is asked first, not its length"""

    def __bool__(self):
        return False

    def __len__(self):
        return 3


class IntLike(int):
    pass


OBJ = object()
SHARED = Rec(0)


def values():
    nums = [0, 1, -1, 2, 5, 127, 128, 255, 256, 65535, 10 ** 30, -128, -129, True, False, 0.0, -0.0, 1.0, 2.0, 2.5, -3.0, 0.5, 1e300, float('inf'), float('-inf'), float('nan'), 2 ** 53 + 0.0,
            Fr(4, 2), Fr(1, 2), Fr(-7), decimal.Decimal(3), decimal.Decimal('2.5'), 2 + 0j, 2.5 + 0j, 1j, 2 + 1j, complex('nan'), complex(3, 1e-12), complex(2, 5e-324), complex(2, -1e-300), complex(5, float('nan')), complex(0, -0.0), complex(1e-300, 0), IntLike(7), -2.999999, 3.001,
            2.0 ** 52 + 1, 2.0 ** 53 - 1, -2.0 ** 52 - 1, 2.0 ** 52 - 0.5, 2.0 ** 51 + 0.5, 1e22, Fr(2 ** 60 + 1), Fr(2 ** 61 + 1, 2), Fr(10 ** 12 - 1, 10 ** 12), Fr(10 ** 12 + 1, 10 ** 12), Fr(1, 10 ** 30), complex(2.0 ** 52 + 1), 2.9999999999999996, 3.0000000000000004, (.1 + .7) * 10, -3.0000000000000004, -1e-20, complex(2.9999999999999996), 1 - 2e-16, -2 ** 63, 2 ** 64]
    strs = ['', '0', '1', '5', ' 7 ', 'a', 'ff', '1+1', '[1, 2]', "'5'", '"\'6\'"', '(1, 2)', '{1: 2}', 'None', 'True', '1.5', 'x', 'x + 1', 'k * 2', 'f(3)', 'int', 'len([1])', '__import__("os")', '1 +', '\t1', 'Rec(1)', 'abs(-1)',
            'refuse', '1_000', "{'a': 1}", '1+2j', '-4', 'MAP', MyStr('8')]
    other = [None, ..., NotImplemented, b'', b'1', b'ab', bytearray(b'12'), [], [1], [1, 2], ['a', 1], ['1', '2'], [True, 'b'], (), (1,), (1, 'b'), ('refuse',), {}, {'a': 1}, {'a': 'x', 'b': 2}, {'b': True}, {'a': None}, {'a': 1, 'b': None}, {'a': [], 'b': ()}, {1: 2}, OrderedDict(a=1), set(), {1}, frozenset(),
             range(0), range(3), deque([1]), OBJ, SHARED, Len0(), BadBool(), int, Rec, It(1, 2), It(3), memoryview(b'a'), memoryview(b''), Full0(), Full0((1,)), Void(), Void([1]), Void0(), NotImplementedError, type(None), {'v': 1}, {'x': 1, 'base': 2}, [[1]], [None]]
    return nums + strs + other


N = len(values())


def o_loose(origin, a, k, constraint=None):
    def f(v):
        if constraint is not None and not isinstance(v, constraint):
            raise No
        return origin(v, *a, **k)
    return f


def o_unpack(origin, a, k, constraint=None):
    def f(v):
        items = list(v)
        if constraint is not None:
            if len(constraint) == 2 and constraint[1] is ...:
                if not all(isinstance(x, constraint[0]) for x in items):
                    raise No
            elif len(items) != len(constraint) or not all(isinstance(x, c) for x, c in zip(items, constraint)):
                raise No
        return origin(*items, *a, **k)
    return f


def o_map(origin, a, k, constraint=None):
    def f(v):
        if not hasattr(v, 'keys'):
            raise No
        d = {x: v[x] for x in v.keys()}
        if constraint is not None and not all(x in constraint and isinstance(y, constraint[x]) for x, y in d.items()):
            raise No
        if set(d) & set(k):
            raise No
        return origin(*a, **{**d, **k})
    return f


def o_whole(origin, a, k):
    def f(v):
        if isinstance(v, complex):
            if v.imag != 0:
                raise No
            v = v.real
        if type(v) is float and abs(v) < 2 ** 52 and v != round(v):
            # a rounding error below a whole number is corrected; what becomes of one above it is left open
            if round(v) - 1e-12 < v < round(v):
                return origin(round(v), *a, **k)
            if abs(v - round(v)) < 1e-8:
                return FAIL
        if isinstance(v, decimal.Decimal):
            return FAIL  # unspecified: not checked
        if not isinstance(v, (int, float, Fr)) or v != v or v in (float('inf'), float('-inf')) or v != int(v):
            raise No
        return origin(int(v), *a, **k)
    return f


def o_bytes(origin, length=None, byteorder='big', signed=False):
    def f(v):
        if not isinstance(v, int):
            raise No
        if not ((signed or v >= 0) and (length is None or (-(1 << 8 * length - 1) <= v < 1 << 8 * length - 1 if signed else v < 1 << 8 * length))):
            raise No
        return ('decodes', int(v), length, byteorder, signed, origin)
    return f


def o_falsish(origin, a, k):
    def f(v):
        if v:
            raise No
        return origin(*a, **k)
    return f


def o_eval(names):
    def f(v):
        if not isinstance(v, str):
            raise No
        return eval(str(v), {'__builtins__': {}, **names})
    return f


def o_literal(v):
    if not isinstance(v, str):
        raise No
    while isinstance(v, str):
        v = literal_eval(v)
    return v


def o_frominteger(v):
    if isinstance(v, (float, complex, Fr, decimal.Decimal)) and v in (0, 1):
        return FAIL  # numbers equal to 0 and 1 that are not integers: unspecified
    if isinstance(v, int) and v in (0, 1):
        return v == 1
    raise No


def o_compose(*fs):
    def f(v):
        for g in reversed(fs):
            v = g(v)
            if v is FAIL:
                return FAIL
        return v
    return f


MAPK = {1: 'one', 'MAP': 'mapped', None: 'none', (1, 'b'): 'tup', '': 'empty'}


def o_mapc(values, factories):
    def f(v):
        if v in values:
            return values[v]
        if v in factories:
            return factories[v]()
        raise No
    return f


def double(v, times=2, *more, plus=''):
    return v * times + plus


def kk(v, a, b=0):
    return Rec(v, a, b=b)


def configs():
    """(name, token thunk, target, oracle)"""
    C = []

    def add(name, token, target, oracle):
        C.append((name, token, target, oracle))
    for t in (int, float, str, list, tuple, dict, bytes, bool, complex, set, frozenset, Fr, deque, Rec, IntLike):
        add(f'Loose {t.__name__}', lambda: Loose, t, o_loose(t, (), {}))
        add(f'Loose() {t.__name__}', lambda: Loose(), t, o_loose(t, (), {}))
        add(f'Falsish {t.__name__}', lambda: Falsish, t, o_falsish(t, (), {}))
        add(f'LooseUnpack {t.__name__}', lambda: LooseUnpack, t, o_unpack(t, (), {}))
        add(f'LooseUnpackMap {t.__name__}', lambda: LooseUnpackMap(), t, o_map(t, (), {}))
    add('Loose args', lambda: Loose('x', k=1), Rec, o_loose(Rec, ('x',), dict(k=1)))
    add('Loose base', lambda: Loose(base=16), int, o_loose(int, (), dict(base=16)))
    add('Loose enc', lambda: Loose('utf-8'), str, o_loose(str, ('utf-8',), {}))
    for c in (int, str, (int, str), bytes, type(None), object, (list, tuple)):
        add(f'Loose.constrain {c}', lambda c=c: Loose.constrain(c), Rec, o_loose(Rec, (), {}, c))
        add(f'Loose.constrain() {c}', lambda c=c: Loose.constrain(c)(), int, o_loose(int, (), {}, c))
        add(f'Loose.constrain(args) {c}', lambda c=c: Loose.constrain(c)('y', z=2), Rec, o_loose(Rec, ('y',), dict(z=2), c))
    add('LooseUnpack args', lambda: LooseUnpack('x', k=1), Rec, o_unpack(Rec, ('x',), dict(k=1)))
    for c in ((), (int,), (int, int), (str, int), (int, ...), (str, ...), ((int, str), ...), ((int, str), (int, str)), (bool, str), (object, ...), (int, int, int)):
        add(f'LooseUnpack.constrain {c}', lambda c=c: LooseUnpack.constrain(*c), Rec, o_unpack(Rec, (), {}, c))
        add(f'LooseUnpack.constrain(args) {c}', lambda c=c: LooseUnpack.constrain(*c)('w', q=0), Rec, o_unpack(Rec, ('w',), dict(q=0), c))
    add('LooseUnpackMap args', lambda: LooseUnpackMap(0, k=1), Rec, o_map(Rec, (0,), dict(k=1)))
    add('LooseUnpackMap overlap', lambda: LooseUnpackMap(0, a=1), Rec, o_map(Rec, (0,), dict(a=1)))
    for c in ({}, dict(a=int), dict(a=object), dict(a=int, b=int), dict(a=str, b=int), dict(a=(int, str), b=object), dict(b=bool), dict(zz=int)):
        add(f'LooseUnpackMap.constrain {c}', lambda c=c: LooseUnpackMap.constrain(**c), Rec, o_map(Rec, (), {}, c))
        add(f'LooseUnpackMap.constrain(args) {c}', lambda c=c: LooseUnpackMap.constrain(**c)(5, r=1), Rec, o_map(Rec, (5,), dict(r=1), c))
    for t in (int, IntLike, float, str, Fr, Rec, bool):
        add(f'Whole {t.__name__}', lambda: Whole, t, o_whole(t, (), {}))
    add('Whole args', lambda: Whole('x', k=2), Rec, o_whole(Rec, ('x',), dict(k=2)))
    if ToBytes is not None:
        for t in (bytes, bytearray):
            add(f'ToBytes {t.__name__}', lambda: ToBytes(byteorder='big'), t, o_bytes(t))
            add(f'ToBytes little {t.__name__}', lambda: ToBytes(byteorder='little'), t, o_bytes(t, None, 'little'))
            add(f'ToBytes signed {t.__name__}', lambda: ToBytes(byteorder='big', signed=True), t, o_bytes(t, None, 'big', True))
            add(f'ToBytes length {t.__name__}', lambda: ToBytes(2, 'big'), t, o_bytes(t, 2, 'big'))
            add(f'ToBytes length kw {t.__name__}', lambda: ToBytes(length=1, byteorder='little', signed=True), t, o_bytes(t, 1, 'little', True))
    for t in (list, Rec):
        add(f'Falsish args {t.__name__}', lambda: Falsish((1, 2)), t, o_falsish(t, ((1, 2),), {}))
    add('Falsish kw', lambda: Falsish(7, k=None), Rec, o_falsish(Rec, (7,), dict(k=None)))
    for t in (int, str, list, Rec, object, tuple, bool, dict):
        add(f'Eval {t.__name__}', lambda: Eval, t, o_eval({}))
        add(f'Eval ... {t.__name__}', lambda: Eval(...), t, o_eval({t.__name__: t}))
        add(f'Eval names {t.__name__}', lambda: Eval(abs, x=5, k=[3], f=lambda n: [n]), t, o_eval(dict(abs=abs, x=5, k=[3], f=EVF)))
        add(f'Eval ... names {t.__name__}', lambda: Eval(..., abs, int, x='q'), t, o_eval({t.__name__: t, 'abs': abs, 'int': int, 'x': 'q'}))
    for t in (int, str, float, complex, set, tuple, dict, list, bool):
        add(f'LiteralEval {t.__name__}', lambda: LiteralEval, t, o_literal)
    add('FromInteger', lambda: FromInteger(), bool, o_frominteger)
    add('FromInteger class', lambda: FromInteger, bool, o_frominteger)
    add('FromInteger subclass', type('FI', (FromInteger,), {}), bool, o_frominteger)
    add('Loose subclass', type('LS', (Loose,), {}), int, int)
    add('Map', lambda: MapCoercion(MAPK), str, o_mapc(MAPK, {}))
    add('Map object', lambda: MapCoercion({'x': SHARED, 5: SHARED}), Rec, o_mapc({'x': SHARED, 5: SHARED}, {}))
    add('Map wrong types', lambda: MapCoercion({'x': 5, 1: None}), str, o_mapc({'x': 5, 1: None}, {}))
    add('Map factories', lambda: MapCoercion(factory_map={'x': Rec, 0: lambda: Rec(0), 'a': lambda: 1 / 0}), Rec, o_mapc({}, {'x': Rec, 0: lambda: Rec(0), 'a': lambda: 1 / 0}))
    add('Map both', lambda: MapCoercion({'x': SHARED}, {'x': Rec, 1: Rec}), Rec, o_mapc({'x': SHARED}, {'x': Rec, 1: Rec}))
    add('Map falsish', lambda: MapCoercion({'x': [], 'a': None}, {'a': list}), list, o_mapc({'x': [], 'a': None}, {}))
    add('Map empty', lambda: MapCoercion(), list, o_mapc({}, {}))
    add('ClassMethod', lambda: ClassMethodCoercion('cm'), Rec, lambda v: Rec('cm', v))
    add('ClassMethod args', lambda: ClassMethodCoercion('cm', 1, z=3), Rec, lambda v: Rec('cm', v, 1, z=3))
    add('ClassMethod sub', lambda: ClassMethodCoercion('cm'), SubRec, lambda v: SubRec('cm', v))
    add('ClassMethod wrong', lambda: ClassMethodCoercion('wrong'), Rec, lambda v: 'no')
    add('ClassMethod static', lambda: ClassMethodCoercion('sm'), Rec, lambda v: SubRec('sm', v))
    add('ClassMethod fromhex', lambda: ClassMethodCoercion('fromhex'), bytes, bytes.fromhex)
    add('Call', lambda: CallCoercion(int), int, int)
    add('Call args', lambda: CallCoercion(int, 16), int, lambda v: int(v, 16))
    add('Call kwargs', lambda: CallCoercion(kk, 'A', b='B'), Rec, lambda v: kk(v, 'A', b='B'))
    add('Call double', lambda: CallCoercion(double, 3, plus='!'), str, lambda v: double(v, 3, plus='!'))
    add('Compose empty', lambda: ComposeCoercer(), int, lambda v: v)
    add('Compose 1', lambda: ComposeCoercer(Loose), int, int)
    add('Compose 2', lambda: ComposeCoercer(Loose, CallCoercion(str.strip)), int, lambda v: int(str.strip(v)))
    add('Compose order', lambda: ComposeCoercer(CallCoercion(lambda v: Rec('1st', v)), CallCoercion(lambda v: ('2nd', v)), CallCoercion(lambda v: ('3rd', v))), Rec, lambda v: Rec('1st', ('2nd', ('3rd', v))))
    add('Compose nested', lambda: ComposeCoercer(ComposeCoercer(CallCoercion(lambda v: Rec('a', v)), CallCoercion(lambda v: ('b', v))), ComposeCoercer(CallCoercion(lambda v: ('c', v)))), Rec,
        lambda v: Rec('a', ('b', ('c', v))))
    add('Compose bool', lambda: ComposeCoercer(FromInteger, CallCoercion(int)), bool, lambda v: o_frominteger(int(v)))
    add('Compose literal', lambda: ComposeCoercer(CallCoercion(lambda v: v if isinstance(v, int) else [][0]), LiteralEval), int, o_compose(lambda v: v if isinstance(v, int) else [][0], lambda v: v if not isinstance(v, str) else o_literal(v)))
    add('Compose loose constrained', lambda: ComposeCoercer(Loose.constrain(str), CallCoercion(lambda v: v[0])), int, o_compose(o_loose(int, (), {}, str), lambda v: v[0]))
    add('Compose map', lambda: ComposeCoercer(MapCoercion({'A': 'a'}), CallCoercion(str.upper)), str, o_compose(o_mapc({'A': 'a'}, {}), str.upper))
    add('Compose classmethod', lambda: ComposeCoercer(ClassMethodCoercion('cm'), Falsish), Rec, lambda v: Rec('cm', o_falsish(Rec, (), {})(v)))
    return C


def EVF(n):
    return [n]


POS = ('field', 'element', 'alt', 'compose', 'second', 'third', 'child', 'outer')
CALLS = []


def outer(v):
    CALLS.append(v)
    return v


def cases(tier):
    yield from wide.cases('C12', tier)
    C = configs()
    for i in range(len(C)):
        for strict in (False, True):
            for pos in POS:
                yield 'one', i, strict, pos
    pairs = [(i, j) for i in range(len(C)) for j in range(len(C)) if C[i][2] is C[j][2]]
    for i, j in pairs:
        if tier == 'thorough' or C[i][2] in (bool, list, bytes, dict, float):
            yield 'pair', i, j, False
    yield 'declarations', 0, 0, 0
    for i in range(5):
        for strict in (False, True):
            yield 'missing', i, strict, 0
    for i in range(6):
        yield 'undeclared', i, 0, 0
    yield 'shared', 0, 0, 0


def checkval(strict, t, v):
    return type(v) is t if strict else isinstance(v, t)


def expected(strict, t, oracles, v):
    """the stored value, FAIL (not specified) or No"""
    if checkval(strict, t, v):
        return 'same', v
    for o in oracles:
        try:
            r = o(v)
        except Exception:
            continue
        if r is FAIL:
            return 'free', None
        if type(r) is tuple and r and r[0] == 'decodes':
            return r
        if checkval(strict, t, r):
            return 'new', r
    return 'reject', None


def consumable(v):
    return hasattr(v, '__next__')


def run(case, ctx):
    if case[0] == '__wide__':
        return wide.run('C12', ctx, case[1])
    kind = case[0]
    if kind == 'declarations':
        return declarations(ctx)
    if kind == 'shared':
        return shared(ctx)
    if kind == 'missing':
        return missing(ctx, case)
    if kind == 'undeclared':
        return undeclared(ctx, case)
    C = configs()
    if kind == 'one':
        _, i, strict, pos = case
        name, token, t, oracle = C[i]
        toks, oracles = [token()], [oracle]
    else:
        _, i, j, strict = case
        (name, token, t, oracle), (n2, tok2, _, or2) = C[i], C[j]
        name += ' then ' + n2
        toks, oracles, pos = [token(), tok2()], [oracle, or2], 'field'
    style = check_strict if strict else check
    if pos == 'compose':
        toks = [ComposeCoercer(toks[0])]
    if pos == 'outer':
        toks = [ComposeCoercer(CallCoercion(outer), toks[0])]
    T = Annotated[(t, style, *toks)]
    if pos == 'element':
        r = attempt(mk, 'K', {'x': List[T]}, default_type_check=check)
        get = lambda K, v: K(x=[v]).x[0]
    elif pos == 'alt':
        r = attempt(mk, 'K', {'x': Annotated[Union[T, Annotated[Abstract, check]], check]}, default_type_check=check)
        get = lambda K, v: K(x=v).x
    elif pos in ('second', 'third'):  # several fields use the same annotation (and so the same token)
        r = attempt(mk, 'K', {'v': T, 'second': T, 'third': T, 'y': List[T]}, {'v': 0, 'second': 0, 'third': 0, 'y': ()}, default_type_check=check)
        get = lambda K, v: getattr(K(**{pos: v}), pos)
    elif pos == 'child':  # inherited, the same annotation also serving the heir
        P = mk('P', {'x': T})
        r = attempt(mk, 'K', {'y': T}, {'y': 0}, bases=(P,))
        get = lambda K, v: K(x=v).x
    else:
        r = attempt(mk, 'K', {'x': T})
        get = lambda K, v: K(x=v).x
    if r[0] == 'err':
        return ctx.fail('declaration', f'{name} for {t} {style} at {pos}: {show(r)}')
    K = r[1]
    for n in range(N):
        v, v2 = values()[n], values()[n]
        if n in range(N) and (v is OBJ or v is SHARED or not consumable(v)):
            v2 = v
        if kind == 'pair' and consumable(v):
            continue
        del CALLS[:]
        got = attempt(get, K, v)
        called = len(CALLS)
        exp = expected(strict, t, oracles, v2)
        if pos == 'outer' and not consumable(v):
            # what is composed onto a conversion gets its result, and only if there is one
            raw = attempt(oracles[0], v2)
            if raw[1] is not FAIL and not (name.startswith('LiteralEval') and not isinstance(v, str)):  # it leaves other things as they are
                ctx.expect(called == (exp[0] != 'same' and raw[0] == 'ok'), 'composed', lambda: f'{name} for {t.__name__} and {v2!r}: what is composed onto it was called {called} times')
        ctx.op()
        ctx.trace()
        ctx.state(name, strict, pos, n)
        ctx.outcome(exp[0])
        where = f'{name} for {t.__name__} ({"strict" if strict else "checked"}) as {pos}: {v2!r} ({type(v2).__name__}): {show(got)}'
        if exp[0] == 'free':
            continue
        if exp[0] == 'decodes':
            _, num, length, order, signed, _ = exp
            if got[0] != 'ok':
                ctx.fail('bytes', where + f', expected a conversion')
            elif (type(got[1]) is not t or int.from_bytes(got[1], order, signed=signed) != num or length is not None and len(got[1]) != length
                  or length is None and not signed and len(got[1]) > max(1, (num.bit_length() + 7) // 8)):
                ctx.fail('bytes', where + ' does not decode to the number, or is longer than needed')
            continue
        if exp[0] == 'reject':
            if got[0] == 'ok':
                ctx.fail('misconversion', where + ', has to fail')
        elif got[0] != 'ok':
            ctx.fail('refused', where + f', expected {exp[1]!r}')
        elif exp[0] == 'same':
            if got[1] is not v:
                ctx.fail('conversion', where + ', a well-typed value was converted')
        elif not same(got[1], exp[1]):
            ctx.fail('conversion', where + f', expected {exp[1]!r}')
        elif kind == 'one' and name.startswith(('LiteralEval', 'Loose', 'Falsish', 'Whole', 'ToBytes')) and type(got[1]) in (list, dict, set, bytearray, deque, Rec) and not consumable(v):
            # the result is made for this instance alone
            ctx.op()
            ctx.expect(attempt(get, K, v)[1] is not got[1], 'shared-result', where + ': the same object again')


def declarations(ctx):
    """what has to be rejected when the class (or the token) is declared"""
    bad = [
        ('Loose abstract', lambda: mk('K', {'x': Annotated[Abstract, check, Loose]})),
        ('LooseUnpack abstract', lambda: mk('K', {'x': Annotated[Abstract, check, LooseUnpack]})),
        ('LooseUnpackMap abstract', lambda: mk('K', {'x': Annotated[Abstract, check, LooseUnpackMap]})),
        ('Loose in compose abstract', lambda: mk('K', {'x': Annotated[Abstract, check, ComposeCoercer(Loose)]})),
        ('LiteralEval non-literal', lambda: mk('K', {'x': Annotated[Rec, check, LiteralEval]})),
        ('LiteralEval Fraction', lambda: mk('K', {'x': Annotated[Fr, check, LiteralEval()]})),
        ('FromInteger int', lambda: mk('K', {'x': Annotated[int, check, FromInteger()]})),
        ('FromInteger str', lambda: mk('K', {'x': Annotated[str, check, FromInteger]})),
        ('Loose callable', lambda: mk('K', {'x': Annotated[callable, check, Loose]})),
        ('Loose() Callable', lambda: mk('K', {'x': Annotated[typing.Callable, check, Loose()]})),
        ('LooseUnpack callable', lambda: mk('K', {'x': Annotated[callable, check, LooseUnpack]})),
        ('LooseUnpackMap callable', lambda: mk('K', {'x': Annotated[callable, check, LooseUnpackMap()]})),
        ('hollow loose', lambda: mk('K', {'x': Annotated[int, Loose]})),
        ('constrain non type', lambda: Loose.constrain(5)),
        ('constrain str', lambda: Loose.constrain('int')),
        ('constrain tuple', lambda: Loose.constrain((int, 5))),
        ('unpack constrain non type', lambda: LooseUnpack.constrain(int, 5)),
        ('unpack constrain ellipsis', lambda: LooseUnpack.constrain(5, ...)),
        ('map constrain', lambda: LooseUnpackMap.constrain(a=5)),
        ('missing class method', lambda: mk('K', {'x': Annotated[Rec, check, ClassMethodCoercion('nope')]})),
    ]
    for name, f in bad:
        r = attempt(f)
        ctx.op()
        ctx.trace()
        ctx.state(name)
        if r[0] == 'ok':
            ctx.fail('declaration-accepted', name)
        ctx.outcome('rejected')


def shared(ctx):
    """one token object serving several fields of several target types"""
    toks = dict(loose=Loose(), fals=Falsish(), unpack=LooseUnpack(), lit=LiteralEval(), ev=Eval(..., x=1), whole=Whole(), con=Loose.constrain(str)(), uncalled=Loose.constrain((int, str)),
                comp=ComposeCoercer(Loose, CallCoercion(lambda v: v)), mp=MapCoercion({'x': '1', 'y': 2}))
    targets = (int, str, list, float, bool, tuple)
    oracle = dict(loose=lambda t: o_loose(t, (), {}), fals=lambda t: o_falsish(t, (), {}), unpack=lambda t: o_unpack(t, (), {}), lit=lambda t: o_literal, ev=lambda t: o_eval({t.__name__: t, 'x': 1}),
                  whole=lambda t: o_whole(t, (), {}), con=lambda t: o_loose(t, (), {}, str), uncalled=lambda t: o_loose(t, (), {}, (int, str)), comp=lambda t: o_loose(t, (), {}), mp=lambda t: o_mapc({'x': '1', 'y': 2}, {}))
    for name, tok in toks.items():
        for order in (targets, targets[::-1]):
            K = mk('K', {t.__name__ + '_': Annotated[t, check, tok] for t in order}, {t.__name__ + '_': 0 for t in order})
            L = mk('L', {t.__name__ + '_': Annotated[t, check_strict, tok] for t in order}, {t.__name__ + '_': 0 for t in order})
            for cls, strict in ((K, False), (L, True)):
                for t in order:
                    for n in range(N):
                        v, v2 = values()[n], values()[n]
                        if not consumable(v):
                            v2 = v
                        got = attempt(lambda: getattr(cls(**{t.__name__ + '_': v}), t.__name__ + '_'))
                        exp = expected(strict, t, [oracle[name](t)], v2)
                        ctx.op()
                        ctx.trace()
                        ctx.state(name, t, strict, n, order is targets)
                        ok = exp[0] == 'free' or (got[0] == 'err' if exp[0] == 'reject' else got[0] == 'ok' and (got[1] is v if exp[0] == 'same' else same(got[1], exp[1])))
                        if not ok:
                            ctx.fail('shared-token', f'{name} shared by fields of types {order}: field {t.__name__} of {v2!r}: {show(got)}, expected {exp}')


class Missing(dict):
    """a dict with a default for every key"""

    def __missing__(self, key):
        return 'made up'


class MissingStored(dict):
    def __missing__(self, key):
        self[key] = ret = 'stored'
        return ret


class OnlyThese(Mapping):
    """a mapping that is not a dict"""

    def __init__(self, d):
        self.d = d

    def __getitem__(self, key):
        return self.d[key]

    def __iter__(self):
        return iter(self.d)

    def __len__(self):
        return len(self.d)


MAPPINGS = [lambda d: Missing(d), lambda d: MissingStored(d), lambda d: defaultdict(lambda: 'default', d), lambda d: OnlyThese(d), lambda d: ChainMap({}, Missing(d))]


def missing(ctx, case):
    """mappings that have an answer for keys they do not hold: only the keys they hold are converted, and the mapping stays as it was"""
    _, i, strict, _ = case
    data = {'x': 'X', 5: 'five', None: 'none', (): 'empty', '': 'blank'}
    facts = {'x': lambda: 'never', 7: lambda: 'seven', 'q': lambda: 'Q'}
    for use_factories in (False, True):
        for values_as, factories_as in ((MAPPINGS[i], dict), (dict, MAPPINGS[i] if i != 2 else lambda d: defaultdict(lambda: lambda: 'default', d))):
            vm, fm = values_as(data), factories_as(facts)
            tok = MapCoercion(vm, fm) if use_factories else MapCoercion(vm)
            K = mk('K', {'x': Annotated[str, check_strict if strict else check, tok], 'y': List[Annotated[str, check_strict if strict else check, tok]]}, {'y': []}, default_type_check=check)
            for v in [None, 5, 7, (), 6, 8, b'x', 2.5, (1,), frozenset(), [], {}, 5.0, True]:
                hashable = attempt(hash, v)[0] == 'ok'
                exp = data[v] if hashable and v in data else facts[v]() if use_factories and hashable and v in facts else NODEF
                for got in (attempt(lambda: K(x=v).x), attempt(lambda: K(x='', y=[v]).y[0])):
                    ctx.op()
                    ctx.trace()
                    ctx.state(case, use_factories, repr(v))
                    ctx.expect(got[0] == 'err' if exp is NODEF else got == ('ok', exp), 'map-key', lambda: f'MapCoercion over {vm!r} (factories {use_factories and fm}) of {v!r}: {show(got)}, expected {"a failure" if exp is NODEF else exp!r}')
            ctx.expect(dict(vm) == data and dict(fm) == facts, 'map-changed', lambda: f'the mappings given to MapCoercion were changed: {vm!r} {fm!r}')
    ctx.outcome('missing')


def undeclared(ctx, case):
    """no name but the declared ones is visible to an evaluated expression"""
    import builtins
    import sys
    i = case[1]
    names = set(dir(builtins)) | set(globals()) | set(dir(sys.modules['records'])) | set(sys.modules)
    for m in list(sys.modules.values()):
        if getattr(m, '__name__', '').split('.')[0] == 'records':
            names |= set(vars(m))
            for o in list(vars(m).values()):
                for f in [o] + (list(vars(o).values()) if isinstance(o, type) else []):
                    code = getattr(getattr(f, '__func__', f), '__code__', None)
                    while code is not None:
                        names |= set(code.co_varnames) | set(code.co_freevars) | set(code.co_cellvars) | set(code.co_names)
                        code = next((c for c in code.co_consts if hasattr(c, 'co_code')), None)
    names |= {'v', 'ns', 'origin', 'self', 'filler', 'cls', 'args', 'kwargs', 'x', 'value', '_', '__name__', '__file__', '__doc__', '__loader__', '__spec__', '__package__', '__annotations__', 'T', 'field', 'target'}
    names = sorted(n for n in names if n.isidentifier() and not keyword.iskeyword(n) and n not in ('__builtins__', '__debug__'))
    tok, declared = [(Eval, {}), (Eval(), {}), (Eval(...), {'Rec': Rec}), (Eval(abs, x=5), {'abs': abs, 'x': 5}), (Eval(..., abs, v=1, ns=None), {'Rec': Rec, 'abs': abs, 'v': 1, 'ns': None}),
                     (Eval(__name__='named', len=max), {'__name__': 'named', 'len': max})][i]
    K = mk('K', {'x': Annotated[Rec, check, tok, CallCoercion(lambda v: Rec('not evaluated', v))]})
    seen = []
    # the result is wrapped by a call so that any visible name makes a Rec
    for n in names:
        if n in declared:
            continue
        r = attempt(lambda: K(x=f'[{n}]').x)
        E = mk('E', {'x': Annotated[list, check, tok]}) if i not in (2, 4) else None
        ctx.op()
        ctx.trace()
        ctx.state(case, n)
        if r[0] != 'ok' or r[1].a != ('not evaluated', f'[{n}]'):
            ctx.fail('undeclared', f'Eval {i}: {n!r} is visible to the expression: {show(r)}')
        if E is not None:
            r = attempt(lambda: E(x=f'[{n}]').x)
            if r[0] == 'ok':
                ctx.fail('undeclared', f'Eval {i}: {n!r}, not declared, is visible to the expression: {show(r)}')
        else:
            for expr in (f'Rec({n})', f'Rec(1 if {n} is 5 else 2)'):
                r = attempt(lambda: K(x=expr).x)
                if r[0] != 'ok' or r[1].a != ('not evaluated', expr):
                    ctx.fail('undeclared', f'Eval {i}: {n!r}, not declared, is visible to the expression: {show(r)}')
    for n, o in declared.items():
        r = attempt(lambda: mk('E', {'x': Annotated[list, check, tok]})(x=f'[{n}]').x)
        if n != 'Rec' and not (r[0] == 'ok' and r[1][0] is o):
            ctx.fail('declared', f'Eval {i}: {n!r} is declared as {o!r}: {show(r)}')
    ctx.outcome('undeclared')

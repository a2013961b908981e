"""C10: every operation of a history behaves as on a freshly declared class."""
import copy
import datetime as dt
import io
import itertools
import json
import math
import pickle
import re
import warnings
from typing import *  # noqa

from mc import wide
from mc.canon import canon, err, observe
from mc.fieldcheck import *  # noqa
from mc.lib import *  # noqa
from records import extras, parser

BOUNDS = dict(quick=wide.kinds.TEXT + '; ' + '29 families of classes with 9 to 26 operations each; every sequence of operations up to length 3 from a fresh declaration; every pair of values one after the other for 42 field types and all their pair unions',
              thorough='the same families, every sequence up to length 4')
RULE = 'one case = family and first two operations; inside: every continuation; each operation is compared with the same operation alone on a fresh declaration'


class NS(dict):
    """one fresh set of declarations, plus the instances kept alive by the history"""

    def __init__(self, **k):
        super().__init__(k)
        self.kept = []

    def keep(self, inst):
        if isinstance(inst, RecordBase) and len(self.kept) < 12:
            self.kept.append((inst, canon(inst)))
        return inst


def make_op(key, *a, **k):
    def op(ns):
        return ns.keep(ns[key](*copy_args(a), **copy_args(k)))
    op.__name__ = f'{key}({a}{k})'[:60]
    return op


def copy_args(x):
    if isinstance(x, tuple):
        return tuple(copy_args(y) for y in x)
    if isinstance(x, dict):
        return {k: copy_args(v) for k, v in x.items()}
    if isinstance(x, list):
        return [copy_args(y) for y in x]
    return x


def F(**ops):
    return ops


def literals():
    K = mk('K', {'x': Annotated[Literal[1, 'a', None, b'b', False], check], 'y': Annotated[Union[Literal[2, 3], str], check]}, {'y': 'z'})
    S = mk('S', {'x': Annotated[Literal[0, 1], check_strict]})
    return NS(K=K, S=S)


LIT = [make_op('K', x=v) for v in (1, True, 1.0, 'a', b'b', None, 0, False, [], MyInt(1))] + \
      [make_op('K', x=1, y=v) for v in (2, 2.0, 'q', True)] + [make_op('S', x=v) for v in (0, False, 1)]


def bools():
    T = mk('T', {'x': Annotated[Literal[True, 2, 'a'], check, CallCoercion(lambda v: 2 if v == 2.0 else v)], 'y': Annotated[Union[Literal[1], Literal[True], Literal['1']], check]}, {'y': '1'})
    return NS(T=T)


BOOL = [make_op('T', x=v) for v in (True, 1, 1.0, 2, 2.0, 'a', None)] + [make_op('T', x=True, y=v) for v in (1, True, 1.0, '1', b'1', [])]


def unions():
    U = mk('U', {'x': Annotated[Union[int, Annotated[str, Loose(str)], List[Annotated[int, check, Whole]], None], check],
                 'y': Annotated[Union[Annotated[float, Loose], Annotated[bool, Falsish]], check]}, {'y': 1.5})
    D = types_new('D', U, {'z': Annotated[Union[int, float], check_strict]}, {'z': 0})
    return NS(U=U, D=D)


def types_new(name, base, an, defaults=None, body=None, **kw):
    return mk(name, an, defaults, body, bases=(base,), **kw)


UNI = [make_op('U', x=v) for v in (1, True, 'a', b'b', [1, 2.0], [1.5], None, (1,))] + [make_op('U', x=1, y=v) for v in (1, 2.5, '3', 'x')] + \
      [make_op('D', x=1, z=v) for v in (1, True, 1.0)]


def containers():
    C = mk('C', {'l': Annotated[List[Annotated[int, check, Loose]], check], 'd': Annotated[Dict[str, Annotated[int, check, Whole]], check],
                 't': Annotated[Tuple[Annotated[int, check, Clamp(0, 9)], ...], check]}, {'d': {}, 't': ()})
    return NS(C=C, shared=[1, 2], mixed=[1, '2'], bad=[1, 'x'], dct={'a': 1.0}, same={'a': 1})


CON = [lambda ns: ns.keep(ns['C'](l=ns['shared'])), lambda ns: ns.keep(ns['C'](l=ns['mixed'])), lambda ns: ns.keep(ns['C'](l=ns['bad'])),
       lambda ns: ns.keep(ns['C'](l=[], d=ns['dct'])), lambda ns: ns.keep(ns['C'](l=[], d=ns['same'])), lambda ns: ns.keep(ns['C'](l=[True], t=(11, -1))),
       lambda ns: ns.keep(ns['C'](l=MyList([1.0]))), lambda ns: ns.keep(ns['C'](l=(1,))), lambda ns: ns.keep(ns['C'](l=[], d={'a': 1.5})),
       lambda ns: (ns['shared'], ns['mixed'], ns['bad'], ns['dct'], ns['same']), lambda ns: ns.keep(ns['C'](l=[], t=(1, 'x')))]


def family():
    """a hierarchy with parsers"""
    P = mk('P', {'x': int, 'y': int}, {'y': 0}, dict(p=parser(staticmethod(lambda v: P(x=int(v[1:])) if isinstance(v, str) and v[:1] == 'p' else 1 / 0))), unary_parse=True)

    def q(cls, v):
        if v == 'boom':
            raise KeyError(v)
        return cls(x=len(v), y=len(v)) if isinstance(v, tuple) else [][0]
    A = mk('A', {'z': int}, {'z': 1}, dict(q=parser(classmethod(q))), bases=(P,))
    B = mk('B', {'w': int}, {'w': 2}, bases=(P,))
    ns = NS(P=P, A=A, B=B)
    return ns


def derive(ns, good=True):
    """declaring (and using) a further derived class, possibly failing"""
    def r(cls, v):
        return cls(x=-1)

    def pre(cls):
        cls.n.add_validator(lambda v: v + 1)
    D = mk('Dv', {'n': Annotated[int, check], **({} if good else {'x': str})}, {'n': 5}, dict(r=parser(classmethod(r)), pre_bind=classmethod(pre)), bases=(ns['P'],), frozen=True, ordered=True)
    return D(x=1, n=2), hash(D(x=1)), D(x=1) < D(x=2)


FAM = [lambda ns: ns.keep(ns['P'].parse('p5')), lambda ns: ns.keep(ns['P'].parse((1, 2))), lambda ns: ns.keep(ns['A'].parse((1, 2))), lambda ns: ns['B'].parse((1, 2)),
       lambda ns: ns['A'].parse('boom'), lambda ns: ns.keep(ns['P'].parse({'x': 1})), lambda ns: ns.keep(ns['B'].parse({'x': 1, 'w': 4})), lambda ns: ns['A']({'x': 1}),
       lambda ns: ns['P']('p3'), lambda ns: ns['P'](5), lambda ns: ns['B'](b'{"x": 1}'), lambda ns: ns['A'].parse('p5'), lambda ns: ns['B'].parse('p5'), lambda ns: ns['A'].parse('{"x": 1}'), lambda ns: derive(ns), lambda ns: derive(ns, False),
       lambda ns: ns.keep(ns['P'](x=1)), lambda ns: hash(ns['P'](x=1)), lambda ns: ns['P'](x=1) < ns['P'](x=2), lambda ns: setattr(ns['B'](x=1), 'x', 2)]


def frozen():
    K = mk('Fz', {'x': object, 'y': Annotated[object, Tag('t')]}, {'y': 0}, frozen=True, ordered=True)
    M = mk('Mu', {'x': object, 'y': object}, {'y': 0}, bases=(), ) if False else mk('Mu', {'x': object, 'y': object}, {'y': 0})
    for c in (K, M):
        globals()[c.__name__] = c
        c.__module__ = __name__
    a, b, c = K(x=1), K(x=True, y=0.0), K(x=[1], y=2)
    m = M(x=[1])
    ns = NS(K=K, M=M, a=a, b=b, c=c, m=m)
    for i in (a, b, c, m):
        ns.keep(i)
    return ns


FRO = [lambda ns: hash(ns['a']) == hash(ns['b']), lambda ns: (ns['a'] == ns['b'], ns['b'] == ns['a'], ns['a'] == ns['c']), lambda ns: hash(ns['c']), lambda ns: ns['a'] < ns['b'],
       lambda ns: ns['a'] <= ns['c'], lambda ns: (copy.copy(ns['a']) is ns['a'], copy.copy(ns['m'])), lambda ns: copy.deepcopy([ns['a'], ns['c'], ns['c']]),
       lambda ns: pickle.loads(pickle.dumps((ns['a'], ns['b']))), lambda ns: [ns[k].to_dict() for k in 'abcm'], lambda ns: repr((ns['a'], ns['b'], ns['m'])),
       lambda ns: ns['a'] in {ns['b']: 1}, lambda ns: setattr(ns['a'], 'x', 2), lambda ns: ns['K'].from_instance(ns['a']) is ns['a'], lambda ns: ns['M'].from_instance(ns['a'], {'y': 5}),
       lambda ns: ns['m'] == ns['M'](x=[1]), lambda ns: ns['a'].to_json(sort_keys=True)]


def defaults():
    calls = []

    def fac():
        calls.append(1)
        return [len('fresh')]
    dflt = {'k': 1}
    D = mk('D', {'x': Annotated[int, check], 'm': dict, 'f': list, 'g': object}, {'m': dflt, 'f': Factory(fac), 'g': Factory(dict)})
    ns = NS(D=D, calls=calls, dflt=dflt, seen=[])
    return ns


def fresh_default(ns, **k):
    n = len(ns['calls'])
    try:
        d = ns.keep(ns['D'](**k))
    finally:
        made = len(ns['calls']) - n
    r = d, made, d.m is ns['dflt'], any(d.f is s.f or d.g is s.g for s in ns['seen'])
    ns['seen'].append(d)
    return r


DEF = [lambda ns: fresh_default(ns, x=1), lambda ns: fresh_default(ns, x=2, f=[]), lambda ns: fresh_default(ns, x=1, m={'k': 1}), lambda ns: (len(ns['calls']) and 0, attempt(ns['D'], x='a')[0]),
       lambda ns: attempt(ns['D'])[0], lambda ns: ns['D'](x=1).to_dict(), lambda ns: ns['D'](x=1).to_dict(include_defaults=True), lambda ns: ns['D'].from_mapping({'x': 1}, f=[2]),
       lambda ns: copy.copy(ns['D'](x=1)), lambda ns: ns['D'](x=1) == ns['D'](x=1), lambda ns: ns['D'](3), lambda ns: ns['D']('3')]


def handles():
    A = mk('A', {'x': object, 'y': object}, {'y': 9})
    base = A.from_mapping.select(keys_to_rename={'a': 'x'})
    ns = NS(A=A, imp=base, imp2=base.select(keys_to_remove='junk'), frm=A.from_instance.select(keys_to_rename={'real': 'x'}), i=A(x=1, y=2), src={'a': 1})
    ns['exp'] = ns['i'].to_dict.select(keys_to_rename={'x': 'X'})
    ns['expc'] = A.to_dict.export_with(include_defaults=True)
    ns['js'] = ns['i'].to_json.export_with(sort=True).select(keys_to_add={'extra': [1]})
    ns.keep(ns['i'])
    return ns


HAN = [lambda ns: ns['imp'](ns['src']), lambda ns: ns['imp']({'b': 1}), lambda ns: ns['imp2']({'a': 1, 'junk': 2}), lambda ns: ns['imp2'](ns['src']), lambda ns: ns['imp'].select(keys_to_add={'y': 3})(ns['src']),
       lambda ns: ns['exp'](), lambda ns: ns['exp'].select(keys_to_add={'X': 1})(), lambda ns: ns['exp'](include_defaults=True), lambda ns: ns['expc'](ns['A'](x=1)), lambda ns: ns['expc'](object()),
       lambda ns: ns['js'](), lambda ns: ns['js'](indent=1), lambda ns: ns['frm'](5), lambda ns: ns['frm'](5, y=1), lambda ns: ns['A'].from_json.select(keys_to_remove='q')('{"x": 1, "q": 2}'), lambda ns: ns['A'].from_json('[]')]


def tokens():
    """the same token objects shared by fields of several classes"""
    loose, whole, within, clamp = Loose(), Whole(), Within(0, 5, warn=True), Clamp(0, 3)
    ev = Eval(factor=2)
    fm = FullMatch('a+', err=KeyError('no match'))
    X = mk('X', {'i': Annotated[int, check, loose, clamp], 'e': Annotated[int, check, ev]}, {'e': 1})
    Y = mk('Y', {'f': Annotated[float, check, loose, clamp, within], 'w': Annotated[int, check, whole], 's': Annotated[str, fm]}, {'w': 1, 's': 'a'})
    return NS(X=X, Y=Y)


def warned(f):
    def g(ns):
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter('always')
            r = f(ns)
        return r, len(w)
    return g


TOK = [warned(o) for o in [make_op('X', i='7'), make_op('X', i='x'), make_op('Y', f='2.5'), make_op('Y', f=7), make_op('X', i=1, e='3*factor'), make_op('X', i=1, e='factor = 3'),
                           make_op('X', i=1, e='(factor := 5)'), make_op('Y', f=1.0, w=2.0), make_op('Y', f=1.0, w=2.5), make_op('Y', f=1.0, s='aa'), make_op('Y', f=1.0, s='b'), make_op('X', i=True)]]


def warnmode():
    W = mk('W', {'x': Annotated[int, Within(0, 5, warn=True)], 'l': Annotated[List[Annotated[int, Within(0, 5, warn=True)]], check]}, {'l': []})
    return NS(W=W)


WAR = [warned(o) for o in [make_op('W', x=1), make_op('W', x=9), make_op('W', x=1, l=[9, 9, 1]), make_op('W', x=1, l=[True, 'a']), make_op('W', x='a'), make_op('W', 9), make_op('W', x=None, l=()),
                           make_op('W', l=[])]]


def unary():
    U = mk('U', {'x': Annotated[int, check, Loose], 'y': object}, {'y': 0}, unary_parse=True)
    V = mk('V', {'a': object, 'b': object}, {'a': 1, 'b': 2})
    N = mk('N', {'x': Annotated[int, check]})
    return NS(U=U, V=V, N=N, mp={'x': 4}, inst=N(x=3))


UNA = [lambda ns: ns['U'](1), lambda ns: ns['U']('5'), lambda ns: ns['U'](ns['mp']), lambda ns: ns['U']('{"x": 4}'), lambda ns: ns['U'](1, y=2), lambda ns: ns['U'](ns['inst']), lambda ns: ns['V']({}),
       lambda ns: ns['V']({'a': 5}), lambda ns: ns['V']('{}'), lambda ns: ns['V'](5), lambda ns: ns['N'](5), lambda ns: ns['N'](ns['inst']), lambda ns: ns['N']('5'), lambda ns: ns['N'](1, x=1), lambda ns: ns['U'](None),
       lambda ns: (ns['mp'], ns['inst'])]


def hooks():
    def post(self):
        if self.x == 'bad':
            raise OSError('no')
        if self.x == 'other':
            return (type(self), 0)
        if self.x == 'again':
            return type(self)(x='done')
        self.__dict__['seen'] = repr(self.x)
    H = mk('H', {'x': object, 'y': object}, {'y': Factory(list)}, dict(post_new=post))
    I = mk('I', {'z': object}, {'z': 1}, bases=(H,), frozen=True)
    return NS(H=H, I=I)


HOO = [make_op(c, x=v) for c in 'HI' for v in (1, 'bad', 'other', 'again', [1])] + [lambda ns: ns['H']({'x': 3}), lambda ns: ns['I'].from_json('{"x": "bad"}'), lambda ns: copy.deepcopy(ns['H'](x=[5])), lambda ns: ns['H'](x='bad', y=1)]


def recursive():
    N = mk('N', {'v': Annotated[int, check, Loose], 'kids': Annotated[List['N'], check], 'nxt': Annotated[Optional['N'], check]}, {'kids': (), 'nxt': None})
    return NS(N=N)


def tree(ns, d, v=1):
    return ns['N'](v=v, kids=[tree(ns, d - 1, v) for _ in range(2)] if d else [], nxt=None)


REC = [lambda ns: ns.keep(tree(ns, 0)), lambda ns: ns.keep(tree(ns, 2)), lambda ns: tree(ns, 1, 'x'), lambda ns: ns.keep(ns['N'](v='2', nxt=tree(ns, 1))), lambda ns: ns['N'](v=1, kids=[1]), lambda ns: ns['N'](v=1, nxt=5),
       lambda ns: tree(ns, 2) == tree(ns, 2), lambda ns: copy.deepcopy(tree(ns, 2)), lambda ns: tree(ns, 1).to_dict(), lambda ns: ns['N'].from_json('{"v": 1, "kids": []}'), lambda ns: ns['N'].parse({'v': 1, 'kids': [None]})]


def errors():
    class OneArg(Exception):
        def __init__(self, a, b):
            super().__init__(a, b)

    def v1(x):
        if x < 0:
            raise OneArg(1, 2)
        if x == 0:
            raise ZeroDivisionError('z')
        return x * 2

    def c1(x):
        if x == 'k':
            raise KeyError('k')
        return float(x)
    E = mk('E', {'x': Annotated[float, check, CallCoercion(c1), CallValidation(v1)], 'y': Annotated[object, AssertCallValidation(lambda v: v != 3, err=IndexError('three'))]}, {'y': 0})
    return NS(E=E)


ERR = [make_op('E', x=v) for v in (1.0, -1.0, 0.0, '2', 'k', '-1', None, 'x')] + [make_op('E', x=1.0, y=3), make_op('E', x=1.0, y=4), make_op('E', x=-1.0, y=3), make_op('E'), make_op('E', x=1.0, zz=1)]


def extrasmod():
    J = mk('J', {'x': object, 'd': object}, {'d': 1}, frozen=True)
    globals()['J'] = J
    J.__module__ = __name__
    return NS(J=J, j=J(x=[1, 'é']))


class Fake:
    @staticmethod
    def loads(v, **k):
        return {'x': 'faked'}

    @staticmethod
    def dumps(v, *a, **k):
        return 'faked'


def swapped(name, f):
    def op(ns):
        old = getattr(extras, name)
        setattr(extras, name, Fake)
        try:
            return f(ns)
        finally:
            setattr(extras, name, old)
    return op


def fail_json(ns):
    ns['j'].to_json(default=1, cls=int)


EXT = [lambda ns: ns['j'].to_json(), lambda ns: ns['J'].from_json('{"x": 2}'), lambda ns: ns['J'].from_pickle(ns['j'].to_pickle()), swapped('json', lambda ns: ns['j'].to_json()),
       swapped('json', lambda ns: ns['J'].from_json('?')), swapped('pickle', lambda ns: ns['J'].from_pickle(b'?')), lambda ns: ns['J'].from_json('?'), lambda ns: ns['J'](x=object()).to_json(), fail_json,
       lambda ns: ns['J']('{"x": 3}'), lambda ns: ns['j'].to_json.export_with(include_defaults=True)(indent=2)]


class Box:
    def __init__(self, *a, **k):
        self.a = a + tuple(k.items())

    def __repr__(self):
        return f'{type(self).__qualname__}{type(self).mark}{self.a}'

    @classmethod
    def make(cls, v):
        return cls('made', v)


def twins():
    """two classes whose field types are different but have the same name, sharing every token object"""
    def t(mark):
        return type('T', (Box,), {'mark': mark}), type('T', (int,), {'mark': mark, '__repr__': lambda self: f'T{mark}({int(self)})'})
    toks = dict(l=Loose(), p=LooseUnpack(5), m=LooseUnpackMap(z=1), f=Falsish(), e=Eval(..., Box, k=7), e0=Eval(..., n=2), c=ClassMethodCoercion('make'), o=ComposeCoercer(Loose(), CallCoercion(lambda v: [v])), g=CallCoercion(lambda v: 1 / 0),
                mp=MapCoercion({'one': 1, 'two': '2'}), w=Loose.constrain(str)())
    ns = NS()

    def declare(n):
        T, I = t(n)
        ns[n] = mk(n, {k: Annotated[(T, check, v)] for k, v in toks.items()} | {'i': Annotated[I, check, Whole()], 'ie': Annotated[I, check, toks['e0']], 'tb': Annotated[List[Annotated[T, check, toks['e']]], check]},
                   {k: None for k in (*toks, 'i', 'ie', 'tb')})
    ns['declare'] = declare
    declare('A')
    return ns


def twin_op(c, /, **k):
    """the second class is declared when it is first used"""
    op = make_op(c, **k)

    def f(ns):
        if c not in ns:
            ns['declare'](c)
        return op(ns)
    return f


TWI = [twin_op(c, **{k: v}) for c in 'AB' for k, v in dict(l=1, p=(1, 2), m={'a': 1}, f='', e='T(k)', e0='T(n)', c=3, o=4, g=5, mp='one', w='s', i=2.0, ie='T(n)', tb=['T(1)', 'Box(2)', 'k']).items()]


class Moody(type):
    """whether something is an instance is up to the something"""

    def __instancecheck__(cls, v):
        return getattr(v, 'mood', False)

    def __subclasscheck__(cls, c):
        return getattr(c, 'mood', False)


class Mood(metaclass=Moody):
    pass


class Moodful:
    def __init__(self, mood):
        self.mood = mood

    def __repr__(self):
        return f'Moodful({self.mood})'


def named(bases, ns=None):
    return type('T', bases, {'__repr__': lambda self: f'T{[b.__name__ for b in bases]}', **(ns or {})})


def namesakes():
    """values whose classes have the same name but not the same ancestry, and values that decide for themselves"""
    N = mk('N', {'i': Annotated[int, check], 's': Annotated[int, check_strict, CallCoercion(lambda v: len(v))], 't': Annotated[Type[int], check], 'u': Annotated[Union[int, str, List[int]], check],
                 'm': Annotated[Mood, check], 'l': Annotated[List[Annotated[Mood, check]], check], 'k': Annotated[Literal[1, 'a'], check], 'tm': Annotated[Type[Mood], check]},
           dict.fromkeys(('i', 's', 't', 'u', 'm', 'l', 'k', 'tm')))
    return NS(N=N, moody=Moodful(True), lst=[])


def with_mood(ns, mood):
    """the same object in another mood"""
    ns['moody'].mood = mood
    return ns['N'](m=ns['moody'])


def with_list(ns, *v):
    """the same list with other contents"""
    ns['lst'][:] = v
    return ns['N'](l=ns['lst'])


NAM = [lambda ns, b=b, f=f, inst=inst: ns['N'](**{f: named((b,))(*inst) if f != 't' else named((b,))}) for f, inst in (('i', (1,)), ('u', ('1',)), ('s', (1,)), ('t', ())) for b in (int, str, object) if not (b is object and inst)] + \
      [lambda ns: ns['N'](i=named((object,))()), lambda ns: with_mood(ns, True), lambda ns: with_mood(ns, False), lambda ns: ns['N'](m=Moodful(True)), lambda ns: ns['N'](m=Moodful(False)), lambda ns: with_list(ns, Moodful(True)),
       lambda ns: with_list(ns, Moodful(True), Moodful(False)), lambda ns: ns['N'](k=named((int,))(1)), lambda ns: ns['N'](k=named((str,))('a')), lambda ns: ns['N'](tm=type('M', (), {'mood': True})), lambda ns: ns['N'](tm=type('M', (), {'mood': False}))]

RARE = (RecursionError, MemoryError, StopIteration, AttributeError, OSError, SystemError, NotImplementedError, KeyboardInterrupt, GeneratorExit, SystemExit)


def rare_errors():
    """callbacks of every kind that now and then fail in an unusual way"""
    def moody(good):
        def f(v=None):
            if isinstance(v, type) and issubclass(v, BaseException):
                raise v('rare')
            return good(v)
        return f
    state = []

    def fac():
        if state:
            raise state[-1]('rare')
        return ['made']

    def post(self):
        if isinstance(self.p, type):
            raise self.p('rare')
    R = mk('R', {'c': Annotated[int, check, CallCoercion(moody(int)), CallCoercion(moody(lambda v: len(v)))], 'v': Annotated[object, CallValidation(moody(lambda v: (v,)))], 'a': Annotated[object, AssertCallValidation(moody(lambda v: v != 0))],
                 'f': object, 'p': object, 'u': Annotated[Union[Annotated[int, check, CallCoercion(moody(int))], Annotated[str, check, CallCoercion(moody(str))]], check], 'l': Annotated[List[Annotated[int, check, CallCoercion(moody(int))]], check]},
           {'c': 0, 'v': 0, 'a': 1, 'f': Factory(fac), 'p': 0, 'u': 0, 'l': ()},
           dict(post_new=post, q=parser(staticmethod(moody(lambda v: ('parsed', v) if isinstance(v, float) else 1 / 0)))))
    return NS(R=R, state=state)


def caught(f):
    """the exceptions that are no Exceptions as well"""
    def g(ns):
        try:
            return f(ns)
        except BaseException as e:
            if isinstance(e, Exception):
                raise
            return 'passed through', type(e).__name__, str(e)
    return g


def failing_factory(ns, e):
    ns['state'].append(e)
    try:
        return ns['R']()
    finally:
        ns['state'].pop()


def rare_ops(errors):
    ops = []
    for e in errors:
        ops += [lambda ns, e=e, f=f: ns['R'](**{f: [e] if f == 'l' else e}) for f in 'cvapul'] + [lambda ns, e=e: ns['R'].parse(e), lambda ns, e=e: failing_factory(ns, e), lambda ns, e=e: ns['R'](e)]
    return [caught(o) for o in ops]


RAR = [lambda ns: ns['R'](c='7', v=1, u='x', l=['1', 2]), lambda ns: ns['R'].parse(2.5), lambda ns: ns['R']({'c': 'abc'}), lambda ns: ns['R'](a=0), lambda ns: ns['R']()]


def floods():
    """many values between one use and the next"""
    seen = []
    W = mk('W', {'x': Annotated[int, check, CallCoercion(int), Within(-10 ** 9, 10 ** 9), Within(0, 10, warn=True)], 'l': Annotated[Literal[1, 'a', 2], check], 'u': Annotated[Union[int, Annotated[str, check], float], check],
                 'd': Annotated[Dict[str, Annotated[int, check, Loose]], check]}, {'l': 1, 'u': 1, 'd': {}}, dict(p=parser(staticmethod(lambda v: ('p', v) if isinstance(v, complex) else 1 / 0))))
    return NS(W=W, seen=seen)


def flood(n, f):
    def op(ns):
        out = Counter()
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter('always')
            for i in range(n):
                r = attempt(f, ns, i)
                out[r[0]] += 1
        return out, len(w)
    return op


FLO = [warned(o) for o in [make_op('W', x=1), make_op('W', x='20'), make_op('W', x=True), make_op('W', x='a'), make_op('W', x=1, l=True), make_op('W', x=1, u=1.0), make_op('W', x=1, d={'a': '5'}), lambda ns: ns['W'].parse(1j), lambda ns: ns['W'].parse('{"x": 3}')]] + \
      [flood(300, lambda ns, i: ns['W'](x=i)), flood(300, lambda ns, i: ns['W'](x=str(i))), flood(150, lambda ns, i: ns['W'](x='q' * i)), flood(150, lambda ns, i: ns['W'](x=1, l=float(i))), flood(150, lambda ns, i: ns['W'](x=1, u=str(i))),
       flood(150, lambda ns, i: ns['W'](x=1, d={str(i): str(i)})), flood(60, lambda ns, i: ns['W'].parse(complex(i))), flood(60, lambda ns, i: ns['W'].parse(object()))]


class Has:
    def __init__(self, **k):
        self.__dict__.update(k)

    def __repr__(self):
        return f'Has{sorted(vars(self))}'


class Prop:
    '''whether it has an attribute changes'''

    def __init__(self):
        self.n = 0
        self.has = {}

    def __getattr__(self, a):
        try:
            return self.__dict__['has'][a]
        except KeyError:
            raise AttributeError(a)

    def __repr__(self):
        return 'Prop'


class SlotHas:
    __slots__ = 'x', 'y', 'z'

    def __init__(self, *v):
        for k, w in zip(self.__slots__, v):
            setattr(self, k, w)

    def __repr__(self):
        return 'SlotHas'


def sources():
    '''objects to take attributes from, of one type but with different attributes'''
    K = mk('K', {'x': Annotated[object, Tag(1)], 'y': object, 'z': object}, {'y': 0, 'z': Factory(list)})
    U = mk('U', {'x': object, 'y': object}, {'x': None, 'y': 1}, unary_parse=True)
    D = mk('D', {'w': object}, {'w': 5}, bases=(K,), frozen=True)
    return NS(K=K, U=U, D=D, prop=Prop())


def from_prop(ns, k, /, **has):
    ns['prop'].has = has
    return ns.keep(ns[k].from_instance(ns['prop']))


SRC = [lambda ns, k=k, a=a: ns.keep(ns[k].from_instance(Has(**a))) for k in 'KUD' for a in ({'x': 1}, {'x': 1, 'y': 2}, {'x': 1, 'z': 3, 'w': 4}, {'y': 2})] + \
      [lambda ns, a=a: from_prop(ns, 'K', **a) for a in ({'x': 1}, {'x': 1, 'y': 2}, {})] + [lambda ns, v=v: ns.keep(ns['K'].from_instance(SlotHas(*v))) for v in ((1,), (1, 2), (1, 2, 3))] + \
      [lambda ns: ns['U'](Has(x=3)), lambda ns: ns['U'](Has(y=3)), lambda ns: ns['K'].parse(Has(x=1, z=2)), lambda ns: ns['K'].from_instance(Has(x=1), {'y': 7}), lambda ns: ns['K'].from_instance(Has(x=1, y=5, z=6), y=8),
       lambda ns: ns['D'].from_instance(ns['K'](x=1, y=2)), lambda ns: ns['K'].from_instance(ns['D'](x=1, w=2)), lambda ns: ns['K'].from_mapping({'x': 1}), lambda ns: ns['K'].from_mapping({'x': 1, 'y': 1}, z=4)]


FAMILIES = dict(sources=(sources, SRC), literals=(literals, LIT), bools=(bools, BOOL), unions=(unions, UNI), containers=(containers, CON), family=(family, FAM), frozen=(frozen, FRO), defaults=(defaults, DEF), handles=(handles, HAN),
                tokens=(tokens, TOK), warnmode=(warnmode, WAR), unary=(unary, UNA), hooks=(hooks, HOO), recursive=(recursive, REC), twins=(twins, TWI), errors=(errors, ERR), extras=(extrasmod, EXT), namesakes=(namesakes, NAM), floods=(floods, FLO),
                **{f'rare {e.__name__}': (rare_errors, RAR + rare_ops([e])) for e in RARE})
CACHE = {}


def alone(name):
    """the outcome of each operation on a fresh declaration"""
    if name not in CACHE:
        make, ops = FAMILIES[name]
        CACHE[name] = [observe(op, make()) for op in ops]
    return CACHE[name]


def pair_specs():
    'types of fields for which every ordered pair of values is used'
    from mc.props import c08
    every = c08.ALTS + c08.EXTRA
    for a, b in itertools.permutations(every, 2):
        yield ('u', a, b)
    for a in every:
        yield a
        yield ('seq', 'List', a)
        yield ('vtup', a)
        yield ('map', 'Dict', a, a)


def run_pairs(case, ctx):
    'a value after another one, on the same class, is treated as it is on a class of its own'
    from mc.props import c08
    spec, context = case[1], case[2]
    env = Env(c08.TABLE)
    fresh = lambda: declare(ctx, spec, 'check', env, context=context)
    wrap = {'seq': lambda m: [m()], 'vtup': lambda m: (m(),), 'map': lambda m: {m(): m()}}.get(spec[0], lambda m: m())
    vals = [(lambda m=m: wrap(m)) for l, m in c08.VALUES if spec[0] != 'map' or attempt(lambda: wrap(m))[0] == 'ok']
    d = fresh()
    if d is None:
        return
    use = lambda c, m: c(x=m())
    ref = [observe(lambda ns: use(fresh()[0], m), None) for m in vals]
    for i, a in enumerate(vals):
        c = fresh()[0]
        for j, b in enumerate(vals):
            got = observe(lambda ns: use(c, b), None), observe(lambda ns: use(c, a), None)
            ctx.op(2)
            ctx.state(spec, context, i, j)
            if got != (ref[j], ref[i]):
                ctx.fail('history', f'{spec}: value {j} and then {i} after values {i} and {j - 1}: {got}, on classes of their own: {ref[j], ref[i]}')
        ctx.trace()


def cases(tier):
    yield from wide.cases('C10', tier)
    for spec in pair_specs():
        yield 'pair', spec, 'plain', 0
    for name, (_, ops) in FAMILIES.items():
        for i in range(len(ops)):
            for j in range(len(ops)):
                yield name, i, j, 2 if tier == 'thorough' else 1


def run(case, ctx):
    if case[0] == '__wide__':
        return wide.run('C10', ctx, case[1])
    name, i, j, more = case
    if name == 'pair':
        return run_pairs(case, ctx)
    make, ops = FAMILIES[name]
    ref = alone(name)
    if j == 0 and i == 0:
        # the observations themselves are reproducible
        for k, op in enumerate(ops):
            ctx.expect(observe(op, make()) == ref[k], 'not-reproducible', f'{name} op {k} differs between two fresh declarations')
    for rest in itertools.product(range(len(ops)), repeat=more):
        seq = (i, j) + rest
        ns = make()
        for pos, k in enumerate(seq):
            got = observe(ops[k], ns)
            ctx.op()
            if got != ref[k]:
                ctx.fail('history', f'{name}: operation {k} after {seq[:pos]} gave\n{got}\non a fresh declaration:\n{ref[k]}')
            for inst, snap in ns.kept:
                if canon(inst) != snap:
                    ctx.fail('existing-instance', f'{name}: an existing instance changed by operation {k} of {seq}: {canon(inst)}, was {snap}')
        ctx.trace()
        ctx.state(name, seq)
        ctx.outcome((name, got[0]))

"""Value alphabets. Every entry is (label, maker): makers build fresh objects so that nothing is shared between runs."""
import inspect
import itertools
from collections import Counter, OrderedDict, defaultdict, deque, ChainMap

from mc import lib


def _f(x):
    return x


class Proxy:
    """stands for another object: isinstance() sees the class of that"""

    def __init__(self, cls):
        self.__dict__['_cls'] = cls

    __class__ = property(lambda self: self.__dict__['_cls'])


class AttrCall:
    """not callable: only the class counts"""

    def __init__(self):
        self.__call__ = len


class EqAll:
    def __eq__(self, o):
        return True

    def __ne__(self, o):
        return False

    def __hash__(self):
        return hash(1)


class NoHash(EqAll):
    __hash__ = None


class Rude:
    """does not like to be compared, hashed, measured or tested"""

    def refuse(self, *_):
        raise LookupError('do not ask')

    __eq__ = __ne__ = __lt__ = __hash__ = __bool__ = __len__ = __iter__ = __contains__ = refuse


class Dyn:
    """has every attribute"""

    def __getattr__(self, n):
        if n.startswith('__') and n.endswith('__'):
            raise AttributeError(n)
        return lambda *a, **k: self


class Sub(float):
    __class__ = property(lambda self: float)


def namesake(cls, base=None):
    """a class of the same name, qualified name and module as another one"""
    return type(cls.__name__, (base or cls,), {'__module__': cls.__module__, '__qualname__': cls.__qualname__, '__doc__': cls.__doc__})


NAMESAKES = {n: namesake(c, b) for n, c, b in (('int', int, None), ('str', str, None), ('float', float, None), ('list', list, None), ('A0', lib.A0, None), ('a0', lib.A0, object), ('i0', int, object),
                                               ('dict', dict, None), ('tuple', tuple, None))}


class EqMeta(type):
    def __eq__(cls, o):
        return True

    def __hash__(cls):
        return hash(int)


class EqClass(metaclass=EqMeta):
    pass


ATOMS = {
    '0': lambda: 0, '1': lambda: 1, '2': lambda: 2, '-1': lambda: -1, 'True': lambda: True, 'False': lambda: False,
    'big': lambda: 10 ** 30, '0.0': lambda: 0.0, '1.0': lambda: float('1.0'), '1.5': lambda: 1.5, 'nan': lambda: float('nan'),
    '1j': lambda: 1j, 'MyInt1': lambda: lib.MyInt(1), "''": lambda: '', "'a'": lambda: 'a', "'b'": lambda: 'b',
    "'ab'": lambda: 'ab' + '', "'1'": lambda: '1', "'x'": lambda: 'x', 'MyStr': lambda: lib.MyStr('a'), "b''": lambda: b'', "b'a'": lambda: b'a',
    'None': lambda: None, '...': lambda: ..., 'NotImplemented': lambda: NotImplemented,
    'A0()': lib.A0, 'B0()': lib.B0, 'C0()': lib.C0, 'object()': object,
    'A0': lambda: lib.A0, 'B0': lambda: lib.B0, 'C0': lambda: lib.C0, 'int': lambda: int, 'bool': lambda: bool,
    'type': lambda: type, 'WithMeta': lambda: lib.WithMeta, 'Meta': lambda: lib.Meta,
    'len': lambda: len, 'lambda': lambda: (lambda: 0), '[]': list, '()': tuple, '{}': dict, 'set()': set,
    'frozenset()': frozenset, 'deque()': deque, 'MyList': lib.MyList, 'MyDict': lib.MyDict, 'MyTuple': lib.MyTuple,
    'range': lambda: range(3), 'iter': lambda: iter([1]), 'bytearray': lambda: bytearray(b'a'),
    'defaultdict': lambda: defaultdict(list), 'OrderedDict': OrderedDict, 'Counter': Counter,
    '[1]': lambda: [1], "['a']": lambda: ['a'], '(1,)': lambda: (1,), '{1:2}': lambda: {1: 2}, '{1}': lambda: {1},
    'proxy int': lambda: Proxy(int), 'proxy A0': lambda: Proxy(lib.A0), 'proxy str': lambda: Proxy(str), 'proxy none': lambda: Proxy(type(None)), 'proxy type': lambda: Proxy(type),
    'inst.__call__': AttrCall, 'eqall': EqAll, 'eqall nohash': NoHash, 'rude': Rude, 'dyn': Dyn, 'Reg0()': lib.Reg0, 'Reg0': lambda: lib.Reg0, 'Dec1': lambda: lib.Dec('1'),
    'eqmeta': EqClass, 'eqmetaT': lambda: EqClass, 'list[int]': lambda: list[int], 'AnyT': lambda: lib.typing.Any, 'fraction': lambda: lib.Fraction(3, 1),
    'namesake int': lambda: NAMESAKES['int'](1), 'namesake str': lambda: NAMESAKES['str']('a'), 'namesake float': lambda: NAMESAKES['float'](1.5), 'namesake list': lambda: NAMESAKES['list']([1]),
    'namesake dict': lambda: NAMESAKES['dict'](), 'namesake tuple': lambda: NAMESAKES['tuple'](),
    'namesake A0': lambda: NAMESAKES['A0'](), 'stranger A0': lambda: NAMESAKES['a0'](), 'stranger int': lambda: NAMESAKES['i0'](), 'namesake A0T': lambda: NAMESAKES['A0'], 'stranger A0T': lambda: NAMESAKES['a0'],
    "NT": lambda: lib.NT(1, 'a'), 'exc': lambda: ValueError('x'), 'excT': lambda: ValueError,
}
ALL = list(ATOMS.items())
# objects that a program might take for a sign
SIGNS = {'...': ..., 'NotImplemented': NotImplemented, 'None': None, 'False': False, 'True': True, '0': 0, "''": '', '()': (), 'type': type, 'object': object, 'NoneT': type(None),
         'StopIteration': StopIteration, 'exc': StopIteration('x'), 'gen': (i for i in ()), 'missing': inspect.Parameter.empty, 'attr error': AttributeError('x'), '-1': -1, 'nan': float('nan'), 'len': len,
         'map proxy': lib.types.MappingProxyType({})}


def atoms(*names):
    return [(n, ATOMS[n]) for n in names]


def _build(con, elems):
    return con([m() for _, m in elems])


SEQ_CONS = {
    'list': list, 'tuple': tuple, 'MyList': lib.MyList, 'MyTuple': lib.MyTuple, 'set': set, 'frozenset': frozenset, 'MySet': lib.MySet,
    'deque': deque, 'deque2': lambda x: deque(x, 7), 'dequelen': lambda x: deque(x, len(x)),
}
HASHED = ('set', 'frozenset', 'MySet')


def hashable(f):
    try:
        hash(f())
        return True
    except TypeError:
        return False


def seqs(elems, cons, lo, hi):
    """every sequence of lo..hi of the given elements, in each of the given containers"""
    for n in range(lo, hi + 1):
        for combo in itertools.product(elems, repeat=n):
            for c in cons:
                if c in HASHED and not all(hashable(m) for _, m in combo):
                    continue
                yield f'{c}[{",".join(l for l, _ in combo)}]', (lambda combo=combo, c=c: _build(SEQ_CONS[c], combo))


MAP_CONS = {
    'dict': dict, 'MyDict': lib.MyDict, 'OrderedDict': OrderedDict, 'defaultdict': lambda x: defaultdict(list, x),
    'defaultdict0': lambda x: defaultdict(None, x), 'Counter': lambda x: Counter(dict(x)), 'ChainMap': lambda x: ChainMap(dict(x)),
}


def maps(keys, vals, cons, lo, hi):
    for n in range(lo, hi + 1):
        for ks in itertools.permutations(keys, n):
            for vs in itertools.product(vals, repeat=n):
                for c in cons:
                    yield f'{c}{{{",".join(a + ":" + b for (a, _), (b, _) in zip(ks, vs))}}}', \
                        (lambda ks=ks, vs=vs, c=c: MAP_CONS[c]([(a(), b()) for (_, a), (_, b) in zip(ks, vs)]))

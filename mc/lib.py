"""Shared helpers: building record classes programmatically, fresh value alphabets, and equality with look-alikes told apart."""
import abc
import types
import typing
from decimal import Decimal as Dec
from fractions import Fraction
from collections import ChainMap, Counter, OrderedDict, defaultdict, deque, namedtuple

from records import *  # noqa
from records import RecordBase, Annotated, check, check_strict, hollow, Factory, Tag
from mc.engine import attempt, show, Violation  # noqa

STYLES = {'hollow': hollow, 'check': check, 'strict': check_strict}
NODEF = object()


def fresh():
    """empty the caches of typing, in which types that only differ in the order of a union's alternatives, or between 1 and True in a
    literal, are the same"""
    for clear in getattr(typing, '_cleanups', ()):
        clear()


def mk(name, ann, defaults=None, body=None, bases=(RecordBase,), module='mc_generated', **kwds):
    """declare a record class: ann = ordered mapping or pairs name -> annotation"""
    ann = dict(ann)

    def fill(ns):
        ns['__module__'] = module
        if ann:
            ns['__annotations__'] = dict(ann)
        ns.update(defaults or {})
        ns.update(body or {})

    cls = types.new_class(name, tuple(bases), kwds, fill)
    fresh()
    return cls


def ann(t, toks=()):
    """t annotated with the tokens, if any"""
    fresh()
    return Annotated[(t,) + tuple(toks)] if toks else t


def same(a, b, depth=0):
    """equal, and of the same types all the way down (tells 1, True and 1.0 apart; nan equals nan)"""
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    if isinstance(a, (list, tuple, deque)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b)) \
            and getattr(a, 'maxlen', None) == getattr(b, 'maxlen', None)
    if isinstance(a, (dict, ChainMap)):
        return len(a) == len(b) and all(same(x, y) and same(a[x], b[y]) for x, y in zip(a, b)) \
            and getattr(a, 'default_factory', None) is getattr(b, 'default_factory', None)
    if isinstance(a, (set, frozenset)):
        return len(a) == len(b) and all(any(same(x, y) for y in b) for x in a)
    if isinstance(a, (float, complex)):
        return repr(a) == repr(b)
    return a == b


def fieldvals(inst):
    """current values of the fields, in declaration order, through plain attribute access"""
    return [(k, getattr(inst, k)) for k in type(inst)._fields]


class MyInt(int):
    pass


class MyStr(str):
    pass


class MyList(list):
    pass


class MyDict(dict):
    pass


class MyTuple(tuple):
    pass


class MySet(set):
    pass


NT = namedtuple('NT', 'p q')


class A0:
    pass


class B0(A0):
    pass


class C0(B0):
    pass


class Meta(type):
    pass


class WithMeta(metaclass=Meta):
    pass


class Reg(abc.ABC):
    """abstract; its only subclasses are registered"""

    @abc.abstractmethod
    def f(self):
        pass


@Reg.register
class Reg0:
    pass


class InstMeta(type):
    def __instancecheck__(cls, v):
        return isinstance(v, (int, str)) and bool(v) or type(v) is cls

    def __subclasscheck__(cls, c):
        return c in (int, str) or type.__subclasscheck__(cls, c)


class Inst(metaclass=InstMeta):
    """decides itself which values are its instances"""


def outcome(r):
    return f'{r[0]}:{type(r[1]).__name__}'

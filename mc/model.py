"""Reference model of field processing: a boring recursive interpreter of type specifications.

A specification is a plain tuple (so that it can be printed and replayed):
  ('c', cls)  ('any',)  ('none',)  ('ell',)  ('callable',)  ('newtype', S)  ('lit', v...)  ('type', cls)
  ('u', S...)  ('opt', S)  ('tup', S...)  ('vtup', S)  ('seq', name, S)  ('map', name, K, V)  ('gen', name, S)
  ('ann', S, token...)     token: 'check' | 'strict' | 'hollow' | ('C', name) | ('V', name) | ('A', name)
Classes are given by name (CLS table).
"""
import collections.abc as cabc
import typing
from collections import Counter, OrderedDict, defaultdict, deque, ChainMap
from inspect import isabstract
from numbers import Number, Integral

from mc.lib import *  # noqa
from mc import lib

CLS = dict(int=int, str=str, bool=bool, float=float, list=list, dict=dict, tuple=tuple, set=set, bytes=bytes,
           object=object, type=type, MyInt=lib.MyInt, MyStr=lib.MyStr, A0=lib.A0, B0=lib.B0, C0=lib.C0, complex=complex,
           Number=Number, Integral=Integral, Hashable=cabc.Hashable, Sized=cabc.Sized, Sequence=cabc.Sequence,
           Mapping=cabc.Mapping, Iterable=cabc.Iterable, frozenset=frozenset, NT=lib.NT, Meta=lib.Meta, deque=deque,
           defaultdict=defaultdict, Reg=lib.Reg, Reg0=lib.Reg0, Inst=lib.Inst)
SEQ = dict(List=(typing.List, list), list=(list, list), Set=(typing.Set, set), set=(set, set),
           FrozenSet=(typing.FrozenSet, frozenset), frozenset=(frozenset, frozenset), Deque=(typing.Deque, deque),
           Sequence=(typing.Sequence, cabc.Sequence), MutableSequence=(typing.MutableSequence, cabc.MutableSequence),
           AbstractSet=(typing.AbstractSet, cabc.Set), MutableSet=(typing.MutableSet, cabc.MutableSet))
MAP = dict(Dict=(typing.Dict, dict), dict=(dict, dict), DefaultDict=(typing.DefaultDict, defaultdict),
           Mapping=(typing.Mapping, cabc.Mapping), MutableMapping=(typing.MutableMapping, cabc.MutableMapping))
GEN = dict(Iterable=(typing.Iterable, cabc.Iterable), Collection=(typing.Collection, cabc.Collection),
           Container=(typing.Container, cabc.Container), Reversible=(typing.Reversible, cabc.Reversible),
           Iterator=(typing.Iterator, cabc.Iterator))
BARE = dict(List=(typing.List, list), Dict=(typing.Dict, dict), Tuple=(typing.Tuple, tuple), Type=(typing.Type, type),
            Sequence=(typing.Sequence, cabc.Sequence), Iterable=(typing.Iterable, cabc.Iterable), Set=(typing.Set, set),
            Mapping=(typing.Mapping, cabc.Mapping), Deque=(typing.Deque, deque))


class Reject(Exception):
    """the model rejects the value; exc is the exception type the implementation has to raise, or None if unspecified"""

    def __init__(self, exc=None, cause=None):
        super().__init__(exc)
        self.exc, self.cause = exc, cause


class DeclError(Exception):
    def __init__(self, exc):
        super().__init__(exc)
        self.exc = exc


class Env:
    """the coercion and validation callbacks of one case: pure, memoised by input identity, and logged.
    Both the implementation and the model call the very same functions, so results can be compared by identity."""

    def __init__(self, table):
        self.table, self.memo, self.log, self.keep = table, {}, [], []

    def call(self, name, v):
        self.log.append((name, id(v)))
        self.keep.append(v)
        key = name, id(v)
        if key not in self.memo:
            try:
                self.memo[key] = True, self.table[name](v)
            except Exception as e:
                self.memo[key] = False, e
        ok, r = self.memo[key]
        if ok:
            return r
        raise r

    def take(self):
        log, self.log = self.log, []
        return log

    def token(self, t):
        if isinstance(t, str):
            return STYLES[t]
        kind, name = t
        f = lambda v: self.call(name, v)
        if kind == 'C':
            return CallCoercion(f)
        if kind == 'V':
            return CallValidation(f)
        if kind == 'A':
            return AssertCallValidation(f)
        raise AssertionError(t)


def annotation(s, env):
    """the real type hint a specification stands for"""
    k = s[0]
    if k == 'c':
        return CLS[s[1]]
    if k == 'bare':
        return BARE[s[1]][0]
    if k == 'any':
        return typing.Any
    if k == 'none':
        return None
    if k == 'ell':
        return type(...)
    if k == 'callable':
        return typing.Callable
    if k == 'callable2':
        return typing.Callable[[int], str]
    if k == 'newtype':
        return typing.NewType('N', annotation(s[1], env))
    if k == 'lit':
        return typing.Literal[tuple(s[1:])]
    if k == 'type':
        return typing.Type[CLS[s[1]]]
    if k == 'anytype':
        return typing.Type[typing.Any]
    if k == 'u':
        return typing.Union[tuple(annotation(x, env) for x in s[1:])]
    if k == 'opt':
        return typing.Optional[annotation(s[1], env)]
    if k == 'tup':
        return typing.Tuple[tuple(annotation(x, env) for x in s[1:]) or ()]
    if k == 'vtup':
        return typing.Tuple[annotation(s[1], env), ...]
    if k == 'seq':
        return SEQ[s[1]][0][annotation(s[2], env)]
    if k == 'map':
        return MAP[s[1]][0][annotation(s[2], env), annotation(s[3], env)]
    if k == 'gen':
        return GEN[s[1]][0][annotation(s[2], env)]
    if k == 'tv':
        return typing.TypeVar('T')
    if k == 'ann':
        return Annotated[(annotation(s[1], env),) + tuple(env.token(t) for t in s[2:])]
    raise AssertionError(s)


class Node:
    pass


def compile(s, default, env, outer=()):
    """resolve a specification for a class whose default style is `default`; raises DeclError"""
    own = []
    while s[0] == 'ann':
        own = list(s[2:]) + own
        s = s[1]
    toks = list(outer) + own
    if s[0] == 'newtype':
        return compile(('ann', s[1]) + tuple(own) if own else s[1], default, env, outer)
    if s[0] == 'opt':
        s = ('u', s[1], ('none',))
    if s[0] == 'u':
        alts = []
        for a in flat_union(s):
            # typing drops alternatives that are equal; callbacks are different objects, so they never are
            if a not in alts or has_callback(a):
                alts.append(a)
        if len(alts) == 1:  # typing collapses it
            return compile(('ann', alts[0]) + tuple(own) if own else alts[0], default, env, outer)
        n = Node()
        n.kind, n.alts = 'u', [compile(a, default, env, toks) for a in alts]
        n.hollow = all(a.hollow for a in n.alts)
        n.tokens = toks
        return n
    n = Node()
    n.kind, n.spec = s[0], s
    style = default
    n.coercers, n.validators = [], []
    if s[0] == 'tv':
        if own or outer:
            raise DeclError(TypeError)
        if default != 'hollow':
            raise DeclError(TypeError)
        n.style, n.hollow = 'hollow', True
        return n
    for t in toks:
        if isinstance(t, str):
            style = t
        elif t[0] == 'C':
            n.coercers.append(t[1])
        else:
            n.validators.append((t[0], t[1]))
    n.style, n.hollow = style, style == 'hollow'
    if n.hollow and n.coercers:
        raise DeclError(ValueError)
    n.cls = None
    if s[0] == 'c':
        n.cls = CLS[s[1]]
    elif s[0] == 'bare':
        n.cls = BARE[s[1]][1]
    elif s[0] == 'any':
        n.cls = object
    elif s[0] in ('type', 'anytype'):
        n.cls = type
    elif s[0] in ('tup', 'vtup'):
        n.cls = tuple
    elif s[0] == 'seq':
        n.cls = SEQ[s[1]][1]
    elif s[0] == 'map':
        n.cls = MAP[s[1]][1]
    elif s[0] == 'gen':
        n.cls = GEN[s[1]][1]
    if style == 'strict' and n.cls is not None and isabstract(n.cls):
        raise DeclError(TypeError)
    n.subs = []
    if s[0] == 'tup':
        n.subs = [compile(x, default, env) for x in s[1:]]
    elif s[0] in ('vtup',):
        n.subs = [compile(s[1], default, env)]
    elif s[0] == 'seq':
        n.subs = [compile(s[2], default, env)]
    elif s[0] == 'map':
        n.subs = [compile(s[2], default, env), compile(s[3], default, env)]
    elif s[0] == 'gen':
        n.subs = [compile(s[2], default, env)]
        if not n.subs[0].hollow:
            raise DeclError(TypeError)
    if n.hollow and any(not x.hollow for x in n.subs):
        raise DeclError(TypeError)
    return n


def has_callback(s):
    return isinstance(s, tuple) and (s[:1] in (('C',), ('V',), ('A',)) or any(has_callback(x) for x in s))


def flat_union(s):
    for a in s[1:]:
        if a[0] == 'u':
            yield from flat_union(a)
        elif a[0] == 'opt':
            yield from flat_union(('u', a[1]))
            yield ('none',)
        else:
            yield a


def match(n, v):
    """0: exact, 1: subclass, None: does not conform"""
    k = n.spec[0]
    if k == 'none':
        return 0 if v is None else None
    if k == 'ell':
        return 0 if v is ... else None
    if k in ('callable', 'callable2'):
        return 0 if callable(v) else None
    if k == 'lit':
        ts = [type(x) for x in n.spec[1:]]
        if any(type(v) is t for t in ts):
            return 0
        return 1 if isinstance(v, tuple(ts)) else None
    if type(v) is n.cls:
        return 0
    return 1 if isinstance(v, n.cls) else None


class Model:
    def __init__(self, env):
        self.env, self.fresh = env, {}

    def new(self, obj):
        self.fresh[id(obj)] = obj
        return obj

    def fill(self, n, v):
        """-> (value, kind) or Reject"""
        if n.kind == 'u':
            return self.fill_union(n, v)
        if n.hollow:
            kind = 3
        else:
            m = match(n, v)
            ok = lambda m: m == 0 or (m == 1 and n.style == 'check')
            if ok(m):
                kind = m
            else:
                if not n.coercers:
                    # (a literal of such a value may be refused as a type or as a value)
                    raise Reject(TypeError if n.kind != 'lit' or type(type(v)).__eq__ is type.__eq__ else None)
                err = TypeError
                for c in n.coercers:
                    try:
                        r = self.env.call(c, v)
                    except Exception as e:
                        err = type(e)
                        continue
                    if ok(match(n, r)):
                        v, kind = r, 2
                        break
                    err = TypeError
                else:
                    raise Reject(None)
        for k, name in getattr(n, 'validators', ()):
            try:
                r = self.env.call(name, v)
            except Exception as e:
                raise Reject(type(e))
            if k == 'V':
                v = r
            elif not r:
                raise Reject(ValueError)
        if not n.hollow:
            try:
                v = self.structure(n, v)
            except Reject:
                raise
            except (TypeError, AttributeError):  # it only pretends to be of that class: its parts cannot be processed
                if '__class__' not in vars(type(v)):
                    raise
                raise Reject(None)
        return v, kind

    def fill_union(self, n, v):
        if n.hollow:
            return v, 3
        best = []
        for a in n.alts:
            try:
                best.append(self.fill(a, v))
            except Reject:
                pass
        if not best:
            raise Reject(None)
        k = min(b[1] for b in best)
        vals = [b[0] for b in best if b[1] == k]
        if any(x is not vals[0] for x in vals[1:]):
            raise Reject(ValueError)
        return vals[0], k

    def structure(self, n, v):
        """membership, length, and element processing; user validators have already run"""
        k = n.kind
        if k == 'lit':
            if not any(type(v) is type(x) and v == x for x in n.spec[1:]):
                raise Reject(ValueError if any(type(v) is type(x) for x in n.spec[1:]) else None)
        elif k == 'type':
            try:
                ok = issubclass(v, CLS[n.spec[1]])
            except TypeError:  # only pretends to be a class
                raise Reject(None)
            if not ok:
                raise Reject(ValueError)
        elif k == 'tup':
            if len(v) != len(n.subs):
                raise Reject(ValueError)
            if not all(x.hollow for x in n.subs):
                return self.rebuild(v, [self.fill(x, e)[0] for x, e in zip(n.subs, v)])
        elif k in ('vtup', 'seq'):
            if not n.subs[0].hollow:
                return self.rebuild(v, [self.fill(n.subs[0], e)[0] for e in v])
        elif k == 'map':
            kn, vn = n.subs
            if not (kn.hollow and vn.hollow):
                items = [(self.fill(kn, a)[0], self.fill(vn, b)[0]) for a, b in v.items()]
                if all(a is c and b is d for (a, b), (c, d) in zip(v.items(), items)):
                    return v
                try:
                    d = dict(items)
                    if isinstance(v, defaultdict):
                        return self.new(type(v)(v.default_factory, d))
                    return self.new(type(v)(d))
                except Exception:
                    raise Reject(None)
        return v

    def rebuild(self, v, elems):
        if all(a is b for a, b in zip(v, elems)):
            return v
        try:
            return self.new(self.reconstruct(v, elems))
        except Exception:
            raise Reject(None)  # no object of that class holds these elements

    @staticmethod
    def reconstruct(v, elems):
        if isinstance(v, str):
            return type(v)(''.join(elems))
        if isinstance(v, deque):
            return type(v)(elems, v.maxlen)
        if hasattr(type(v), '_make'):
            return type(v)._make(elems)
        return type(v)(elems)

    def agrees(self, real, model):
        """identity, except for objects the model had to build anew: these are compared part by part"""
        if id(model) not in self.fresh or self.fresh[id(model)] is not model:
            return real is model
        if type(real) is not type(model):
            return False
        if isinstance(model, str):
            return real == model
        if isinstance(model, (list, tuple, deque)):
            return len(real) == len(model) and all(self.agrees(a, b) for a, b in zip(real, model)) \
                and getattr(real, 'maxlen', None) == getattr(model, 'maxlen', None)
        if isinstance(model, (dict, ChainMap)):
            return len(real) == len(model) and getattr(real, 'default_factory', None) is getattr(model, 'default_factory', None) \
                and all(self.agrees(a, b) and self.agrees(real[a], model[b]) for a, b in zip(real, model))
        if isinstance(model, (set, frozenset)):
            rest = list(real)
            for m in model:
                for i, r in enumerate(rest):
                    if self.agrees(r, m):
                        del rest[i]
                        break
                else:
                    return False
            return not rest
        return same(real, model)


def snapshot(v):
    """deep picture of a value by object identity, to detect mutation of what the caller supplied"""
    if isinstance(v, (list, tuple, deque)):
        return type(v), id(v), [snapshot(x) for x in v]
    if isinstance(v, (dict, ChainMap)):
        return type(v), id(v), [(snapshot(a), snapshot(b)) for a, b in v.items()], getattr(v, 'default_factory', None)
    if isinstance(v, (set, frozenset)):
        return type(v), id(v), sorted(id(x) for x in v)
    return id(v)


def exc_ok(exc, got):
    """exc: type, or None = TypeError/ValueError-or-anything unspecified"""
    return exc is None or type(got) is exc

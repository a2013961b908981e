import itertools
import json
from types import SimpleNamespace

from mc import alpha
from mc import wide
from mc.lib import *  # noqa

BOUNDS = dict(quick=wide.TEXT + '; ' + 'all classes of 1-3 defaulted fields over 12 default kinds (+ an optional required field), frozen or not, inherited or not; every omission '
                    'pattern with 7 supplied values (27 for one field); all construction histories of length 2 (3 for <=2 fields), over 7 construction routes',
              thorough='4 defaulted fields over 6 kinds; all histories of length 3')
RULE = 'one case = one class (default kinds, inheritance, freezing); inside: all histories of constructions with any field omitted'


class Weird:
    """a default that claims to be equal to everything"""

    def __eq__(self, o):
        return True

    def __ne__(self, o):
        return False

    __hash__ = None


def fn(v=0):
    return 'called'


class Desc:
    """a value that happens to be a descriptor"""

    def __get__(self, inst, owner):
        return 'got'


class DataDesc(Desc):
    def __set__(self, inst, v):
        raise AssertionError('set')

    def __delete__(self, inst):
        raise AssertionError('deleted')


class NameDesc:
    def __set_name__(self, owner, name):
        self.name = name


# kind -> (annotation, maker of the default object)
PLAIN = {
    'list': (list, lambda: [1]), 'none': (int, lambda: None), 'zero': (int, lambda: 0), 'empty': (str, lambda: ''), 'obj': (object, object),
    'wrong': (Annotated[int, check], lambda: 'not an int'), 'coerced': (Annotated[int, check, CallCoercion(int)], lambda: '12'),
    'invalid': (Annotated[int, check, Within(ge=0)], lambda: -5), 'func': (object, lambda: fn), 'type': (object, lambda: list),
    'weird': (object, Weird), 'false': (bool, lambda: False), 'ellipsis': (object, lambda: ...), 'trans': (Annotated[int, check, CallValidation(lambda v: v + 1)], lambda: 3),
    'desc': (object, Desc), 'datadesc': (object, DataDesc), 'namedesc': (object, NameDesc), 'smeth': (object, lambda: staticmethod(fn)), 'cmeth': (object, lambda: classmethod(fn)), 'prop': (object, lambda: property(fn)),
    'lamb': (object, lambda: (lambda: 0)), 'strict': (Annotated[int, check_strict], lambda: True), 'dict': (dict, dict), 'notimpl': (object, lambda: NotImplemented),
    'nodefault_like': (object, lambda: ('NO_DEFAULT',)), 'hugestr': (str, lambda: 'x' * 5000),
}
# factory kind -> what a call returns
FACT = {
    'f': (object, lambda i: [i]), 'fnone': (int, lambda i: None), 'fwrong': (Annotated[int, check], lambda i: f'w{i}'), 'ffalse': (object, lambda i: 0),
    'fraise': (object, None), 'ftup': (tuple, lambda i: (i, [])), 'fstr': (str, lambda i: f'v{i}' * 3), 'ffs': (object, lambda i: frozenset([(i,)])), 'ffn': (object, lambda i: (lambda: i)),
    'ftype': (object, lambda i: type(f'T{i}', (), {})), 'ffac': (object, lambda i: Factory(list)), 'fexc': (object, lambda i: ValueError(i)), 'fint': (int, lambda i: 10 ** 9 + i), 'fnan': (object, lambda i: float('nan')), 'fcls': (list, 'cls'), 'fcoer': (Annotated[int, check, CallCoercion(int), CallValidation(lambda v: v + 1)], lambda i: f'{i}'),
}
ORDER = ('list', 'none', 'f', 'wrong', 'fnone', 'zero', 'weird', 'fwrong', 'invalid', 'fcls', 'fcoer', 'coerced')
NAMES = ('p', 'b', 'z', 'c')
SUPPLY = ('equal', 'None', 'zero', 'empty', 'list', 'same', 'good')


def cases(tier):
    yield from wide.cases('C02', tier)
    t = tier == 'thorough'
    for k in list(PLAIN) + list(FACT):
        for req in (False, True):
            for frozen in (False, True):
                for inh in (0, 1, 2):
                    yield (k,), req, frozen, inh
    for ks in itertools.product(ORDER, repeat=2):
        for req, frozen, inh in ((False, False, 0), (True, True, 0), (True, False, 1), (False, True, 1)):
            yield ks, req, frozen, inh
    for ks in itertools.product(ORDER[:6] if not t else ORDER[:9], repeat=3):
        yield ks, True, False, 0
        yield ks, False, True, 1
    if t:
        for ks in itertools.product(ORDER[:6], repeat=4):
            yield ks, True, False, 1


class SubFactory(Factory):
    """a factory of the user's own class"""

    def __init__(self, func, note):
        super().__init__(func)
        self.note = note


class FactoryError(Exception):
    pass


ERRORS = (FactoryError, StopIteration, KeyError, AttributeError, TypeError, ValueError, RuntimeError, IndexError, LookupError, NotImplementedError, StopAsyncIteration, ArithmeticError,
          RecursionError, MemoryError, NameError, OSError, TimeoutError, AssertionError, UserWarning, EOFError, ImportError, BufferError, Exception)


class K:
    """one declared class with its defaults and factory logs"""

    def __init__(self, case):
        ks, req, frozen, inh = case
        self.kinds = dict(zip(NAMES, ks))
        self.failures = 0
        self.default, self.made = {}, {}
        fields, dfl = [], {}
        for n, k in self.kinds.items():
            if k in PLAIN:
                a, m = PLAIN[k]
                self.default[n] = dfl[n] = m()
            else:
                a, m = FACT[k]
                self.made[n] = []
                dfl[n] = SubFactory(self.factory(n, m), 'x') if frozen else Factory(self.factory(n, m))
            fields.append((n, a))
        r = [('r', object)] if req else []
        own = r + fields
        if inh == 0:
            self.cls = mk('K', own, dfl, frozen=frozen)
        elif inh == 1:  # the defaulted fields come from a parent
            base = mk('P', fields, dfl, frozen=not frozen)
            self.cls = mk('K', r or [('s', object)], {} if r else {'s': 0}, bases=(base,), frozen=frozen)
        else:
            base = mk('P', [('q', object)], {'q': 5})
            self.cls = mk('K', own, dfl, bases=(base,), frozen=frozen)
        self.req = req

    def factory(self, n, m):
        if m == 'cls':
            made = self.made[n]

            class L(list):
                def __init__(self, *a):
                    made.append(self)
                    super().__init__(*a)

            return L

        def f():
            if m is None:
                self.made[n].append(None)
                self.error = ERRORS[self.failures % len(ERRORS)](n)
                self.failures += 1
                raise self.error
            v = m(len(self.made[n]))
            self.made[n].append(v)
            return v

        return f


CHECKED = ('wrong', 'coerced', 'invalid', 'trans', 'strict', 'fwrong', 'fcoer')


def supplied(kk, n, how):
    k = kk.kinds[n]
    checked = k in CHECKED
    if checked:
        # only conforming values can be supplied; stored value after processing
        add = 1 if k in ('trans', 'fcoer') else 0
        return {'zero': (0, 0 + add), 'good': (41, 41 + add), 'equal': (3, 3 + add)}.get(how)
    if how == 'same':
        return (kk.default[n],) * 2 if n in kk.default else None
    if how == 'equal':
        if n not in kk.default or k in ('obj', 'func', 'type', 'lamb', 'weird', 'notimpl', 'ellipsis'):
            return None
        d = kk.default[n]
        v = list(d) if isinstance(d, list) else dict(d) if isinstance(d, dict) else float(d) if type(d) is int else (1 == 2) if d is False else d
        return v, v
    v = {'None': None, 'zero': 0, 'empty': '', 'list': [], 'good': object()}[how]
    return v, v


ROUTES = ('kw', 'pos', 'map', 'parse', 'json', 'inst', 'mapkw')


def construct(cls, route, kw):
    """the same data through another route; None if the route cannot carry it"""
    if route == 'kw':
        return attempt(cls, **kw)
    if route == 'pos':
        if 'r' not in kw or len([1 for f in cls._fields.values() if not f.has_default]) != 1:
            return None
        kw = dict(kw)
        return attempt(cls, kw.pop('r'), **kw)
    if route == 'map':
        return attempt(cls.from_mapping, dict(kw))
    if route == 'mapkw':
        return attempt(cls.from_mapping, {}, **kw)
    if route == 'inst':
        if any(is_default(cls, k, v) for k, v in kw.items()):
            return None  # attributes equal to a plain default are left out when reading an object, by design
        return attempt(cls.from_instance, SimpleNamespace(**kw))
    if route == 'parse':
        return attempt(cls.parse, dict(kw)) if 'r' in kw else None
    try:
        s = json.dumps(kw)
    except (TypeError, ValueError):
        return None
    if not same(json.loads(s), kw):
        return None
    return attempt(cls.from_json, s)


def is_default(cls, k, v):
    f = cls._fields[k]
    try:
        return f.has_default and not f.default_is_factory and bool(f.default == v)
    except Exception:
        return True


def run(case, ctx):
    if case[0] == '__wide__':
        return wide.run('C02', ctx, case[1])
    ks = case[0]
    kk = K(case)
    names = list(kk.kinds)
    # all ways to build one instance
    opts = []
    for n in names:
        o = [None]
        for how in SUPPLY if len(ks) < 3 else ('equal', 'None', 'good', 'zero'):
            s = supplied(kk, n, how)
            if s is not None:
                o.append((n,) + s)
        opts.append(o)
    combos = list(itertools.product(*opts))
    if len(ks) == 1 and ks[0] not in CHECKED:
        combos += [((names[0], v, v),) for v in alpha.SIGNS.values()]
    req_value = object()
    alive = []
    for c in combos:
        for route in ROUTES if len(ks) < 3 else ROUTES[:3]:
            for _ in ERRORS if ks == ('fraise',) and c == (None,) else (0,):
                alive.append(one(ctx, kk, c, route, req_value, case))
            check_alive(ctx, alive[-4:], case)
    # histories of omissions: what one construction does never shows in another
    hist = [c for c in combos if all(o is None or o[1] is None for o in c)]
    hist = (hist[:3] + combos[-1:])[:4]
    for h in itertools.product(hist, repeat=3 if len(ks) <= 2 else 2):
        alive = []
        for c in h:
            alive.append(one(ctx, kk, c, 'kw', req_value, case))
        check_alive(ctx, alive, case)


def check_alive(ctx, alive, case):
    for x in alive:
        if x is None:
            continue
        inst, expected = x
        for n, v in expected.items():
            if getattr(inst, n) is not v:
                ctx.fail('instance-changed', f'{case}: field {n} of an existing instance changed to {getattr(inst, n)!r}')


def one(ctx, kk, combo, route, req_value, case):
    kw, exp = {}, {}
    for c in combo:
        if c is not None:
            kw[c[0]] = c[1]
            exp[c[0]] = c[2]
    if kk.req:
        kw['r'] = exp['r'] = 'R' if route == 'json' else req_value
    raising = [n for n in kk.kinds if kk.kinds[n] == 'fraise' and n not in kw]
    for m in kk.made.values():
        m.clear()
    r = construct(kk.cls, route, kw)
    if r is None:
        return None
    ctx.op()
    ctx.trace()
    ctx.state(case, route, tuple(sorted(kw)))
    where = lambda: f'{case} {route} {kw}'
    if raising:
        ctx.outcome('factory raises')
        if r[0] == 'ok' or (route != 'parse' and type(kk.error) is FactoryError and not isinstance(r[1], FactoryError)):
            ctx.fail('factory-error', f'{where()}: {show(r)}')
        return None
    if r[0] != 'ok':
        ctx.fail('rejected', f'{where()}: {show(r)} {r[1].__cause__!r}')
    inst = r[1]
    for n in kk.kinds:
        got = getattr(inst, n)
        calls = kk.made.get(n, ())
        if n in kw:
            if calls:
                ctx.fail('factory-called', f'{where()}: the factory of {n} was called although it is supplied')
            st = exp[n]
            if not (got is st or (st is not kw[n] or route == 'json') and same(got, st)):
                ctx.fail('supplied-replaced', f'{where()}: field {n} holds {got!r} instead of what was supplied')
            exp[n] = got
        elif n in kk.default:
            if got is not kk.default[n]:
                ctx.fail('default', f'{where()}: field {n} holds {got!r}, not its default object {kk.default[n]!r}')
            exp[n] = got
        else:
            if len(calls) != 1 or got is not calls[0]:
                # (parse tries several parsers, each of which is a construction of its own)
                if not (route == 'parse' and calls and any(got is c for c in calls)):
                    ctx.fail('factory', f'{where()}: field {n} holds {got!r}; its factory was called {len(calls)} times and returned {calls!r}')
            exp[n] = got
    ctx.outcome(f'{route} {len(kw)}')
    return inst, exp

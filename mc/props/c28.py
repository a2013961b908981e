"""C28: when the post-creation hook runs, what it sees, and what becomes of its result, on every route that creates an instance."""
import copy
import io
import itertools
import json
import pickle
import sys
import types

from mc.canon import canon
from mc import wide
from mc.lib import *  # noqa
from records import CallCoercion, CallValidation, parser
from records.record import ParseFailure

BOUNDS = dict(
    quick=wide.TEXT + '; ' + '28 hook behaviours x 6 class shapes x 5 places of the hook x frozen x 5 fill outcomes x 25 creation routes; every pair and triple of behaviours in succession on 6 routes; 27 behaviours x 6 parser behaviours x fill outcome x frozen for a positional argument with two readings',
    thorough='the same, every four behaviours in succession')
RULE = 'one case = hook behaviour and class shape, or a hook behaviour under a positional argument with two readings, or the first of a succession of behaviours'

MOD = types.ModuleType('mc_hooks')
sys.modules['mc_hooks'] = MOD


class Ctl:
    behaviour = 'none'
    log = []
    heirs = []
    made = []


HEIRS = {}


class Two(Exception):
    def __init__(self, a, b):
        super().__init__(a, b)


class Falsish:
    def __bool__(self):
        return False

    def __eq__(self, other):
        return True
    __hash__ = None


class NoTruth:
    def __bool__(self):
        raise RuntimeError('no truth value')

    def __eq__(self, other):
        raise RuntimeError('no equality')
    __hash__ = None


class FalsyRec(RecordBase):
    qq: object = 1

    def __bool__(self):
        return False


class EmptyRec(RecordBase, frozen=True):
    qq: object = 1

    def __len__(self):
        return 0

    def __eq__(self, other):
        raise RuntimeError


RETURNS = {'none': None, 'zero': 0, 'empty': '', 'list': [], 'false': False, 'notimpl': NotImplemented, 'ellipsis': ..., 'exc': ValueError('returned'), 'class': int, 'falsish': Falsish(), 'notruth': NoTruth(), 'falsyrec': FalsyRec(), 'emptyrec': EmptyRec(), 'nan': float('nan'), 'true': True}
RAISES = {'ValueError': ValueError('v'), 'TypeError': TypeError('t'), 'ParseFailure': ParseFailure('p'), 'StopIteration': StopIteration(1), 'Two': Two(1, 2), 'AttributeError': AttributeError('aa'), 'Interrupt': KeyboardInterrupt()}
SPECIAL = ['self', 'other', 'heir', 'mutate', 'mutate-self', 'extra', 'use']
BEHAVIOURS = list(RETURNS) + SPECIAL + list(RAISES)



def hook(self):
    cls = type(self)
    if '_mc_heir' in vars(cls):
        Ctl.heirs.append(self)
        return None
    Ctl.log.append((self, {k: getattr(self, k, 'MISSING') for k in cls._fields}))
    b = Ctl.behaviour
    if b in RETURNS:
        return RETURNS[b]
    if b in RAISES:
        raise RAISES[b]
    if b == 'self':
        return self
    if b == 'other':
        return Ctl.other
    if b == 'heir':
        # a new instance of a subclass, as a class that picks an implementation does
        if cls not in HEIRS:
            HEIRS.clear()
            HEIRS[cls] = type(cls)('Heir', (cls,), {'_mc_heir': True, '__module__': 'mc_hooks'}, frozen=cls.is_frozen())
            MOD.Heir = HEIRS[cls]
        h = HEIRS[cls](**{k: getattr(self, k) for k in cls._fields})
        Ctl.made.append(h)
        return h
    if b.startswith('mutate'):
        self.__dict__[next(iter(cls._fields))] = 99
        return self if b == 'mutate-self' else None
    if b == 'extra':
        self.__dict__['extra'] = 'e'
        return None
    if b == 'use':
        # the instance is complete: whatever can be done with it, the hook can do
        assert self == self and repr(self) == repr(self) and self.to_dict(include_defaults=True) == Ctl.log[-1][1]
        if cls.is_frozen():
            try:
                assert hash(self) == hash(self)
            except TypeError:
                pass  # a value is not hashable
            try:
                setattr(self, next(iter(cls._fields)), 99)
            except TypeError:
                pass
        return None
    raise AssertionError(b)


DEFAULT = ['default']
PROCESSED = Annotated[int, check, CallCoercion(int), CallValidation(abs)]
# shape -> annotations and defaults
SHAPES = {
    'one': ({'xx': PROCESSED, 'yy': list, 'zz': list}, {'yy': DEFAULT, 'zz': Factory(list)}),
    'two': ({'xx': PROCESSED, 'ww': Annotated[object, hollow], 'zz': list}, {'zz': Factory(list)}),
    'default-first': ({'zz': list, 'xx': PROCESSED, 'ww': object, 'nn': object}, {'zz': Factory(list), 'nn': None}),
    'trivial': ({'xx': PROCESSED}, {}),
    'hollow': ({'xx': object, 'ww': object}, {}),
    'strict': ({'xx': Annotated[int, check_strict, CallCoercion(int), CallValidation(abs)], 'ww': object}, {}),
}
PLACES = ['own', 'inherited', 'super', 'mixin', 'grandparent']
FILLS = {'ok': dict(xx='-5', ww='w'), 'given': dict(xx=7, ww=[], yy=['y'], zz=['z'], nn=0), 'bad': dict(xx='no', ww='w'), 'missing': dict(ww='w', yy=[]), 'unknown': dict(xx=5, ww='w', vv=1)}


def classes(shape, place, frozen, **kw):
    anns, defaults = SHAPES[shape]
    kw = dict(frozen=frozen, module='mc_hooks', **kw)
    body = {'post_new': hook}
    if place == 'own':
        cls = mk('K', anns, defaults, body, **kw)
    elif place == 'mixin':
        cls = mk('K', anns, defaults, bases=(type('Mix', (), dict(body)), RecordBase), **kw)
    else:
        names = list(anns)
        cut = len(names) - 1 if place != 'grandparent' else 0
        first = {k: anns[k] for k in names[:cut]} or {'gg': object}
        rest = {k: anns[k] for k in names if k not in first}
        dflt = lambda part: {k: defaults[k] for k in part if k in defaults}
        base = mk('Base', first, dict(dflt(first), **({'gg': 'g'} if 'gg' in first else {})), body if place != 'super' else {}, **kw)
        MOD.Base = base
        own = {}
        if place == 'super':
            def post_new(self):
                assert super(base, self).post_new() is None
                return hook(self)
            own = {'post_new': post_new}
        elif place == 'grandparent':
            base = mk('Mid', {'mm': object}, {'mm': 'm'}, bases=(base,), **kw)
        cls = mk('K', rest, dflt(rest), own, bases=(base,), **kw)
    MOD.K = cls
    cls.__qualname__ = 'K'
    return cls


def processed(shape, v):
    return v if shape == 'hollow' else abs(int(v))


def expected_fill(cls, shape, d):
    """None if the fill fails, else the expected values"""
    if not set(d) <= set(cls._fields):
        return None
    out = {}
    for k in cls._fields:
        if k in d:
            if k == 'xx':
                try:
                    out[k] = processed(shape, d[k])
                except ValueError:
                    return None
            else:
                out[k] = d[k]
        elif k == 'zz':
            out[k] = []
        elif k == 'nn':
            out[k] = None
        elif k in ('gg', 'mm'):
            out[k] = k[0]
        elif k == 'yy':
            out[k] = DEFAULT
        else:
            return None
    return out


def direct(cls, d):
    """routes on which errors propagate; all fill the class once"""
    yield 'keywords', lambda: cls(**d)
    yield 'from_mapping', lambda: cls.from_mapping(d)
    k0 = next(iter(d))
    yield 'from_mapping+kw', lambda: cls.from_mapping({k: v for k, v in d.items() if k != k0}, **{k0: d[k0]})
    yield 'two maps', lambda: cls.from_mapping({k0: d[k0]}, d)
    yield 'select', lambda: cls.from_mapping.select(keys_to_rename=[('renamed', k0)])({('renamed' if k == k0 else k): v for k, v in d.items()})
    yield 'select add', lambda: cls.from_mapping.select(keys_to_add=[(k0, d[k0])])({k: v for k, v in d.items() if k != k0})
    yield 'from_json', lambda: cls.from_json(json.dumps(d))
    yield 'from_json_io', lambda: cls.from_json_io(io.StringIO(json.dumps(d)))
    yield 'unpickled mapping', lambda: cls.from_pickle(pickle.dumps(d))
    if 'vv' not in d:
        yield 'from_instance', lambda: cls.from_instance(types.SimpleNamespace(**d))
        yield 'from_instance+kw', lambda: cls.from_instance(types.SimpleNamespace(**d), {}, **d)
    if required(cls) == {'xx'} and 'xx' in d:
        rest = {k: v for k, v in d.items() if k != 'xx'}
        yield 'positional', lambda: cls(d['xx'], **rest)


def required(cls):
    return {k for k, f in cls._fields.items() if not f.has_default}


PARSED = ('unpickled mapping',)


def parsing(cls, d):
    yield 'parse mapping', lambda: cls.parse(d)
    yield 'parse json', lambda: cls.parse(json.dumps(d))
    if 'vv' not in d:
        yield 'parse object', lambda: cls.parse(types.SimpleNamespace(**d))
    if len(required(cls)) > 1:
        yield 'unary', lambda: cls(d)
        yield 'unary json', lambda: cls(json.dumps(d))


def copies(cls, inst):
    """(route, function, number of fills)"""
    yield 'copy', lambda: copy.copy(inst), 0 if cls.is_frozen() else 1
    yield 'deepcopy', lambda: copy.deepcopy(inst), 1
    yield 'deepcopy in a list', lambda: copy.deepcopy([inst, inst])[1], 1
    for p in range(2, pickle.HIGHEST_PROTOCOL + 1):
        data = pickle.dumps(inst, p)
        yield f'unpickle {p}', (lambda data=data: pickle.loads(data)), 1
    data = pickle.dumps((inst, {'a': inst}))
    yield 'unpickle shared', lambda: pickle.loads(data)[1]['a'], 1
    yield 'from_instance of it', lambda: cls.from_instance(inst), 0 if cls.is_frozen() else 1
    yield 'from_instance of it with values', lambda: cls.from_instance(inst, {}, xx=inst.xx), 1
    yield 'from_mapping of it', lambda: cls.from_mapping(inst.to_dict()), 1


def perform(f, b):
    Ctl.behaviour = b
    Ctl.log, Ctl.heirs, Ctl.made = [], [], []
    try:
        return 'ok', f()
    except (Exception, KeyboardInterrupt) as e:
        return 'err', e
    finally:
        Ctl.behaviour = 'none'


def verify_log(ctx, where, cls, n, values, copied=False):
    log = Ctl.log
    ctx.expect(len(log) == n, 'calls', lambda: f'{where()}: the hook ran {len(log)} times instead of {n}')
    for self, seen in log:
        ctx.expect(type(self) is cls, 'instance', lambda: f'{where()}: the hook ran on {type(self)}')
        ctx.expect(list(seen) == list(values) and all(same(seen[k], values[k]) for k in values), 'incomplete', lambda: f'{where()}: the hook saw {seen}, expected {values}')
    ctx.expect(len(Ctl.heirs) == len(Ctl.made) and all(a is b for a, b in zip(Ctl.heirs, Ctl.made)), 'calls', lambda: f'{where()}: the hooks of instances of a subclass made by the hook ran on {Ctl.heirs}')
    ctx.expect(len({id(s) for s, _ in log}) == n, 'calls', lambda: f'{where()}: the hook ran again on the same instance')


def verify_result(ctx, where, b, r, parse=False, unpickled=False):
    """after one successful fill: what has to be returned or raised"""
    self, seen = Ctl.log[-1]
    if b in RAISES:
        if b == 'Interrupt' or not parse:
            ctx.expect(r[0] == 'err' and r[1] is RAISES[b], 'raised', lambda: f'{where()}: {show(r)}, the hook raised {RAISES[b]!r}')
        else:
            ctx.expect(r[0] == 'err' and isinstance(r[1], ParseFailure), 'raised', lambda: f'{where()}: {show(r)}, the only reading failed')
        return
    if b == 'other':
        exp = Ctl.other
    elif b == 'heir':
        exp = Ctl.made[-1]
    elif b in RETURNS and b != 'none':
        exp = RETURNS[b]
    else:
        exp = self
    if r[0] == 'err' and unpickled and b in RETURNS and not isinstance(exp, RecordBase):
        ctx.fail('unpickle-replacement-not-a-record', f'{where()}: {show(r)}, expected {exp!r}')
        return
    ctx.expect(r[0] == 'ok' and r[1] is exp, 'result', lambda: f'{where()}: {show(r)}, expected {"the new instance" if exp is self else exp!r}')
    if exp is self and not unpickled:
        for k, v in seen.items():
            got = getattr(self, k)
            want = 99 if b.startswith('mutate') and k == next(iter(seen)) else v
            ctx.expect(got is want or (want == 99 and got == 99), 'values', lambda: f'{where()}: {k} is {got!r} instead of {want!r}')
        ctx.expect(('extra' in self.__dict__) == (b == 'extra'), 'values', lambda: f'{where()}: {self.__dict__}')


def run(case, ctx):
    if case[0] == '__wide__':
        return wide.run('C28', ctx, case[1])
    kind = case[0]
    if kind == 'two-readings':
        return readings(ctx, case[1])
    if kind == 'succession':
        return succession(ctx, case[1], case[2])
    _, b, shape = case
    for place in PLACES:
        for frozen in (False, True):
            cls = classes(shape, place, frozen)
            ok = perform(lambda: cls(**{k: v for k, v in FILLS['given'].items() if k in cls._fields}), 'none')
            Ctl.other = ok[1]
            for fill, d in FILLS.items():
                d = {k: v for k, v in d.items() if k in cls._fields or k == 'vv'}
                if not d:
                    continue
                values = expected_fill(cls, shape, d)
                for route, f in direct(cls, d):
                    where = lambda: f'{case} hook {place} frozen={frozen}: {route} with {d}'
                    r = perform(f, b)
                    ctx.op()
                    ctx.state(case, place, frozen, fill, route)
                    if values is None:
                        verify_log(ctx, where, cls, 0, {})
                        ctx.expect(r[0] == 'err' and r[1] not in RAISES.values(), 'fill', lambda: f'{where()}: {show(r)}, the values are not acceptable')
                    else:
                        verify_log(ctx, where, cls, 1, values)
                        verify_result(ctx, where, b, r, parse=route in PARSED)
                for route, f in parsing(cls, d):
                    where = lambda: f'{case} hook {place} frozen={frozen}: {route} with {d}'
                    r = perform(f, b)
                    ctx.op()
                    ctx.state(case, place, frozen, fill, route)
                    if values is None:
                        verify_log(ctx, where, cls, 0, {})
                        ctx.expect(r[0] == 'err' and isinstance(r[1], ParseFailure), 'fill', lambda: f'{where()}: {show(r)}, the values are not acceptable')
                    else:
                        verify_log(ctx, where, cls, 1, values)
                        verify_result(ctx, where, b, r, parse=True)
                if values is None:
                    continue
                inst = perform(lambda: cls(**d), 'none')[1]
                before = canon(inst)
                for route, f, n in copies(cls, inst):
                    where = lambda: f'{case} hook {place} frozen={frozen}: {route} of {inst}'
                    r = perform(f, b)
                    ctx.op()
                    ctx.state(case, place, frozen, fill, route)
                    unpickled = route.startswith('unpickle')
                    state = canon(Ctl.other), canon(RETURNS['falsyrec'])
                    verify_log(ctx, where, cls, n, values)
                    if n:
                        verify_result(ctx, where, b, r, unpickled=unpickled)
                    else:
                        ctx.expect(r[0] == 'ok' and r[1] is inst, 'result', lambda: f'{where()}: {show(r)}')
                    ctx.expect(canon(inst) == before, 'original', lambda: f'{where()}: the original became {inst}')
                    if unpickled:
                        # unpickling gives the result the state of the pickled instance: undo that for the shared replacements
                        Ctl.other.__dict__.clear()
                        Ctl.other.__dict__.update(ok[1].__dict__)
                        for v in RETURNS.values():
                            if hasattr(v, '__dict__') and not isinstance(v, type):
                                v.__dict__.clear()
                        RETURNS['falsyrec'].__dict__['qq'] = RETURNS['emptyrec'].__dict__['qq'] = 1
                        ok = perform(lambda: cls(**{k: v for k, v in FILLS['given'].items() if k in cls._fields}), 'none')
                        Ctl.other = ok[1]
                ctx.outcome(f'{b}')
            ctx.trace()


def readings(ctx, b):
    """a positional argument that may be parsed and may fill the only required field"""
    for frozen in (False, True):
        for unary in (True, False, None):
            for pname, result in (('none', None), ('sentinel', object()), ('zero', 0), ('falsish', RETURNS['falsish']), ('instance', FalsyRec()), ('fails', ValueError('no')), ('absent', None)):
                for optional in (0, 1):
                    def p(v):
                        if isinstance(result, Exception):
                            raise result
                        return result
                    anns, defaults = {'xx': PROCESSED}, {}
                    if optional:
                        anns, defaults = {'yy': list, **anns}, {'yy': DEFAULT}
                    cls = mk('K', anns, defaults, dict({'post_new': hook}, **({'p': parser(staticmethod(p))} if pname != 'absent' else {})), frozen=frozen, unary_parse=unary)
                    Ctl.other = perform(lambda: cls(xx=1), 'none')[1]
                    for arg, good in ((-5, True), ('6', True), (None, False), ([], False), (1.0, True)):
                        for kw in ({}, {'yy': ['k']} if optional else None):
                            if kw is None:
                                continue
                            where = lambda: f'hook {b}, frozen={frozen}, unary_parse={unary}, parser {pname}, yy={optional}: K({arg!r}, **{kw})'
                            r = perform(lambda: cls(arg, **kw), b)
                            ctx.op()
                            ctx.state('readings', b, frozen, unary, pname, optional, arg, repr(kw))
                            # a string that is a number is json, but no mapping
                            parsed = unary and not kw and pname not in ('fails', 'absent')
                            values = {k: (kw.get('yy', DEFAULT) if k == 'yy' else None if not good else abs(int(arg))) for k in anns}
                            if not good:
                                verify_log(ctx, where, cls, 0, values)
                                if parsed:
                                    ctx.expect(r[0] == 'ok' and r[1] is result, 'parsing', lambda: f'{where()}: {show(r)}, the parsing is {result!r}')
                                else:
                                    ctx.expect(r[0] == 'err' and isinstance(r[1], (TypeError, ValueError)), 'fill', lambda: f'{where()}: {show(r)}')
                                continue
                            verify_log(ctx, where, cls, 1, values)
                            if not parsed or b == 'Interrupt':
                                verify_result(ctx, where, b, r)
                            elif b in RAISES:
                                ctx.expect(r[0] == 'ok' and r[1] is result, 'parsing', lambda: f'{where()}: {show(r)}, the hook failed and the parsing is {result!r}')
                            else:
                                ctx.expect(r[0] == 'err' and type(r[1]) is TypeError, 'ambiguous', lambda: f'{where()}: {show(r)}, both readings succeeded')
    ctx.trace()


def succession(ctx, first, n):
    """creations one after the other are independent"""
    for shape, frozen in (('one', False), ('one', True), ('two', False)):
        cls = classes(shape, 'own', frozen)
        d = {k: v for k, v in FILLS['ok'].items() if k in cls._fields}
        bad = {k: v for k, v in FILLS['bad'].items() if k in cls._fields}
        values = expected_fill(cls, shape, d)
        Ctl.other = perform(lambda: cls(**d), 'none')[1]
        kept = perform(lambda: cls(**d), 'none')[1]
        for rest in itertools.product(BEHAVIOURS, repeat=n - 1):
            seq = (first,) + rest
            for routes in (('keywords',) * n, ('from_mapping', 'keywords', 'from_instance', 'deepcopy')[:n], ('keywords', 'deepcopy', 'from_json', 'keywords')[:n], ('bad', 'keywords', 'bad', 'from_mapping')[:n]):
                for i, (b, route) in enumerate(zip(seq, routes)):
                    where = lambda: f'{shape} frozen={frozen}: {list(zip(seq, routes))} step {i}'
                    f = {'deepcopy': lambda: copy.deepcopy(kept), 'bad': lambda: cls(**bad)}.get(route) or dict(direct(cls, d))[route]
                    r = perform(f, b)
                    ctx.op()
                    if route == 'bad':
                        verify_log(ctx, where, cls, 0, values)
                        ctx.expect(r[0] == 'err' and r[1] not in RAISES.values(), 'fill', lambda: f'{where()}: {show(r)}')
                        continue
                    verify_log(ctx, where, cls, 1, values)
                    verify_result(ctx, where, b, r)
                ctx.state(shape, frozen, seq, routes)
    ctx.trace()


def cases(tier):
    yield from wide.cases('C28', tier)
    for b in BEHAVIOURS:
        for shape in SHAPES:
            yield 'routes', b, shape
    for b in BEHAVIOURS:
        yield 'two-readings', b
    for b in BEHAVIOURS:
        yield 'succession', b, 2
        yield 'succession', b, 3
        if tier == 'thorough':
            yield 'succession', b, 4

"""C20: import routes against keyword construction with the same data."""
import collections
import io
import itertools
import json
import types as _types

from mc.canon import canon
from mc import wide
from mc.lib import *  # noqa
from mc.props.c19 import ENTRIES, Either, kwargs, model
from records.select import Select

BOUNDS = dict(quick=wide.TEXT + '; ' + '5 classes x 128 data sets x 9 routes x 6 kinds of mapping; every distribution of 3 keys over 3 sources of each route (precedence); every selection of up to 2 entries out of 17 x '
                    'every subset of the keys x 5 routes with attribute reads recorded; frozen identity on all (class, object, extras) combinations', thorough='selections of up to 3 entries')
RULE = 'one case = class and route group, or a selection; inside: every data set / distribution'


def K1(frozen=False, ch=True):
    return mk('K', {'x': Annotated[int, check, Loose] if ch else object, 'y': object, 'z': object}, {'y': 0}, frozen=frozen)


def make_class(name):
    if name == 'plain':
        return K1()
    if name == 'frozen':
        return K1(True)
    if name == 'optional':
        return mk('K', {'x': Annotated[int, check, Loose], 'y': object, 'z': object}, {'x': 3, 'y': 0, 'z': Factory(list)})
    if name == 'derived':
        P = mk('P', {'z': object, 'x': Annotated[int, check, Loose]}, frozen=True)
        return mk('K', {'y': object}, {'y': 0}, bases=(P,))
    if name == 'post':
        def post_new(self):
            if self.y == 5:
                raise KeyError('five')
            if self.y is False:
                return 'replaced'
        return mk('K', {'x': Annotated[int, check, Loose], 'y': object, 'z': object}, {'y': 0}, dict(post_new=post_new))


CLASSES = ('plain', 'frozen', 'optional', 'derived', 'post')
DATA = [{k: v for k, v in zip('xyzw', vs) if v is not NODEF} for vs in itertools.product((NODEF, 1, '2', 'bad'), (NODEF, 0, False, 5), (NODEF, None, [1], {'k': [2.5]}), (NODEF, 1))]


class MyMapping(collections.abc.Mapping):
    def __init__(self, d):
        self.d = d

    def __getitem__(self, k):
        return self.d[k]

    def __iter__(self):
        return iter(self.d)

    def __len__(self):
        return len(self.d)


class UD(collections.UserDict):
    def __missing__(self, k):
        return 98


class Missing(dict):
    def __missing__(self, k):
        return 97


MAPPINGS = dict(dict=dict, proxy=lambda d: _types.MappingProxyType(dict(d)), ordered=collections.OrderedDict, chain=lambda d: ChainMap({}, dict(d)), custom=MyMapping, default=lambda d: collections.defaultdict(lambda: 99, d), counter=collections.Counter, userdict=UD, missing=lambda d: Missing(d))


class Obj:
    """an object with the given attributes, recording what is read"""

    def __init__(self, d, log):
        self.__dict__['_d'], self.__dict__['_log'] = d, log

    def __getattribute__(self, n):
        if n.startswith('_'):
            return object.__getattribute__(self, n)
        self._log.append(n)
        if n in self._d:
            return self._d[n]
        raise AttributeError(n)


SENT = (('rename', ('w', 'x')),)
ENT = ENTRIES + [('rename', ('w', 'a'))]


def cases(tier):
    yield from wide.cases('C20', tier)
    for c in CLASSES:
        for g in ('routes', 'precedence', 'identity', 'json', 'raising'):
            yield g, c, ()
    n = 3 if tier == 'thorough' else 2
    yield 'names', '', ()
    yield 'select', '', ()
    for k in range(1, n + 1):
        for E in itertools.product(range(len(ENT)), repeat=k):
            yield 'select', '', E


def snap(r):
    return ('ok', canon(r[1])) if r[0] == 'ok' else ('err', type(r[1]).__name__)


def agree(ctx, where, got, exp, strict=True):
    ctx.op()
    ctx.trace()
    ctx.outcome(exp[0])
    if exp[0] == 'ok':
        ctx.expect(got[0] == 'ok' and canon(got[1]) == canon(exp[1]), 'route', lambda: f'{where()}: {show(got)}, keyword construction gives {show(exp)}')
    else:
        ctx.expect(got[0] == 'err' and (not strict or type(got[1]) is type(exp[1])), 'route-error', lambda: f'{where()}: {show(got)}, keyword construction gives {show(exp)}')


def run(case, ctx):
    if case[0] == '__wide__':
        return wide.run('C20', ctx, case[1])
    kind, c, E = case
    if kind == 'names':
        return names(ctx)
    if kind == 'select':
        return select(ctx, [ENT[i] for i in E])
    K = make_class(c)
    kw = lambda d: attempt(lambda: K(**d))
    ctx.state(case)
    if kind == 'routes':
        for d in DATA:
            exp = kw(d)
            for mname, M in MAPPINGS.items():
                src = M(d)
                before = canon(src)
                agree(ctx, lambda: f'{c}: from_mapping({mname} {d})', attempt(K.from_mapping, src), exp)
                agree(ctx, lambda: f'{c}: from_mapping({{}}, {mname} {d})', attempt(K.from_mapping, {}, src), exp)
                agree(ctx, lambda: f'{c}: from_mapping({mname} {d}) twice', attempt(K.from_mapping, src, src), exp)
                ctx.expect(canon(src) == before and len(src) == len(d), 'input-changed', lambda: f'{c}: from_mapping changed its {mname} {d} to {src}')
            agree(ctx, lambda: f'{c}: from_mapping(**{d})', attempt(lambda: K.from_mapping(**d)), exp)
            agree(ctx, lambda: f'{c}: parse({d})', attempt(K.parse, MyMapping(d)) if kw(d)[0] == 'ok' and c != 'optional' else exp, exp)
            # attributes
            log = []
            o = Obj(d, log)
            visible = {k: v for k, v in d.items() if k != 'w'}
            base = kw(visible)
            agree_instance(ctx, lambda: f'{c}: from_instance(object with {d})', attempt(K.from_instance, o), base, K, visible)
            ctx.expect(set(log) <= set('xyz'), 'reads', lambda: f'{c}: from_instance read {set(log)}')
            ctx.expect(o._d == d, 'input-changed', lambda: f'{c}: from_instance changed its object')
            agree_instance(ctx, lambda: f'{c}: from_instance(class with {d})', attempt(K.from_instance, type('T', (), dict(d))), base, K, visible)
            agree_instance(ctx, lambda: f'{c}: from_instance(namespace with {d}, {{}})', attempt(K.from_instance, _types.SimpleNamespace(**d), {}), base, K, visible)
    elif kind == 'raising':
        # reading an attribute fails: only a missing attribute is a missing value
        class Mine(LookupError):
            pass

        class Missing(AttributeError):
            pass
        full = dict(x=1, y=3, z=[1])
        for n in range(1, 4):
            for broken in itertools.combinations('xyz', n):
                for E in (ValueError, KeyError, RuntimeError, TypeError, Mine, StopIteration, OSError, ZeroDivisionError, Missing, AttributeError):
                    def get(o, k, broken=broken, E=E):
                        if k in broken:
                            raise E(k)
                        return full[k]
                    P = type('P', (), {k: property(lambda o, k=k: get(o, k)) for k in 'xyz'})
                    G = type('G', (), {'__getattr__': get})
                    for src in (P(), G()):
                        for f, what in ((K.from_instance, 'from_instance'), (K.from_instance.select(Select()), 'select'), (K.from_instance.select(keys_to_maybe_remove='q'), 'select q'),
                                        (lambda s: K.from_instance(s, {}), 'with mapping'), (lambda s: K(**K.to_dict(s, include_defaults=True)), 'to_dict')):
                            if what == 'to_dict' and E is StopIteration or type(src) is G and what == 'select q':
                                continue
                            got = attempt(f, src)
                            ctx.op()
                            ctx.trace()
                            ctx.state(case, broken, E.__name__, type(src).__name__, what)
                            where = lambda: f'{c}: {what} of an object whose {broken} raise {E.__name__}: {show(got)}'
                            if issubclass(E, AttributeError):
                                exp = kw({k: v for k, v in full.items() if k not in broken})
                                ctx.expect(got[0] == exp[0] and (got[0] == 'err' or canon(got[1]) == canon(exp[1])), 'missing-attribute', lambda: where() + f', expected {show(exp)}')
                            else:
                                ctx.expect(got[0] == 'err', 'broken-attribute', where)
                            ctx.outcome(('raising', got[0]))
    elif kind == 'json':
        for d in DATA + [{'x': 1, 'z': {'a': {'b': [1, 2.0, None, True, 'é"']}}}]:
            text = json.dumps(d)
            exp = kw(json.loads(text))
            for how, f in (('str', lambda: K.from_json(text)), ('bytes', lambda: K.from_json(text.encode())), ('bytearray', lambda: K.from_json(bytearray(text, 'utf8'))), ('file', lambda: K.from_json_io(io.StringIO(text))),
                           ('binary file', lambda: K.from_json_io(io.BytesIO(text.encode()))), ('spaces', lambda: K.from_json(json.dumps(d, indent=2) + '\n')), ('select', lambda: K.from_json.select(Select())(text)),
                           ('select file', lambda: K.from_json_io.select(keys_to_maybe_remove='nosuch')(io.StringIO(text)))):
                agree(ctx, lambda: f'{c}: from_json ({how}) of {text}', attempt(f), exp)
        for bad in ('', '{', '[1]', '5', 'null', '"x"', '[["x", 1], ["z", 2]]', '[]', '""', '["xz"]', '["x1", "z2"]', '{"x": }', "{'x': 1}", '{"x": 1, "z": 2} 5', 'NaN'):
            for f in (lambda: K.from_json(bad), lambda: K.from_json_io(io.StringIO(bad)), lambda: K.from_json.select(keys_to_maybe_remove='nosuch')(bad), lambda: K.from_json_io.select(keys_to_maybe_add={'x': 1, 'z': 2})(io.StringIO(bad))):
                r = attempt(f)
                ctx.op()
                ctx.expect(r[0] == 'err', 'json-accepted', lambda: f'{c}: from_json({bad!r}): {show(r)}')
    elif kind == 'precedence':
        subsets = [s for n in range(4) for s in itertools.combinations('xyz', n)]
        for a, b, k in itertools.product(subsets, repeat=3):
            m1, m2, k3 = ({n: v for n in s} for s, v in zip((a, b, k), (10, 20, 30)))
            exp = kw({**k3, **m2, **m1})
            agree(ctx, lambda: f'{c}: from_mapping({m1}, {m2}, **{k3})', attempt(lambda: K.from_mapping(m1, m2, **k3)), exp)
            for mname, M in MAPPINGS.items():
                # whatever the class of a mapping, what it does not contain comes from the others
                M1, M2 = M(m1), M(m2)
                where = f'{c}: from_mapping({mname} {m1}, {m2}, {{}}, **{k3})'
                agree(ctx, lambda: where, attempt(lambda: K.from_mapping(M1, M2, {}, **k3)), exp)
                agree(ctx, lambda: where + ', selected', attempt(lambda: K.from_mapping.select(keys_to_maybe_remove='nosuch')(M1, M2, {}, **k3)), exp)
                ctx.expect(dict(M1) == m1 and dict(M2) == m2, 'input-changed', lambda: f'{where} changed its mappings to {M1}, {M2}')
            ctx.expect(m1 == {n: 10 for n in a} and m2 == {n: 20 for n in b}, 'input-changed', lambda: f'{c}: from_mapping changed {m1} or {m2}')
            k4 = {n: 40 for n in k}
            exp = kw({**k4, **k3, **m2, **m1})
            for maps in ([m1, m2, k3, k4], [{}, m1, m2, {}, k3], [MyMapping(m1), MyMapping(m2), MyMapping(k3), m1, m2]):
                agree(ctx, lambda: f'{c}: from_mapping(*{maps})', attempt(lambda: K.from_mapping(*maps)), exp)
            k5 = {n: 50 for n in 'xz'}
            agree(ctx, lambda: f'{c}: from_mapping({m1}, {m2}, {k3}, **{k5})', attempt(lambda: K.from_mapping(m1, m2, k3, **k5)), kw({**k5, **k3, **m2, **m1}))
            exp = kw({**m1, **m2, **k3})
            if c == 'optional' or {'x', 'z'} <= set(a):
                obj = _types.SimpleNamespace(**m1)
                agree(ctx, lambda: f'{c}: from_instance({m1}, {m2}, **{k3})', attempt(lambda: K.from_instance(obj, m2, **k3)), exp)
                ctx.expect(vars(obj) == m1 and m2 == {n: 20 for n in b}, 'input-changed', lambda: f'{c}: from_instance changed {obj} or {m2}')
                # an instance of the class itself
                if {'x', 'z'} <= set(a):
                    i = K(**m1)
                    agree(ctx, lambda: f'{c}: from_instance({i}, {m2}, **{k3})', attempt(lambda: K.from_instance(i, m2, **k3)), exp)
                    ctx.expect(i == K(**m1), 'input-changed', lambda: f'{c}: from_instance changed {i}')
    else:
        Sub = mk('Sub', {'q': object}, {'q': 1}, bases=(K,), frozen=True)
        Mut = mk('Mut', {'q': object}, {'q': 1}, bases=(K,))
        v = dict(x=1, z=[2])
        for cls in (K, Sub, Mut):
            for src in (K(**v), Sub(**v), Mut(**v), _types.SimpleNamespace(**v)):
                for maps, kws in (((), {}), (({},), {}), (({'y': 5} if c != 'post' else {'y': 6},), {}), ((), {'z': 3}), (({'y': 1}, {'z': 4}), {'x': 9})):
                    for sel in (None, Select(), Select(keys_to_maybe_remove='nosuch')):
                        f = cls.from_instance if sel is None else cls.from_instance.select(sel)
                        got = attempt(lambda: f(src, *maps, **kws))
                        ctx.op()
                        ctx.trace()
                        ctx.state(case, cls.__name__, type(src).__name__, maps, tuple(kws), str(bool(sel)))
                        where = lambda: f'{c}: {cls.__name__}.from_instance({src!r}, {maps}, {kws}), selection {sel and bool(sel)}: {show(got)}'
                        ctx.expect(got[0] == 'ok', 'route', where)
                        if got[0] != 'ok':
                            continue
                        changed = any(maps) or bool(kws)
                        if got[1] is src:
                            ctx.expect(cls.is_frozen() and isinstance(src, cls) and not changed, 'identity', lambda: where() + ' is the source itself')
                        else:
                            exp = dict(v)
                            if 'q' in cls._fields:
                                exp['q'] = 1
                            for m in maps:
                                exp.update(m)
                            exp.update(kws)
                            ctx.expect(type(got[1]) is cls and got[1] == cls(**exp), 'route', lambda: where() + f', expected {exp}')
        # an instance of another class that has the same fields is converted
        L = mk('L', {'x': object, 'y': object, 'z': object}, {'y': 0}, frozen=True)
        r = attempt(K.from_instance, L(**v))
        ctx.expect(r[0] == 'ok' and type(r[1]) is K and r[1] == K(**v), 'route', lambda: f'{c}: from an instance of a lookalike: {show(r)}')


def agree_instance(ctx, where, got, exp, K, d):
    """like agree; attributes equal to a plain default may be replaced by it"""
    ctx.op()
    ctx.trace()
    if exp[0] == 'ok':
        same_ = got[0] == 'ok' and (canon(got[1]) == canon(exp[1]) or type(got[1]) is type(exp[1]) and got[1] == exp[1] or d.get('y') in (0, False))
        ctx.expect(same_, 'route', lambda: f'{where()}: {show(got)}, keyword construction gives {show(exp)}')
    elif type(exp[1]) is KeyError or exp[0] == 'err':
        ctx.expect(got[0] == 'err', 'route-error', lambda: f'{where()}: {show(got)}, keyword construction gives {show(exp)}')


class A1(RecordBase):
    """a, b and c all optional"""
    a: object = NODEF
    b: object = NODEF
    c: object = NODEF


class A2(RecordBase, frozen=True):
    a: object
    b: object
    c: object = NODEF


class A3(A2):
    pass


def named(E):
    out = set()
    for kind, x in E:
        if kind in ('rename', 'maybe_rename'):
            out |= {x[0]}
        elif kind in ('remove', 'maybe_remove'):
            out |= {x}
    return out


def select(ctx, E):
    keys = 'abcw'
    for n in range(5):
        for s in itertools.combinations(keys, n):
            m = {k: k.upper() for k in s}
            for K in (A1, A2, A3):
                exp = attempt(lambda: K(**model(E, m)))
                sel = Select(**kwargs(E, 'list'))
                for how, src, f in (('mapping', dict(m), K.from_mapping.select(sel)), ('proxy', _types.MappingProxyType(m), K.from_mapping.select(sel)), ('json', json.dumps(m), K.from_json.select(sel)),
                                    ('file', io.StringIO(json.dumps(m)), K.from_json_io.select(sel))):
                    agree(ctx, lambda: f'{K.__name__}, {E}: {how} {m}', attempt(f, src), exp, strict=exp[0] == 'ok' or type(exp[1]) is not Either)
                    if how == 'mapping':
                        ctx.expect(src == m, 'input-changed', lambda: f'{E}: the mapping {m} became {src}')
                agree(ctx, lambda: f'{K.__name__}, {E}: keywords {m}', attempt(lambda: K.from_mapping.select(sel)(**m)), exp, strict=exp[0] == 'ok' or type(exp[1]) is not Either)
                # the same data as attributes
                log = []
                o = Obj(m, log)
                added = {k for kind, (k, *_) in ((kind, x if isinstance(x, tuple) else (x,)) for kind, x in E) if kind == 'add'}
                data = {k: v for k, v in m.items() if (k in K._fields or k in named(E)) and (k not in added or k in named(E))}
                iexp = attempt(lambda: K(**model(E, data)))
                got = attempt(K.from_instance.select(sel), o)
                where = lambda: f'{K.__name__}, {E}: object with {m}: {show(got)}'
                ctx.op()
                ctx.state(E, s, K.__name__)
                allowed = (set(K._fields) - added) | named(E)
                ctx.expect(set(log) <= allowed, 'reads', lambda: where() + f' read {set(log) - allowed}')
                if iexp[0] == 'ok':
                    # unless an attribute is missing altogether, the outcome is that of the mapping
                    ctx.expect(got[0] == 'ok' and canon(got[1]) == canon(iexp[1]), 'route', lambda: where() + f', expected {show(iexp)}')
                else:
                    ctx.expect(got[0] == 'err', 'route-error', lambda: where() + f', expected an error like {show(iexp)}')
                # an instance of the class itself, or of an heir
                own = attempt(lambda: K(**m))
                for i in ([own[1]] + ([A3(**m)] if K is A2 else [])) if own[0] == 'ok' else ():
                    data = {k: getattr(i, k) for k in K._fields if (k in named(E) or getattr(i, k) is not NODEF) and (k not in added or k in named(E))}
                    iexp = attempt(lambda: K(**model(E, data)))
                    got = attempt(K.from_instance.select(sel), i)
                    where = lambda: f'{K.__name__}, {E}: {i}: {show(got)}'
                    ctx.op()
                    if iexp[0] == 'ok':
                        ctx.expect(got[0] == 'ok' and type(got[1]) in (K, type(i)) and all(getattr(got[1], k) is getattr(iexp[1], k) for k in K._fields), 'route', lambda: where() + f', expected {show(iexp)}')
                    else:
                        ctx.expect(got[0] == 'err', 'route-error', lambda: where() + f', expected an error like {show(iexp)}')
    ctx.trace()


FIELD_NAMES = ['v', '_select', 'maps', 'kwargs', 'args', 'kw', 'm', 'd', 'k', 'x', 'obj', 'instance', 'owner', 'owner_cls', 'func', 'select_', 'mapping', 'descriptor', 'value', 'values', 'key', 'keys_to_add', 'include_defaults', 'sort', 'blacklist_tags',
               'whitelist_keys', '_rev_select', 'io', 'name', 'f', 'tags', 'default', 'filler', 'field', 'export_args', 'parsing', 'replacement', 'required', 'selects', 'others', 'type', 'dict', 'object', 'class_', '__x', 'maps_', 'items', 'keys', 'get', 'update', 'pop', 'copy']


def names(ctx):
    """fields named like the things the library itself has names for"""
    for nm in FIELD_NAMES:
        for fz, opt in itertools.product((False, True), repeat=2):
            r = attempt(lambda: mk('K', {nm: object, 'other': object}, {'other': 0, **({nm: 1} if opt else {})}, frozen=fz))
            if r[0] == 'err' or list(r[1]._fields) != [nm, 'other']:
                continue
            K = r[1]
            src = lambda **kw: type('Src', (), {'__slots__': (), '__getattr__': lambda s, n: kw[n] if n in kw else (_ for _ in ()).throw(AttributeError(n))})()
            one, both = {nm: 5}, {nm: 5, 'other': 6}
            routes = [('from_mapping', lambda: K.from_mapping(both), both), ('from_mapping keywords', lambda: K.from_mapping(**both), both), ('from_mapping mixed', lambda: K.from_mapping({'other': 6}, **one), both),
                      ('from_mapping selected', lambda: K.from_mapping.select(keys_to_add=one)({'other': 6}), both), ('from_mapping selected keywords', lambda: K.from_mapping.select(keys_to_rename={'zz': nm})(zz=5, other=6), both),
                      ('from_instance', lambda: K.from_instance(src(**both)), both), ('from_instance mapping', lambda: K.from_instance(src(**{**both, nm: 4}), one), both), ('from_instance keywords', lambda: K.from_instance(src(**{**both, nm: 4}), **one), both),
                      ('from_instance mapping and keywords', lambda: K.from_instance(src(**{**both, nm: 4}), {nm: 3}, **one), both), ('from_instance selected keywords', lambda: K.from_instance.select(keys_to_maybe_remove='zz')(src(**{**both, nm: 4}), **one), both),
                      ('from_instance of an instance', lambda: K.from_instance(K(**{nm: 4}), other=6, **one), both), ('from_instance selected', lambda: K.from_instance.select(keys_to_rename={'zz': nm})(src(zz=5, other=6)) if opt else K(**both), both),
                      ('from_json', lambda: K.from_json(json.dumps(both)), both), ('from_json_io', lambda: K.from_json_io(io.StringIO(json.dumps(one))), one), ('from_json selected', lambda: K.from_json.select(keys_to_add=one)('{"other": 6}'), both),
                      ('parse', lambda: K.parse(both) if not opt and not hasattr({}, nm) else K(**both), both), ('parse json', lambda: K.parse(json.dumps(both)) if not opt and not hasattr('', nm) else K(**both), both)]
            for what, f, d in routes:
                exp, got = attempt(lambda: K(**d)), attempt(f)
                ctx.op()
                ctx.state('names', nm, fz, opt, what)
                key = f'from-instance-keyword-{nm}' if nm in ('v', '_select') and 'from_instance' in what and 'keywords' in what or nm in ('v', '_select') and what == 'from_instance of an instance' else 'names'
                ctx.expect(got[0] == 'ok' and exp[0] == 'ok' and type(got[1]) is K and vars(got[1]) == vars(exp[1]), key, lambda: f'a field {nm!r} (frozen={fz}, optional={opt}), {what}: {show(got)}, keyword construction gives {show(exp)}')
    ctx.trace()

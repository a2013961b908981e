"""C24: tokens added in pre_bind (at every address) against the model of the annotation with the token written at that address."""
from mc import wide
from mc.alpha import *
from mc.fieldcheck import *
from records import CallCoercion, CallValidation, AssertCallValidation  # noqa

BOUNDS = dict(quick=wide.TEXT + '; ' + '25 field types x 3 default styles x all sequences of up to 2 additions over (every valid address) x 6 tokens, up to 3 additions over 3 tokens, ways of adding in rotation; every pair of decorators obtained first and used up to 3 times in every order; every invalid address and late addition, also to classes that are false, empty or equal to None; all values of an alphabet per type',
              thorough='all sequences of up to 3 additions over 5 tokens')
RULE = 'one case = field type, default style and first addition'

I, S, F = ('c', 'int'), ('c', 'str'), ('c', 'float')
SHAPES = [
    (I, ()), (('any',), ()), (('newtype', I), ()), (('lit', 1, 'a'), ()), (('ann', I, 'strict'), ()),
    (('u', I, S), (0, 1)), (('u', I, ('none',)), (0, 1)), (('u', I, S, ('none',)), (0, 1, 2)), (('u', ('ann', I, 'strict'), ('ann', F, 'check')), (0, 1)), (('u', I, ('seq', 'List', I)), (0, 1)),
    (('tup', I, S), (0, 1)), (('tup', I, I, I), (0, 1, 2)), (('tup', ('seq', 'List', I), ('u', I, S)), (0, 1)), (('vtup', I), (0,)), (('vtup', ('u', I, S)), (0,)),
    (('seq', 'List', I), (0,)), (('seq', 'list', S), (0,)), (('seq', 'Set', I), (0,)), (('seq', 'Deque', I), (0,)), (('seq', 'Sequence', I), (0,)), (('newtype', ('seq', 'List', I)), (0,)), (('ann', ('newtype', ('seq', 'List', ('ann', I, 'check'))), 'check'), (0,)),
    (('ann', ('tup', ('ann', I, 'strict'), ('ann', S, 'check')), 'check'), (0, 1)),
    (('map', 'Dict', S, I), (0, 1)), (('map', 'Mapping', I, ('seq', 'List', I)), (0, 1)),
]


def v1(v):
    if isinstance(v, (int, float)):
        return v + 100
    if isinstance(v, (str, list, tuple)):
        return v + v[:1]
    if isinstance(v, dict):
        return {**v, **{k: v[k] for k in v}}
    if isinstance(v, set):
        return v | v
    return v


def v2(v):
    if isinstance(v, int) and v >= 2 or v == 'a' or v == []:
        raise ValueError(v)
    return v


def c1(v):
    return int(v)


def c2(v):
    if isinstance(v, (int, float)):
        return str(v)
    return list(v)


TABLE = {'v1': v1, 'v2': v2, 'a1': lambda v: bool(v), 'a2': lambda v: v != 1 and v != '1', 'c1': c1, 'c2': c2}
TOKENS = [('V', 'v1'), ('V', 'v2'), ('A', 'a1'), ('A', 'a2'), ('C', 'c1'), ('C', 'c2')]
SCALARS = atoms('0', '1', '2', 'True', 'MyInt1', "'a'", "''", "'1'", 'None', '1.5', 'nan', '[]', '(1,)', "['a']", '[1]')


def values(spec):
    while spec[0] in ('newtype', 'ann'):
        spec = spec[1]
    el = atoms('1', '2', "'1'", "'x'")
    if spec[0] == 'tup':
        first = atoms('1', '5', "'1'") if False else atoms('1', '2', "'1'")
        if spec[1][0] == 'seq':
            first = [('[]', list), ('[1,2]', lambda: [1, 2]), ("'12'", lambda: '12')]
        out = [(f'({a[0]},{b[0]})', lambda a=a, b=b: (a[1](), b[1]())) for a in first for b in atoms('1', "'a'", "'1'", 'None')] if len(spec) == 3 else \
              [(f'({a[0]},{b[0]},{c[0]})', lambda a=a, b=b, c=c: (a[1](), b[1](), c[1]())) for a in first for b in first for c in atoms('0', '2', "'1'")]
        return out + [('()', tuple), ('[1,2]', lambda: [1, 2]), ('5', lambda: (1, 2, 3, 4, 5))]
    if spec[0] == 'vtup':
        return list(seqs(el, ['tuple'], 0, 2)) + [('[1]', lambda: [1]), ("'1'", lambda: '1')]
    if spec[0] == 'seq':
        con = {'Set': 'set', 'Deque': 'deque'}.get(spec[1], 'list')
        return list(seqs(el, [con], 0, 2)) + list(seqs(el[:2], ['tuple'], 0, 1)) + [("'12'", lambda: '12'), ('1', lambda: 1)]
    if spec[0] == 'map':
        k = atoms("'a'", '1', "'1'")
        v = atoms('1', "'1'", 'None') if spec[3] == I else [('[]', list), ('[1]', lambda: [1]), ("'1'", lambda: '1')]
        return list(maps(k, v, ['dict'], 0, 1)) + list(maps(k[:2], v[:2], ['dict', 'OrderedDict'], 2, 2)) + [('None', lambda: None), ("[(1,1)]", lambda: [(1, 1)])]
    return SCALARS


def place(s, key, tok):
    """the specification with the token written at the address"""
    if key is None:
        return ('ann', s, tok) if s[0] != 'ann' else s + (tok,)
    if s[0] in ('ann', 'newtype'):
        return (s[0], place(s[1], key, tok)) + s[2:]
    pos = key + (2 if s[0] in ('seq', 'map') else 1)
    return s[:pos] + (place(s[pos], None, tok),) + s[pos + 1:]


def additions(keys, toks):
    return [(k, t) for k in (None,) + tuple(keys) for t in toks]


def specified(spec, seq):
    """the order of tokens of the same kind added to a union and to its alternatives is not specified"""
    while spec[0] in ('newtype', 'ann'):
        spec = spec[1]
    if spec[0] != 'u':
        return True
    whole = {t[0] == 'C' for k, t in seq if k is None}
    return not any((t[0] == 'C') in whole for k, t in seq if k is not None)


def undefined(spec, seq):
    """what validators do on unions and elements that are not checked at all is not specified (see the known finding of C07)"""
    while spec[0] in ('newtype', 'ann'):
        spec = spec[1]
    return spec[0] == 'u' or any(k is not None and t[0] != 'C' for k, t in seq)


def cases(tier):
    yield from wide.cases('C24', tier)
    for n, (spec, keys) in enumerate(SHAPES):
        for default in ('check', 'strict', 'hollow'):
            if default == 'strict' and spec[1:2] in (('Sequence',), ('Mapping',)):
                continue  # abstract types cannot be checked strictly
            for a in additions(keys, TOKENS):
                yield 'add', n, default, a, tier == 'thorough'
            yield 'bad', n, default, 0, 0
    yield 'inherit', 0, 0, 0, 0
    yield 'kwargs', 0, 0, 0, 0
    for n in range(len(SHAPES)):
        for default in ('check', 'hollow'):
            yield 'falsy', n, default, 0, 0
    for n in range(len(SHAPES)):
        for default in ('check', 'hollow'):
            yield 'decorators', n, default, 0, 0


def run(case, ctx):
    if case[0] == '__wide__':
        return wide.run('C24', ctx, case[1])
    kind, n, default, first, deep = case
    if kind == 'inherit':
        return inherit(ctx)
    if kind == 'kwargs':
        return kwargs(ctx)
    spec, keys = SHAPES[n]
    if kind == 'falsy':
        return falsy(ctx, spec, keys, default)
    if kind == 'decorators':
        return decorators(ctx, spec, keys, default)
    if kind == 'bad':
        return bad(ctx, spec, keys, default)
    adds = additions(keys, TOKENS)
    i = adds.index(first)
    for seq in [(first,)] + [(first, b) for b in adds]:
        i += 1
        one(ctx, spec, default, seq, i)
    if first[1] in TOKENS[:5:2] or deep:
        few = additions(keys, TOKENS[:5] if deep else TOKENS[:5:2])
        for b in few:
            for c in few:
                i += 1
                one(ctx, spec, default, (first, b, c), i, 3)


WAYS = 4


def add(field, env, key, tok, way, ctx):
    """add one token, in one of the ways"""
    kind, name = tok
    f = lambda v: env.call(name, v)
    m = {'V': field.add_validator, 'A': field.add_assert_validator, 'C': field.add_coercer}[kind]
    kw = {} if key is None and way % 2 else dict(sub_key=key)
    if way == 0:
        r = m(f, **kw)
    elif way == 1:
        r = m(f) if not kw else m(**kw)(f)
    elif way == 2:
        @m(**kw)
        def deco(v):
            return env.call(name, v)
        ctx.expect(callable(deco) and deco.__name__ == 'deco', 'returned', 'the decorated function was replaced')
        return
    else:
        r = m(**kw)(f) if kw else m()(f)
    ctx.expect(r is f, 'returned', lambda: f'adding {tok} at {key} (way {way}) returned {r!r}, not the function')


def one(ctx, spec, default, seq, i, step=1):
    if not specified(spec, seq) or default == 'hollow' and undefined(spec, seq):
        return
    env = Env(TABLE)
    placed = spec
    for k, t in seq:
        placed = place(placed, k, t)
    try:
        node, derr = compile(placed, default, env), None
    except DeclError as e:
        node, derr = None, e.exc
    hint = annotation(spec, env)
    order = list(seq)

    def pre_bind(cls):
        for n, (k, t) in enumerate(order):
            add(cls.x, env, k, t, (i + n) % WAYS, ctx)
    before = mk('Before', {'x': hint}, default_type_check=STYLES[default])
    r = attempt(mk, 'K', {'w': hint, 'x': hint, 'y': hint}, {'w': None, 'y': None}, {'pre_bind': classmethod(pre_bind)}, default_type_check=STYLES[default])
    ctx.op()
    where = f'{short(spec)} default {default} additions {seq}'
    if derr is not None:
        ctx.outcome('declaration rejected')
        ctx.expect(r[0] == 'err' and isinstance(r[1], (TypeError, ValueError)), 'declaration-accepted', lambda: f'{where}: the declaration has to be rejected')
        return
    if r[0] != 'ok':
        ctx.fail('declaration-rejected', f'{where}: {show(r)}')
        return
    cls = r[1]
    plain = compile(spec, default, env)
    vals = values(spec)
    mapping = 'map' in str(spec)
    for label, make in vals:
        check_value(ctx, cls, node, env, label, make, (spec, default, seq), 'projected' if mapping else 'exact')
    # nothing else is affected: other fields of the class, classes with the very same annotation
    after = mk('After', {'x': hint}, default_type_check=STYLES[default])
    for label, make in vals[i % 3::3]:
        check_value(ctx, after, plain, env, label, make, ('another class after', spec, default, seq))
        check_value(ctx, before, plain, env, label, make, ('another class before', spec, default, seq))
        for f in ('w', 'y'):
            ok = attempt(cls._fields[f].filler, make())
            exp = attempt(before._fields['x'].filler, make())
            ctx.op()
            ctx.expect(ok[0] == exp[0] and (ok[0] == 'err' or same(ok[1], exp[1])), 'other-field', lambda: f'{where}: {f} = {label}: {show(ok)}, expected {show(exp)}')
    ctx.state(spec, default, seq)
    ctx.expect(not env.take(), 'other-field', lambda: f'{where}: callbacks were called for other fields')


def decorators(ctx, spec, keys, default):
    """a decorator obtained once adds one token per use, wherever it was made for; obtaining it adds nothing"""
    for kinds in itertools.product('VAC', repeat=2):
        for ks in itertools.product((None,) + keys, repeat=2):
            for uses in ((0, 0), (0, 1), (1, 0), (0, 1, 0), (1, 1), (0,), ()):
                names = {'V': ('v1', 'v2', 'v1'), 'A': ('a1', 'a2', 'a1'), 'C': ('c1', 'c2', 'c1')}
                seq = [(ks[u], (kinds[u], names[kinds[u]][n])) for n, u in enumerate(uses)]
                if not specified(spec, seq) or default == 'hollow' and undefined(spec, seq):
                    continue
                env = Env(TABLE)
                placed = spec
                for k, t in seq:
                    placed = place(placed, k, t)
                try:
                    node, derr = compile(placed, default, env), None
                except DeclError as e:
                    node, derr = None, e.exc

                def pre_bind(cls):
                    m = {'V': cls.x.add_validator, 'A': cls.x.add_assert_validator, 'C': cls.x.add_coercer}
                    decos = [m[t](sub_key=k) for t, k in zip(kinds, ks)]
                    for u, (k, (t, name)) in zip(uses, seq):
                        f = lambda v, name=name: env.call(name, v)
                        ctx.expect(decos[u](f) is f, 'returned', 'the decorated function was replaced')
                hint = annotation(spec, env)
                r = attempt(mk, 'K', {'x': hint}, {}, {'pre_bind': classmethod(pre_bind)}, default_type_check=STYLES[default])
                ctx.op()
                ctx.state('decorators', spec, default, kinds, ks, uses)
                where = f'{short(spec)} default {default} decorators {kinds} at {ks} used {uses}'
                if derr is not None:
                    ctx.expect(r[0] == 'err' and isinstance(r[1], (TypeError, ValueError)), 'declaration-accepted', lambda: f'{where}: the declaration has to be rejected')
                    continue
                if r[0] != 'ok':
                    ctx.fail('declaration-rejected', f'{where}: {show(r)}')
                    continue
                for label, make in values(spec):
                    check_value(ctx, r[1], node, env, label, make, where, 'projected')


def bad(ctx, spec, keys, default):
    n = len(keys)
    inner = spec
    while inner[0] in ('ann', 'newtype'):
        inner = inner[1]
    bads = [n if n else 0, n + 1, n + 7, 'x', 'value', '0', 1.5, (0,), object()]
    env = Env(TABLE)
    hint = annotation(spec, env)
    raised = []

    def tries(field, ks):
        for k in ks:
            for tok in TOKENS[:1] + TOKENS[2:3] + TOKENS[4:5]:
                for way in range(WAYS):
                    r = attempt(add, field, env, k, tok, way, ctx)
                    raised.append((k, tok, way, r))

    def pre_bind(cls):
        tries(cls.x, bads)
    node = compile(spec, default, env)
    r = attempt(mk, 'K', {'x': hint}, body={'pre_bind': classmethod(pre_bind)}, default_type_check=STYLES[default])
    if r[0] != 'ok':
        ctx.fail('bad-key', f'{spec} {default}: refused additions broke the declaration: {show(r)}')
        return
    cls = r[1]
    ctx.expect(len(raised) == len(bads) * 3 * WAYS, 'bad-key', 'pre_bind was not called once')

    def verify(what):
        for k, tok, way, r in raised:
            ctx.op()
            ctx.expect(r[0] == 'err', 'bad-key', lambda: f'{spec} {default}: {what}: adding {tok} at {k!r} (way {way}) was accepted')
        for label, make in values(spec):
            check_value(ctx, cls, node, env, label, make, (what, spec, default), 'projected')
        ctx.expect(not env.take(), 'bad-key', lambda: f'{what}: refused callbacks were called')
    verify('non-existent part')
    raised.clear()
    for f in (cls.x, cls._fields['x']):
        tries(f, (None,) + keys)
    verify('after the declaration')
    cls(x=values(spec)[0][1]()) if False else None
    raised.clear()
    for label, make in values(spec)[:3]:
        attempt(cls, x=make())
    tries(cls.x, (None,) + keys + (n + 2,))
    verify('after use')
    # an error in pre_bind propagates

    def pb(cls):
        cls.x.add_validator(v1, sub_key='nope')
    r = attempt(mk, 'K2', {'x': hint}, body={'pre_bind': classmethod(pb)}, default_type_check=STYLES[default])
    ctx.expect(r[0] == 'err', 'bad-key', f'{spec} {default}: a bad sub-key is ignored')
    ctx.state('bad', spec, default)


def falsy(ctx, spec, keys, default):
    """additions are refused after the declaration whatever the class is: also a class that is false, empty, or equal to nothing"""
    for how in ({'__bool__': lambda c: False}, {'__len__': lambda c: 0}, {'__eq__': lambda c, o: o is None, '__hash__': type.__hash__}):
        meta = type('Meta', (type,), how)
        env = Env(TABLE)
        hint = annotation(spec, env)
        node = compile(spec, default, env)
        r = attempt(lambda: meta('K', (RecordBase,), {'__annotations__': {'x': hint}}, default_type_check=STYLES[default]))
        if r[0] != 'ok':
            ctx.fail('bad-key', f'{short(spec)} {default}: a class with a metaclass of {sorted(how)} cannot be declared: {show(r)}')
            return
        for key in (None,) + keys:
            for n, tok in enumerate(TOKENS):
                a = attempt(add, r[1].x, env, key, tok, n % WAYS, ctx)
                ctx.op()
                ctx.expect(a[0] == 'err', 'bad-key', lambda: f'{short(spec)} {default}: adding {tok} at {key} after the declaration was accepted for a class whose metaclass defines {sorted(how)}')
        for label, make in values(spec):
            check_value(ctx, r[1], node, env, label, make, ('falsy class', spec, default), 'projected')
        ctx.expect(not env.take(), 'bad-key', lambda: f'{short(spec)} {default}: refused callbacks were called')
        ctx.state('falsy', spec, default, sorted(how))


def inherit(ctx):
    """a child cannot add tokens to its parent's fields, but to its own"""
    for toks in itertools.product(TOKENS, repeat=2):
        for key in (None, 0):
            env = Env(TABLE)
            P = mk('P', {'a': annotation(('seq', 'List', I), env)}, default_type_check=check)
            got = []

            def pre_bind(cls):
                got.append(attempt(add, cls.a, env, key, toks[0], 0, ctx))
                got.append(attempt(add, cls._fields['a'], env, key, toks[1], 0, ctx))
                add(cls.b, env, key, toks[1], 2, ctx)
            r = attempt(mk, 'Q', {'b': annotation(('seq', 'List', I), env)}, body={'pre_bind': classmethod(pre_bind)}, bases=(P,), default_type_check=check)
            ctx.op()
            ctx.expect(r[0] == 'ok' and [g[0] for g in got] == ['err', 'err'], 'inherited-field', lambda: f'{toks} {key}: {show(r)} {[show(g) for g in got]}')
            Q = r[1]
            node = compile(place(('seq', 'List', I), key, toks[1]), 'check', env)
            plain = compile(('seq', 'List', I), 'check', env)
            for label, make in values(('seq', 'List', I)):
                check_value(ctx, P, plain, env, label, make, ('parent', toks, key), name='a')
                for cls, base in ((Q, {'a': [1]}),):
                    v = make()
                    m = Model(env)
                    try:
                        exp = 'ok', m.fill(node, v)[0]
                    except Reject:
                        exp = 'err', None
                    r = attempt(cls, a=[1], b=v)
                    ctx.op()
                    ctx.expect(r[0] == exp[0] and (exp[0] == 'err' or m.agrees(r[1].b, exp[1]) and same(r[1].a, [1])) and env.take() is not None, 'inherited-field', lambda: f'{toks} {key} {label}: {show(r)} expected {exp}')
            ctx.state('inherit', toks, key)
            ctx.trace()


def kwargs(ctx):
    """keyword arguments are forwarded to the token"""
    import logging
    import warnings
    for key in (None, 0):
        rec = []

        class H(logging.Handler):
            def emit(self, record):
                rec.append(record.getMessage())
        logger = logging.Logger('c24')
        logger.addHandler(H())

        class K(RecordBase, default_type_check=check):
            x: list = Factory(list)
            a: typing.List[int] = Factory(list)
            b: typing.List[int] = Factory(list)
            c: typing.List[int] = Factory(list)
            d: typing.List[int] = Factory(list)
            e: typing.List[int] = Factory(list)

            @classmethod
            def pre_bind(cls):
                def bump(v, by=1, sub=0):
                    return [e + by - sub for e in v] if isinstance(v, list) else v + by - sub
                assert cls.a.add_validator(bump, sub_key=key, by=10) is bump

                @cls.a.add_validator(sub_key=key, sub=3, by=0)
                def second(v, **k):
                    return bump(v, **k)

                @cls.b.add_coercer(sub_key=key, base=16)
                def hexa(v, base):
                    return [int(v, base)] if key is None else int(v, base)
                assert cls.c.add_assert_validator(any if key is None else bool, sub_key=key, err=KeyError('mine')) is (any if key is None else bool)
                cls.d.add_assert_validator(sub_key=key, warn=True, err='oops')(any if key is None else bool)
                cls.e.add_assert_validator(any if key is None else bool, warn=logger, sub_key=key, err='oops')
        outs = [attempt(lambda: K(a=[1, 2]).a), attempt(lambda: K(b='ff' if key is None else ['f', '10', 3]).b), attempt(lambda: K(c=[0])), attempt(lambda: K(c=[5]).c)]
        exp = [('ok', [8, 9]), ('ok', [255] if key is None else [15, 16, 3]), None, ('ok', [5])]
        for o, e in zip(outs, exp):
            ctx.op()
            ctx.expect(o == e if e else o[0] == 'err' and type(o[1].__cause__) is KeyError, 'kwargs', lambda: f'{key}: {show(o)}, expected {e}')
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter('always')
            r = attempt(lambda: K(d=[0]).d)
            ctx.expect(r == ('ok', [0]) and [str(x.message) for x in w] == ['oops'], 'kwargs', lambda: f'{key}: {show(r)} {w}')
        r = attempt(lambda: K(e=[0]).e)
        ctx.expect(r == ('ok', [0]) and len(rec) == 1, 'kwargs', lambda: f'{key}: {show(r)} {rec}')
        ctx.state('kwargs', key)
    ctx.trace()

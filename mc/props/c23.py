"""C23: all small class hierarchies, every class observed after every declaration and compared with a model of it."""
import itertools

from mc import wide
from mc.lib import *  # noqa
from records import CallCoercion, CallValidation, exclude_from_ordering, parser
from typing import ClassVar, List

BOUNDS = dict(quick=wide.TEXT + '; ' + 'all inheritance shapes (no, one, or an ordered pair of earlier classes as bases) of up to 3 classes x 9 class configurations each, of 4 classes x 3 configurations; every class probed after every declaration',
              thorough='4 classes x 5 configurations')
RULE = 'one case = shape and configuration of the first classes'

# name -> (style, frozen, ordered, own fields [(name or None, kind)], parser?, mixin position)
CONFIGS = {
    'A': ('hollow', False, False, 'pd', False, None),
    'B': ('check', True, True, 'pv', True, None),
    'C': ('strict', False, True, 'dp', False, 'first'),
    'D': ('hollow', True, False, 'cf', True, 'last'),
    'E': ('check', False, False, 'tq', False, None),
    'F': ('strict', True, False, '', False, None),
    'G': ('check', True, True, 'xp', True, None),
    'X': ('check', False, True, '!p', False, None),
    'Y': ('hollow', True, False, 'l', False, None),
}
TAG = Tag('t')


class Mixin:
    """a plain class: its annotations are no fields"""
    attr: int = 3
    other: str

    def method(self):
        return type(self).__name__, 'mixin'


def kind(k):
    """annotation, default"""
    return {'p': (int, NODEF), 'd': (int, 7), 'v': (Annotated[int, check, CallValidation(lambda v: v * 2)], NODEF), 'c': (Annotated[int, check, CallCoercion(int)], NODEF), 'f': (list, Factory(list)),
            't': (Annotated[int, TAG], NODEF), 'q': (Annotated[int, check_strict], 9), 'x': (Annotated[int, exclude_from_ordering], NODEF), '!': (int, 0), 'l': (List[int], NODEF)}[k]


def expected(k, style, v):
    def chk(t, st):
        if st == 'hollow' or type(v) is t or (st == 'check' and isinstance(v, t)):
            return 'ok', v
        return 'err', TypeError
    if k in 'pdtx!':
        return chk(int, style)
    if k == 'f':
        return chk(list, style)
    if k == 'l':
        r = chk(list, style)
        if r[0] == 'ok' and isinstance(v, list) and style != 'hollow' and not all(type(e) is int or style == 'check' and isinstance(e, int) for e in v):
            return 'err', TypeError
        return r
    if k == 'q':
        return chk(int, 'strict')
    if k == 'v':
        r = chk(int, 'check')
        return ('ok', v * 2) if r[0] == 'ok' else r
    r = chk(int, 'check')
    if r[0] == 'ok':
        return r
    try:
        return 'ok', int(v)
    except Exception as e:
        return 'err', type(e)


PROBES = [5, True, MyInt(3), 'x', '8', None, [], [1], ['a']]


def good(k):
    return [2] if k in 'fl' else 4


SHAPE = {0: [()], 1: [(), (0,)], 2: [(), (0,), (1,), (0, 1), (1, 0)], 3: [(), (0,), (1,), (2,)] + list(itertools.permutations(range(3), 2))}


def cases(tier):
    yield from wide.cases('C23', tier)
    for n in (1, 2, 3):
        for shapes in itertools.product(*(SHAPE[i] for i in range(n))):
            for c in CONFIGS:
                if n < 3:
                    yield shapes, (c,), tuple(CONFIGS)
                else:
                    for d in CONFIGS:
                        yield shapes, (c, d), tuple(CONFIGS)
    cf = ('B', 'A', 'F', 'X', 'D') if tier == 'thorough' else ('B', 'C', 'F')
    for shapes in itertools.product(*(SHAPE[i] for i in range(4))):
        for c in cf:
            for d in cf:
                yield shapes, (c, d), cf
    yield 'prebind', 0, 0
    yield 'local', 0, 0
    yield 'plain', 0, 0


class Model:
    def __init__(self, i, cfg, bases):
        style, frozen, ordered, kinds, prs, mixin = CONFIGS[cfg]
        self.i, self.cfg, self.frozen, self.ordered, self.style, self.mixin = i, cfg, frozen, ordered, style, mixin
        own = [('f0_0' if k == '!' and i else f'f{i}_{n}', k, style) for n, k in enumerate(kinds)]
        names = [f[0] for b in bases for f in b.fields] + [f[0] for f in own]
        self.fields = [f for b in bases for f in b.fields] + own
        self.own = own
        self.rejected = len(set(names)) < len(names) or not names
        self.parsers = set().union(*[b.parsers for b in bases]) | ({i} if prs else set())
        self.hasmixin = bool(mixin) or any(b.hasmixin for b in bases)


def declare(m, bases):
    body = {}
    if CONFIGS[m.cfg][4]:
        def f(cls, v, i=m.i):
            if v != ('mark', i):
                raise ValueError
            return ('parsed', cls.__name__, i)
        body[f'parse_{m.i}'] = parser(classmethod(f))

        def g(v, i=m.i):
            if v != ('static mark', i):
                raise ValueError
            return ('parsed', None, i)
        body[f'static_{m.i}'] = parser(staticmethod(g))
    b = list(bases) or [RecordBase]
    if m.mixin == 'first':
        b.insert(0, Mixin)
    elif m.mixin == 'last':
        b.append(Mixin)
    return mk(f'K{m.i}', [(n, kind(k)[0]) for n, k, _ in m.own], {n: kind(k)[1] for n, k, _ in m.own if kind(k)[1] is not NODEF}, body=body, bases=b,
              frozen=m.frozen, ordered=m.ordered, default_type_check=STYLES[m.style])


def run(case, ctx):
    if case[0] == '__wide__':
        return wide.run('C23', ctx, case[1])
    if case[0] == 'prebind':
        return prebind(ctx)
    if case[0] == 'local':
        return local(ctx)
    if case[0] == 'plain':
        return plain(ctx)
    shapes, first, pool = case
    n = len(shapes)
    for rest in itertools.product(pool, repeat=n - len(first)):
        cfgs = first[:n] + rest
        classes, models = [], []
        done = True
        for i in range(n):
            if any(classes[j] is None for j in shapes[i]):
                done = False
                break
            m = Model(i, cfgs[i], [models[j] for j in shapes[i]])
            r = attempt(declare, m, [classes[j] for j in shapes[i]])
            ctx.op()
            where = f'shapes {shapes[:i + 1]} configurations {cfgs[:i + 1]}'
            if r[0] == 'err':
                # an impossible method resolution order (a mixin or base before its own subclass) is rejected by Python itself
                mro = isinstance(r[1], TypeError) and 'method resolution' in str(r[1])
                ctx.expect(m.rejected or mro, 'rejected', lambda: f'{where}: {show(r)}')
                ctx.outcome('rejected')
                classes.append(None)
                models.append(None)
            else:
                ctx.expect(not m.rejected, 'accepted', lambda: f'{where}: accepted with fields {list(r[1]._fields)}')
                classes.append(r[1])
                models.append(m)
            # every class is used after every declaration; the latest first
            for j in [i] + list(range(i)):
                if classes[j] is not None and (j == i or j in (0, i - 1) or n < 4):
                    observe(ctx, where, j, classes, models)
        ctx.trace()
        ctx.state(shapes, cfgs)
        ctx.outcome(('complete', done, sum(c is None for c in classes)))


def observe(ctx, where, j, classes, models):
    cls, m = classes[j], models[j]
    w = lambda: f'{where}: class {j} ({m.cfg})'
    names = [f[0] for f in m.fields]
    ctx.expect(list(cls._fields) == names, 'fields', lambda: f'{w()}: fields {list(cls._fields)}, expected {names}')
    ctx.expect(cls.is_frozen() is m.frozen and cls.default_type_check_style() is STYLES[m.style], 'flags', w)
    req = [f for f in m.fields if kind(f[1])[1] is NODEF]
    base = {n: good(k) for n, k, _ in req}
    vals = {}
    for n, k, s in m.fields:
        d = kind(k)[1]
        vals[n] = (d.func() if isinstance(d, Factory) else d) if d is not NODEF else expected(k, s, good(k))[1]
    r = attempt(cls, **base)
    ctx.op()
    if r[0] != 'ok':
        ctx.fail('construct', f'{w()}: {show(r)}')
        return
    inst = r[1]
    ctx.expect(type(inst) is cls and same(vars_of(inst, names), vals) and list(cls.to_dict(inst, include_defaults=True)) == names, 'construct', lambda: f'{w()}: {vars(inst)}, expected {vals}')
    for n, k, s in req:
        r = attempt(cls, **{x: v for x, v in base.items() if x != n})
        ctx.op()
        ctx.expect(r[0] == 'err' and isinstance(r[1], TypeError), 'missing', lambda: f'{w()}: without {n}: {show(r)}')
    for n, k, s in m.fields:
        for v in PROBES:
            exp = expected(k, s, v)
            r = attempt(cls, **{**base, n: v})
            ctx.op()
            if exp[0] == 'ok':
                ctx.expect(r[0] == 'ok' and same(vars_of(r[1], names), {**vals, n: exp[1]}), 'field', lambda: f'{w()}: {n} ({k}, {s}) = {v!r}: {show(r)}, expected {exp[1]!r}')
            else:
                ctx.expect(r[0] == 'err' and isinstance(r[1], (TypeError, ValueError)) and n in str(r[1]), 'field', lambda: f'{w()}: {n} ({k}, {s}) = {v!r}: {show(r)}, expected an error')
    r = attempt(cls, **base, nope=1)
    ctx.expect(r[0] == 'err', 'extra', lambda: f'{w()}: {show(r)}')
    # names of other classes are not accepted
    for o in models:
        if o is not None and o is not m:
            for n, k, _ in o.own:
                if n not in names:
                    ctx.expect(attempt(cls, **base, **{n: good(k)})[0] == 'err', 'foreign-field', lambda: f'{w()}: accepts {n}')
    if len(req) == 1:
        r = attempt(cls, good(req[0][1]))
        ctx.expect(r[0] == 'ok' and r[1] == inst, 'positional', lambda: f'{w()}: {show(r)}')
    # tags
    tagged = [f[0] for f in m.fields if f[1] == 't']
    ctx.expect(list(cls._fields.filter_by_tag(Tag('t'))) == tagged, 'tags', w)
    ctx.expect(set(cls.to_dict.export_with(blacklist_tags=TAG, include_defaults=True)(inst)) == set(names) - set(tagged), 'tags', w)
    # freezing and hashing
    first = names[0]
    r = attempt(setattr, inst, first, vals[first])
    ctx.expect((r[0] == 'err') == m.frozen, 'frozen', lambda: f'{w()}: assigning: {show(r)}')
    r = attempt(hash, inst)
    unhash = any(k in 'fl' for _, k, _ in m.fields)
    ctx.expect((r[0] == 'ok') == (m.frozen and not unhash), 'hash', lambda: f'{w()}: hash: {show(r)}')
    # comparison
    other = cls(**base)
    ctx.expect(inst == other, 'equality', w)
    for jj, (c2, m2) in enumerate(zip(classes, models)):
        if c2 is None or c2 is cls:
            continue
        i2 = c2(**{n: good(k) for n, k, _ in m2.fields if kind(k)[1] is NODEF})
        ctx.expect(inst != i2 and not inst == i2, 'equality', lambda: f'{w()}: equal to an instance of class {jj}')
    for n, k, s in m.fields:
        if k in 'fl':
            continue
        big = cls(**{**base, n: 10 ** 6})
        r = attempt(lambda: (inst < big, inst <= big, inst > big, inst >= big))
        ctx.op()
        exp = ('ok', (True, True, False, False) if k != 'x' else (False, True, False, True)) if m.ordered else ('err', TypeError)
        ctx.expect(r == exp if m.ordered else r[0] == 'err' and type(r[1]) is TypeError, 'order', lambda: f'{w()}: comparing on {n}: {show(r)}, expected {exp}')
    # parsers
    if req:
        for o in range(len(models)):
            r = attempt(cls.parse, ('mark', o))
            ctx.op()
            exp = ('ok', ('parsed', cls.__name__, o)) if o in m.parsers else None
            ctx.expect(r == exp if exp else r[0] == 'err', 'parsers', lambda: f'{w()}: parsing the mark of class {o}: {show(r)}, expected {exp}')
            r = attempt(cls.parse, ('static mark', o))
            exp = ('ok', ('parsed', None, o)) if o in m.parsers else None
            ctx.expect(r == exp if exp else r[0] == 'err', 'parsers', lambda: f'{w()}: parsing the static mark of class {o}: {show(r)}, expected {exp}')
        r = attempt(cls.parse, dict(base))
        ctx.expect(r[0] == 'ok' and type(r[1]) is cls and r[1] == inst, 'parsers', lambda: f'{w()}: parsing a mapping: {show(r)}')
    if m.hasmixin:
        r = attempt(inst.method)
        ctx.expect(r == ('ok', (cls.__name__, 'mixin')) and cls.attr == 3 and inst.attr == 3, 'mixin', lambda: f'{w()}: {show(r)}')


def vars_of(inst, names):
    return {n: getattr(inst, n) for n in names}


def prebind(ctx):
    """classes whose parent adds tokens in pre_bind"""
    for sup in (False, True):
        class P(RecordBase):
            a: Annotated[int, check]

            @classmethod
            def pre_bind(cls):
                super().pre_bind()
                cls.a.add_validator(lambda v: v * 2)

        def child(P=P, sup=sup):
            if sup:
                class Q(P):
                    b: Annotated[int, check]

                    @classmethod
                    def pre_bind(cls):
                        super().pre_bind()
                        cls.b.add_validator(lambda v: v * 3)
            else:
                class Q(P):
                    b: Annotated[int, check]
            return Q
        r = attempt(child)
        ctx.op()
        if r[0] == 'err':
            ctx.fail('pre-bind-inherited', f'{r[1]!r} (explicit super: {sup})')
        else:
            q = attempt(r[1], a=1, b=1)
            ctx.expect(q[0] == 'ok' and (q[1].a, q[1].b) == (2, 3 if sup else 1), 'pre-bind-values', lambda: show(q))
        ctx.expect(P(a=1).a == 2, 'pre-bind-parent', 'the parent changed')

        # a child may leave the parent's fields alone
        class R(P):
            b: Annotated[int, check]

            @classmethod
            def pre_bind(cls):
                cls.b.add_validator(lambda v: v * 5)
        ctx.expect(R(a=1, b=1).a == 2 and R(a=1, b=1).b == 5 and P(a=1).a == 2, 'pre-bind-values', 'child with its own pre_bind')
    ctx.trace()
    ctx.state('prebind')


def local(ctx):
    """local classes, with annotations that only resolve where they were declared"""
    class Node(RecordBase, default_type_check=check):
        value: int
        nxt: 'Node' = None
    base = Node

    def make(frozen):
        class Node(base, frozen=frozen, default_type_check=check):
            other: 'Node' = None
            name: 'str' = ''
        return Node
    for frozen in (False, True):
        r = attempt(make, frozen)
        if r[0] != 'ok':
            ctx.fail('local', f'inheriting a local class with a self reference: {show(r)}')
            continue
        K = r[1]
        b, k = base(value=1), K(value=2)
        for name, v, ok in (('nxt', b, 1), ('nxt', k, 1), ('nxt', 5, 0), ('other', k, 1), ('other', b, 0), ('name', 's', 1), ('name', 5, 0)):
            r = attempt(K, value=1, **{name: v})
            ctx.op()
            ctx.expect((r[0] == 'ok') == bool(ok), 'local', lambda: f'{name}={v!r}: {show(r)}')
        ctx.expect(list(K._fields) == ['value', 'nxt', 'other', 'name'] and list(base._fields) == ['value', 'nxt'], 'local', 'fields')
        ctx.state('local', frozen)
    ctx.trace()


def plain(ctx):
    """methods, class variables and properties are inherited as in any class; a grandchild without a body; attributes set on a child"""
    class P(RecordBase, frozen=True, ordered=True):
        a: Annotated[int, check]
        b: Annotated[int, check] = 5
        shared: ClassVar[list] = []
        const = 'P'

        def total(self):
            return self.a + self.b

        @property
        def neg(self):
            return -self.a

        @classmethod
        def make(cls, x):
            return cls(a=x)

        def post_new(self):
            if self.a == 13:
                raise ValueError('unlucky')

    class Q(P):
        const = 'Q'
        extra = None

    class R(Q, frozen=True):
        c: int = 0

        def total(self):
            return super().total() + self.c

    class S(P, frozen=True, ordered=True, unary_parse=True):
        pass
    for cls, total in ((P, 6), (Q, 6), (R, 6), (S, 6)):
        i = cls.make(1)
        ctx.op()
        ctx.expect(type(i) is cls and i.total() == total and i.neg == -1, 'plain', cls.__name__)
        ctx.expect(cls.shared is P.shared and i.shared is P.shared, 'plain', cls.__name__)
        r = attempt(cls, a=13)
        ctx.expect(r[0] == 'err' and type(r[1]) is ValueError, 'plain', lambda: f'{cls.__name__}: {show(r)}')
        ctx.expect(attempt(cls, a='x')[0] == 'err' and attempt(cls, a=1, b='x')[0] == 'err', 'plain', cls.__name__)
        frozen = cls is not Q
        ctx.expect((attempt(setattr, i, 'a', 3)[0] == 'err') == frozen and (attempt(hash, i)[0] == 'ok') == frozen, 'plain', f'{cls.__name__}: frozen')
        ctx.expect((attempt(lambda: i < i) == ('ok', False)) == (cls in (P, S)), 'plain', f'{cls.__name__}: ordered')
    ctx.expect(P.const == 'P' and Q.const == 'Q' and R.const == 'Q' and S.const == 'P' and not hasattr(P, 'extra'), 'plain', 'class attributes')
    ctx.expect(R(a=1, c=5).total() == 11 and P(a=1).total() == 6, 'plain', 'overridden method')
    # a positional argument: only S parses it as well
    ctx.expect(Q(4).a == 4 and P(4).a == 4 and R(4).a == 4 and S(4).a == 4 and S({'a': 4}).a == 4 and attempt(P, {'a': 4})[0] == 'err', 'plain', 'positional arguments')
    ctx.trace()
    ctx.state('plain')

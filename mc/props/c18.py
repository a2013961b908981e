"""C18: exports against an independent model of the filter, over classes, instances, foreign objects and options."""
import collections
import itertools
import json

from mc import wide
from mc.lib import *  # noqa

BOUNDS = dict(quick=wide.TEXT + '; ' + 'all classes of 2 fields (4 tag sets x 4 kinds of default each, own or inherited, reverse alphabetical) x all values x all combinations of 18 blacklists (sets, lists, tuples, mappings, views), 9 whitelists, include_defaults, 7 sort modes; '
                    'a 6-field class with all option combinations; foreign objects with every subset of the attributes', thorough='classes of 3 fields with 3 tag sets and 4 kinds of default')
RULE = 'one case = class shape; inside: all instances (or foreign objects) x option combinations through to_dict, class-level to_dict, export_with, to_json'

T1, T2, T3 = Tag(1), Tag('two'), Tag(3)
TAGS = {'': (), '1': (T1,), '2': (T2,), '12': (T1, T2)}
DEFS = ('none', 'plain', 'factory', 'none-default')
BLACK = [None, T1, T2, Tag(1.0), {T1}, {T1, T2}, frozenset(), frozenset({T2}), {T3}, T3, frozenset({Tag(True)}), set(),
         [T1, T2], (T2,), {T1: 0}, {T2: 0}.keys(), [], collections.deque([T3, T1])]
SORTS = [None, False, True, -1, 1, lambda n: n[::-1], lambda n: -ord(n[0]), len]


class Plain:
    """a default that equals some other object"""

    def __init__(self, n):
        self.n = n

    def __eq__(self, o):
        return isinstance(o, (int, Plain)) and (o.n if isinstance(o, Plain) else o) == self.n

    __hash__ = None

    def __repr__(self):
        return f'Plain({self.n})'


def default_of(d):
    return {'none': NODEF, 'plain': 5, 'factory': Factory(lambda: 5), 'none-default': None}[d]


VALS = {'none': (5, None), 'plain': (5, 5.0, 6, None), 'factory': (5, 6), 'none-default': (None, 0, 5)}


def cases(tier):
    yield from wide.cases('C18', tier)
    if tier == 'thorough':
        combos = list(itertools.product(('', '1', '12'), DEFS))
        for fs in itertools.product(combos, repeat=3):
            yield 'k', fs, False, tier
    combos = list(itertools.product(TAGS, DEFS))
    for fs in itertools.product(combos, repeat=2):
        for inh in (False, True):
            yield 'k', fs, inh, 'quick'
    yield 'five', (), False, 'quick'
    yield 'five', (), True, 'quick'
    for inh in (False, True):
        yield 'foreign', (), inh, 'quick'
    yield 'fresh', (), False, 'quick'
    yield 'order', (), False, 'quick'
    for inh in (False, True):
        yield 'names', (), inh, 'quick'


NAMES = ('zb', 'ay', 'mc')


def build(fs, inh):
    """classes whose fields are declared in anti-alphabetical-ish order"""
    ann = {n: Annotated[(object, check, *TAGS[t])] if TAGS[t] else object for n, (t, d) in zip(NAMES, fs)}
    dfl = {n: default_of(d) for n, (t, d) in zip(NAMES, fs) if d != 'none'}
    if inh:
        first, rest = list(ann)[:1], list(ann)[1:]
        P = mk('P', {n: ann[n] for n in first}, {n: v for n, v in dfl.items() if n in first})
        return mk('K', {n: ann[n] for n in rest}, {n: v for n, v in dfl.items() if n in rest}, bases=(P,))
    return mk('K', ann, dfl)


def model(spec, read, inc, sort, black, white):
    """spec: list of (name, tags, default kind) in order; read: name -> value or NODEF"""
    black = {black} if isinstance(black, Tag) else set(black or ())
    white = {white} if isinstance(white, str) else set(white or ())
    out = []
    for n, tags, d in spec:
        w = n in white
        if not w and any(t == b for t in tags for b in black):
            continue
        v = read(n)
        if v is NODEF:
            if d == 'none':
                raise AttributeError(n)
            if inc:
                dv = default_of(d)
                out.append((n, dv.func() if isinstance(dv, Factory) else dv))
            continue
        if w or inc or d in ('none', 'factory') or not (default_of(d) == v):
            out.append((n, v))
    if sort == -1:
        out.sort(key=lambda t: t[0], reverse=True)
    elif callable(sort):
        out.sort(key=lambda t: sort(t[0]))
    elif sort:
        out.sort(key=lambda t: t[0])
    return out


def options(names, small=False):
    whites = [None, names[0], names[-1], {names[0]}, list(names), (names[-1],), frozenset(), {'nosuch'}, 'nosuch']
    for b, w, inc, s in itertools.product(BLACK if not small else BLACK[:6:2] + [frozenset()], whites if not small else whites[:4], (False, True), range(len(SORTS)) if not small else (0, 2, 3, 5)):
        yield b, w, inc, s


def kwargs(b, w, inc, s):
    kw = {}
    if b is not None:
        kw['blacklist_tags'] = b
    if w is not None:
        kw['whitelist_keys'] = w
    if inc or s == 0:
        kw['include_defaults'] = inc
    if s:
        kw['sort'] = SORTS[s]
    return kw


def compare(ctx, where, got, exp):
    if isinstance(exp, BaseException):
        ctx.expect(got[0] == 'err' and isinstance(got[1], AttributeError), 'missing-attribute', lambda: f'{where()}: {show(got)}, expected AttributeError')
        ctx.outcome('missing')
        return
    ctx.expect(got[0] == 'ok', 'failed', lambda: f'{where()}: {show(got)}, expected {exp}')
    if got[0] == 'ok':
        items = list(got[1].items())
        ctx.expect(type(got[1]) is dict and len(items) == len(exp) and all(a[0] == b[0] and (a[1] is b[1] or type(a[1]) is type(b[1]) and a[1] == b[1]) for a, b in zip(items, exp)), 'content',
                   lambda: f'{where()}: {items}, expected {exp}')
        ctx.outcome(len(exp))


def run(case, ctx):
    if case[0] == '__wide__':
        return wide.run('C18', ctx, case[1])
    kind, fs, inh, tier = case
    if kind == 'k':
        K = build(fs, inh)
        names = NAMES[:len(fs)]
        spec = [(n, TAGS[t], d) for n, (t, d) in zip(names, fs)]
        small = tier == 'thorough'
        for vals in itertools.product(*[VALS[d] for _, d in fs]):
            i = K(**dict(zip(names, vals)))
            exps = {}
            for b, w, inc, s in options(names, small):
                kw = kwargs(b, w, inc, s)
                exp = model(spec, lambda n: vals[names.index(n)], inc, SORTS[s], b, w)
                got = attempt(i.to_dict, **kw)
                ctx.op()
                compare(ctx, lambda: f'{case}: {i!r}.to_dict({kw})', got, exp)
            ctx.trace()
            ctx.state(case, repr(vals))
            # the other ways of giving the same options
            for b, w, inc, s in options(names, True):
                kw = kwargs(b, w, inc, s)
                exp = model(spec, lambda n: vals[names.index(n)], inc, SORTS[s], b, w)
                other = dict(sort=-1, include_defaults=not inc, blacklist_tags=T1, whitelist_keys='ay')
                every = {**dict(sort=None, include_defaults=inc, blacklist_tags=frozenset(), whitelist_keys=()), **kw}
                for how, f in (('class', lambda: K.to_dict(i, **kw)), ('export_with', lambda: i.to_dict.export_with(**kw)()), ('class export_with', lambda: K.to_dict.export_with(**kw)(i)),
                               ('split', lambda: i.to_dict.export_with(**{k: kw[k] for k in list(kw)[:1]})(**{k: kw[k] for k in list(kw)[1:]})),
                               ('override', lambda: i.to_dict.export_with(**other)(**every)),
                               ('override export_with', lambda: i.to_dict.export_with(**other).export_with(**every)()),
                               ('override json', lambda: json.loads(i.to_json.export_with(**other).export_with(**every)())),
                               ('override class', lambda: json.loads(K.to_json.export_with(**other).export_with(**every)(i))),
                               ('json', lambda: json.loads(i.to_json.export_with(**kw)())), ('json2', lambda: json.loads(K.to_json.export_with(**kw)(i)))):
                    ctx.op()
                    compare(ctx, lambda: f'{case}: {i!r} {how} {kw}', attempt(f), exp)
                r = attempt(i.__repr__, **kw)
                exp_r = 'K(' + ', '.join(f'{k}={v!r}' for k, v in exp) + ')'
                ctx.expect(r == ('ok', exp_r), 'repr', lambda: f'{case}: repr({kw}): {show(r)}, expected {exp_r}')
            ctx.expect(all(getattr(i, n) is v for n, v in zip(names, vals)) and list(vars(i)) and set(vars(i)) == set(names), 'changed', lambda: f'{case}: the record changed: {vars(i)}')
    elif kind == 'five':
        P = mk('P', {'m': Annotated[object, T1], 'e': object}, {'e': Plain(5)})
        K = mk('K', {'z': Annotated[object, T2, T1], 'a': Annotated[object, Tag(('x',)), T3], 'k': object, 'g': object}, {'a': [1], 'k': Factory(lambda: 5), 'g': []}, bases=(P,), frozen=inh)
        spec = [('m', (T1,), 'none'), ('e', (), 'e'), ('z', (T1, T2), 'none'), ('a', (T3, Tag(('x',))), 'a'), ('k', (), 'factory'), ('g', (), 'g')]
        names = [s[0] for s in spec]
        for e, a, k, g in itertools.product((5, Plain(5), 6), ([1], [1.0]), (5, 6), ([], (), [0])):
            vals = dict(m=1, e=e, z=[3], a=a, k=k, g=g)
            i = K(**vals)
            for b, w, inc, s in options(names):
                kw = kwargs(b, w, inc, s)
                exp = model5(spec, vals, inc, SORTS[s], b, w)
                ctx.op()
                compare(ctx, lambda: f'{case}: {i!r}.to_dict({kw})', attempt(i.to_dict, **kw), exp)
                compare(ctx, lambda: f'{case}: K.to_dict({i!r}, {kw})', attempt(K.to_dict, i, **kw), exp)
            ctx.trace()
            ctx.state(case, repr(vals))
    elif kind == 'foreign':
        if inh:
            P = mk('P', {'r': object, 'p': Annotated[object, T1]}, {'p': 5})
            K = mk('K', {'f': object, 't': Annotated[object, T1, T2]}, {'f': Factory(lambda: 5)}, bases=(P,))
        else:
            K = mk('K', {'r': object, 'p': Annotated[object, T1], 'f': object, 't': Annotated[object, T1, T2]}, {'p': 5, 'f': Factory(lambda: 5)}, frozen=True)
        spec = [('r', (), 'none'), ('p', (T1,), 'plain'), ('f', (), 'factory'), ('t', (T1, T2), 'none')]
        names = [s[0] for s in spec]
        for present in itertools.product((NODEF, 5, 7), repeat=4):
            vals = {n: v for n, v in zip(names, present) if v is not NODEF}
            for how in ('instance', 'class attributes', 'getattr', 'slots'):
                read_log = []
                obj = foreign(how, dict(vals, unrelated=1), read_log)
                for b, w, inc, s in itertools.product((None, T1, {T2}, frozenset({T3})), (None,), (False, True), (0, 2, 3)):
                    kw = kwargs(b, w, inc, s)
                    try:
                        exp = model(spec, lambda n: vals.get(n, NODEF), inc, SORTS[s], b, w)
                    except AttributeError as e:
                        exp = e
                    ctx.op()
                    compare(ctx, lambda: f'{case}: K.to_dict of an object with {vals} ({how}), {kw}', attempt(K.to_dict, obj, **kw), exp)
                    compare(ctx, lambda: f'{case}: export_with of an object with {vals} ({how}), {kw}', attempt(lambda: K.to_dict.export_with(**kw)(obj)), exp)
                    ctx.expect(set(read_log) <= set(names), 'reads', lambda: f'{case}: attributes {set(read_log)} were read')
                ctx.trace()
                ctx.state(case, repr(present), how)
    elif kind == 'names':
        # names that are parts of each other, whitelisted in every combination and kind of container
        names = ('ab', 'a', 'abc', 'b', 'c', 'bc')
        K = mk('K', {n: Annotated[object, T1] if k % 2 else object for k, n in enumerate(names)}, {n: 5 for n in names}, frozen=inh)
        spec = [(n, (T1,) if k % 2 else (), 'plain') for k, n in enumerate(names)]
        i = K(**{n: 5 for n in names})
        for n in range(len(names) + 1):
            for w in itertools.combinations(names + ('x', ''), n):
                ways = [tuple, list, set, frozenset, dict.fromkeys, lambda w: dict.fromkeys(w).keys(), collections.deque, lambda w: dict.fromkeys(w, 0).items() and list(w)] + ([lambda w: w[0]] if n == 1 else [])
                for W in ways:
                    for b, inc in itertools.product((None, T1), (False, True)):
                        exp = model(spec, lambda n: 5, inc, None, b, w)
                        ctx.op()
                        kw = dict(whitelist_keys=W(w), include_defaults=inc, **({} if b is None else {'blacklist_tags': b}))
                        compare(ctx, lambda: f'{case}: {i!r}.to_dict({kw})', attempt(i.to_dict, **kw), exp)
                        compare(ctx, lambda: f'{case}: {i!r}.to_dict.export_with({kw})', attempt(lambda: i.to_dict.export_with(**kw)()), exp)
                ctx.trace()
                ctx.state(case, w)
    elif kind == 'fresh':
        K = mk('K', {'a': object, 'b': object}, {'b': 1})
        i = K(a=[1], b=2)
        for f in (i.to_dict, lambda: K.to_dict(i), lambda: i.to_dict(sort=True), lambda: i.to_dict.select(keys_to_add={'c': 1})(), i.to_dict.export_with(include_defaults=True)):
            d1, d2 = f(), f()
            ctx.op(2)
            ctx.expect(d1 is not d2 and d1 == d2 and d1 is not vars(i), 'fresh', 'two exports are the same dictionary')
            d1['a'] = 5
            d1['zz'] = 1
            d1.pop('b')
            ctx.expect(i.a == [1] and i.b == 2 and not hasattr(i, 'zz') and f() == d2, 'fresh', 'changing an export changed the record')
            ctx.expect(d2['a'] is i.a, 'identity', 'the export does not hold the current value')
            i.a = [1]
            ctx.expect(f()['a'] is i.a, 'current', 'the export holds an old value')
        # a value that is the very factory, or equal to what it makes, is no plain default
        calls = []

        def five():
            calls.append(1)
            return 5
        five_too = five
        for frozen in (False, True):
            for fac in (five, list, dict, type('C', (), {'__eq__': lambda self, o: True})):
                K = mk('K', {'a': object, 'f': object, 'g': Annotated[object, T1]}, {'f': Factory(fac), 'g': Factory(fac)}, frozen=frozen)
                for v, w in itertools.product((fac, five_too, 5, [], {}, None, Factory(fac)), repeat=2):
                    i = K(a=1, f=v, g=w)
                    del calls[:]
                    for kw, exp in (({}, [('a', 1), ('f', v), ('g', w)]), (dict(blacklist_tags=T1), [('a', 1), ('f', v)]), (dict(include_defaults=True, sort=-1), [('g', w), ('f', v), ('a', 1)]), (dict(whitelist_keys='g'), [('a', 1), ('f', v), ('g', w)])):
                        for f in (lambda: i.to_dict(**kw), lambda: K.to_dict(i, **kw)):
                            ctx.op()
                            compare(ctx, lambda: f'{case}: factory {fac}, {i!r}.to_dict({kw})', attempt(f), exp)
                    ctx.expect(not calls, 'factory-called', 'exporting a record called a default factory')
                    ctx.expect(attempt(repr, i) == ('ok', f'K(a=1, f={v!r}, g={w!r})'), 'repr', lambda: f'factory {fac}: {i!r}')
        ctx.trace()
        ctx.state(case)
    else:
        # every permutation of declaration order, sorted in every way
        for perm in itertools.permutations(('b', 'a', 'B', '_x', 'aa')):
            K = mk('K', {n: object for n in perm})
            i = K(**{n: n.upper() for n in sorted(perm)})
            for s in range(len(SORTS)):
                exp = model([(n, (), 'none') for n in perm], lambda n: n.upper(), False, SORTS[s], None, None)
                ctx.op()
                compare(ctx, lambda: f'{case} {perm} sort {s}', attempt(i.to_dict, sort=SORTS[s]), exp)
            ctx.trace()
            ctx.state(perm)


def model5(spec, vals, inc, sort, black, white):
    kinds = {'e': Plain(5), 'a': [1], 'g': []}
    black = {black} if isinstance(black, Tag) else set(black or ())
    white = {white} if isinstance(white, str) else set(white or ())
    out = []
    for n, tags, d in spec:
        w = n in white
        if not w and any(t == b for t in tags for b in black):
            continue
        if w or inc or d not in kinds or kinds[d] != vals[n]:
            out.append((n, vals[n]))
    if sort == -1:
        out.sort(key=lambda t: t[0], reverse=True)
    elif callable(sort):
        out.sort(key=lambda t: sort(t[0]))
    elif sort:
        out.sort(key=lambda t: t[0])
    return out


def foreign(how, vals, log):
    if how == 'instance':
        o = type('O', (), {})()
        o.__dict__.update(vals)
        return o
    if how == 'class attributes':
        return type('O', (), dict(vals))
    if how == 'slots':
        c = type('O', (), dict(__slots__=('r', 'p', 'f', 't', 'unrelated')))
        o = c()
        for k, v in vals.items():
            setattr(o, k, v)
        return o

    class G:
        def __getattr__(self, n):
            if n.startswith('__'):
                raise AttributeError(n)
            log.append(n)
            if n in vals:
                return vals[n]
            raise AttributeError(n)
    return G()

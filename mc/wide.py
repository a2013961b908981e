"""Sizes: for every property, the same statement on declarations and arguments of many sizes, with the odd one out at every position."""
import copy
import io
import json
import pickle
import sys
import types as _types
import warnings
from typing import *  # noqa

from mc import kinds
from mc.canon import canon
from mc.lib import *  # noqa
from records import ComposeCoercer, LooseUnpack, LooseUnpackMap, MapCoercion, parser
from records.select import Select
from records.record import ParseFailure

try:
    from records.fillers.builtin_fillers.std_fillers import ToBytes
except ImportError:  # an internal location
    ToBytes = None

SIZES = (5, 6, 7, 8, 9, 10, 12, 15, 16, 17, 20, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257)
MORE = tuple(sorted({*range(1, 131), *SIZES, 200, 300, 500, 511, 512, 513}))
TEXT = f'sizes: the same statement for {len(SIZES)} sizes from 5 to 257 of what can be many (fields, positions, members, alternatives, tokens, parsers, ancestors, keys, mappings), the odd one out at every position; ' + kinds.TEXT
MOD = _types.ModuleType('mc_wide_generated')
sys.modules[MOD.__name__] = MOD


def cases(prop, tier):
    if prop in ALL:
        for n in MORE if tier == 'thorough' else SIZES:
            yield '__wide__', n
    yield from kinds.cases(prop, tier)


def run(prop, ctx, n):
    if isinstance(n, str):
        return kinds.run(prop, ctx, n)
    for f in ALL[prop]:
        f(ctx, n)
        ctx.trace()


def spots(n):
    """every position, or for large sizes those around powers of two and decimal round numbers"""
    if n <= 65:
        return range(n)
    near = {0, 1, 2, n // 2, n - 1, n - 2, *(p + d for p in (8, 10, 16, 32, 50, 64, 100, 128, 200, 255, 256, 512) for d in (-1, 0, 1))}
    return sorted(i for i in near if i < n)


def names(n):
    return [f'f{i}' for i in range(n)]


def ok(ctx, r, v, key, where):
    ctx.op()
    ctx.expect(r[0] == 'ok' and r[1] is v, key, lambda: f'{where()}: {show(r)}, expected {v!r}'[:900])


def no(ctx, r, errors, key, where):
    ctx.op()
    ctx.expect(r[0] == 'err' and isinstance(r[1], errors), key, lambda: f'{where()}: {show(r)}, expected {errors}'[:900])


BOTH = (TypeError, ValueError)


def put(t, i, v):
    t = list(t)
    t[i] = v
    return t


def plain(n):
    return [type(f'C{i}', (), {}) for i in range(n)]


# checking

def tuples(ctx, n):
    for style, bad in ((check, None), (check_strict, True)):
        K = mk('K', {'x': Tuple[tuple(int if i % 2 == 0 else str for i in range(n))]}, default_type_check=style)
        good = tuple(i + 1000 if i % 2 == 0 else str(i) for i in range(n))
        ok(ctx, attempt(lambda: K(x=good).x), good, 'rejected', lambda: f'a tuple of {n}')
        for i in spots(n):
            if bad is None or i % 2 == 0:
                no(ctx, attempt(K, x=tuple(put(good, i, bad))), TypeError, 'accepted', lambda: f'a tuple of {n} with {bad} at {i}')
        for t in (good[:-1], good + good[:1], good[1:], good * 2, ()):
            no(ctx, attempt(K, x=t), ValueError, 'accepted', lambda: f'a tuple of {len(t)} for one of {n}')
        for con, T in ((list, List), (tuple, lambda: 0), (set, Set), (dict, Dict)):
            if con is dict:
                K = mk('K', {'x': Dict[int, int]}, default_type_check=style)
                make = lambda b=None, at=-1: {(b if i == at and b != 'v' else i): ('x' if i == at and b == 'v' else i) for i in range(2, n + 2)}
                bads = ['k', 'v']
            else:
                K = mk('K', {'x': Tuple[int, ...] if con is tuple else T[int]}, default_type_check=style)
                make = lambda b=None, at=-1: con(b if i == at else i for i in range(2, n + 2))
                bads = ['a', None] + ([True] if bad else [])
            v = make()
            ok(ctx, attempt(lambda: K(x=v).x), v, 'rejected', lambda: f'a {con.__name__} of {n}')
            for i in spots(n):
                for b in bads:
                    no(ctx, attempt(K, x=make(b, i + 2)), TypeError, 'accepted', lambda: f'a {con.__name__} of {n} with {b} at {i}')


def literals(ctx, n):
    members = [1000 + i if i % 3 else f'm{i}' for i in range(n)]
    for style in (check, check_strict):
        K = mk('K', {'x': Literal[tuple(members)]}, default_type_check=style)
        for i in spots(n):
            m = members[i]
            v = copy.copy(m) if isinstance(m, int) else m
            ok(ctx, attempt(lambda: K(x=v).x), v, 'rejected', lambda: f'member {i} of {n}')
            no(ctx, attempt(K, x=float(m) if isinstance(m, int) else MyStr(m)), BOTH, 'accepted', lambda: f'a value equal to member {i} of {n} of another type')
        for v in (1000 + n + 1, f'm{n + 3}', None, True):
            no(ctx, attempt(K, x=v), BOTH, 'accepted', lambda: f'{v} for {n} members')


def unions(ctx, n):
    if n > 129:
        return
    cs = plain(n)
    for style in (check, check_strict):
        K = mk('K', {'x': Union[tuple(cs)]}, default_type_check=style)
        for i in spots(n):
            v = cs[i]()
            ok(ctx, attempt(lambda: K(x=v).x), v, 'rejected', lambda: f'an instance of alternative {i} of {n}')
            w = type('S', (cs[i],), {})()
            r = attempt(lambda: K(x=w).x)
            if style is check:
                ok(ctx, r, w, 'rejected', lambda: f'an instance of a class derived from alternative {i} of {n}')
            else:
                no(ctx, r, BOTH, 'accepted', lambda: f'an instance of a class derived from alternative {i} of {n}')
        no(ctx, attempt(K, x=object()), BOTH, 'accepted', lambda: f'{n} alternatives')


def deep(ctx, n):
    if n > 65:
        return
    for style, bad in ((check, 'x'), (check_strict, True)):
        t = int
        for i in range(n):
            t = List[t] if i % 3 else Tuple[t, ...] if i % 2 else Dict[str, t]
        K = mk('K', {'x': t}, default_type_check=style)

        def nest(v):
            for i in range(n):
                v = [v] if i % 3 else (v,) if i % 2 else {'k': v}
            return v
        v = nest(7)
        ok(ctx, attempt(lambda: K(x=v).x), v, 'rejected', lambda: f'nested {n} deep')
        no(ctx, attempt(K, x=nest(bad)), TypeError, 'accepted', lambda: f'nested {n} deep around {bad}')
        A = type('A', (), {})
        B = A
        for _ in range(n):
            B = type('B', (B,), {})
        K = mk('K', {'x': A, 'y': Type[A]}, {'y': A}, default_type_check=style)
        b = B()
        r = attempt(lambda: K(x=b).x)
        (ok if style is check else no)(ctx, r, b if style is check else TypeError, 'inherited', lambda: f'an instance of a class {n} below the declared one')


def styles(ctx, n):
    ds = (hollow, check, check_strict)
    K = mk('K', {f: Annotated[int, ds[i % 3]] if i % 2 else int for i, f in enumerate(names(n))}, default_type_check=check)
    good = {f: 5 for f in names(n)}
    for i in spots(n):
        style = ds[i % 3] if i % 2 else check
        for v, fine in (('a', style is hollow), (True, style is not check_strict), (5, True)):
            r = attempt(lambda: getattr(K(**{**good, f'f{i}': v}), f'f{i}'))
            (ok if fine else no)(ctx, r, v if fine else TypeError, 'style', lambda: f'field {i} of {n} with style {style}: {v}')
    if n > 65:
        return
    bases = (RecordBase,)
    for i in range(n):
        K = mk(f'K{i}', {f'f{i}': int}, bases=bases, default_type_check=ds[i % 3])
        bases = (K,)
    for i in range(n):
        style = ds[i % 3]
        for v, fine in (('a', style is hollow), (True, style is not check_strict), (5, True)):
            r = attempt(lambda: getattr(K(**{**good, f'f{i}': v}), f'f{i}'))
            (ok if fine else no)(ctx, r, v if fine else TypeError, 'style', lambda: f'field {i} of {n} ancestors with style {style}: {v}')


# tokens

def coercers(ctx, n):
    for i in [*spots(n), n]:
        calls = []

        def c(k):
            def f(v):
                calls.append((k, v))
                if k >= i:
                    return 10 ** 6 + k
                if k % 3 == 0:
                    raise (ValueError, KeyError, RuntimeError)[k // 3 % 3]
                return (None, 'x', v)[k // 3 % 3]
            return f
        K = mk('K', {'x': Annotated[(int, check, *(CallCoercion(c(k)) for k in range(n)))]})
        r = attempt(lambda: K(x='arg').x)
        ctx.op()
        ctx.state('coercers', n, i)
        if i == n:
            ctx.expect(r[0] == 'err', 'no-coercer', lambda: f'{n} failing coercers: {show(r)}')
        else:
            ctx.expect(r == ('ok', 10 ** 6 + i), 'coercion', lambda: f'coercer {i} of {n} is the first to succeed: {show(r)}')
        ctx.expect(calls == [(k, 'arg') for k in range(min(i + 1, n))], 'calls', lambda: f'coercer {i} of {n} succeeds: calls {calls}'[:500])


def validators(ctx, n):
    def add(k):
        return lambda v: v + [k]
    K = mk('K', {'x': Annotated[(list, check, *(CallValidation(add(k)) for k in range(n)))]})
    r = attempt(lambda: K(x=['v']).x)
    ctx.op()
    ctx.expect(r == ('ok', ['v', *range(n)]), 'chain', lambda: f'{n} validators: {show(r)}')
    for i in spots(n):
        calls = []

        def a(k):
            def f(v):
                calls.append(k)
                return k != i
            return f
        for warn in (False, True):
            del calls[:]
            K = mk('K', {'x': Annotated[(list, *(AssertCallValidation(a(k), warn=warn) for k in range(n)))]})
            v = ['v']
            with warnings.catch_warnings(record=True) as w:
                warnings.simplefilter('always')
                r = attempt(lambda: K(x=v).x)
            ctx.op()
            ctx.state('validators', n, i, warn)
            if warn:
                ctx.expect(r[0] == 'ok' and r[1] is v and len(w) == 1 and calls == list(range(n)), 'warning', lambda: f'validator {i} of {n} warns: {show(r)}, {len(w)} warnings, calls {calls}')
            else:
                ctx.expect(r[0] == 'err' and calls == list(range(i + 1)), 'failure', lambda: f'validator {i} of {n} fails: {show(r)}, calls {calls}')


def additions(ctx, n):
    """tokens added before binding: many to one part, and one to each of many parts"""
    calls = []

    def pre_bind(cls):
        for k in range(n):
            f = lambda v, k=k: v + [k]
            assert cls.x.add_validator(f) is f
            g = lambda v, k=k: v * 1000 + k
            assert cls.t.add_validator(g, sub_key=k) is g
            cls.w.add_validator(f, sub_key=1)
            cls.m.add_validator(f, sub_key=1)
            cls.m.add_validator(lambda v, k=k: v + '.' if len(v) == k else v, sub_key=0)
            cls.q.add_validator(f, sub_key=0)
            cls.c.add_coercer(lambda v, k=k: [k] if v == k else 1 / 0, sub_key=0)
            cls.a.add_assert_validator(lambda v, k=k: v != k, sub_key=0)
    K = mk('K', {'x': Annotated[list, check], 't': Annotated[Tuple[(int,) * n], check], 'w': Tuple[int, list, int], 'm': Dict[str, list], 'q': List[list], 'c': List[list], 'a': List[int]}, {'w': 0, 'm': 0, 'q': 0, 'c': 0, 'a': 0}, body=dict(pre_bind=classmethod(pre_bind)), default_type_check=check)
    r = attempt(lambda: K(x=[], t=tuple(range(1, n + 1))))
    ctx.op()
    ctx.expect(r[0] == 'ok' and r[1].x == [*range(n)] and r[1].t == tuple((k + 1) * 1000 + k for k in range(n)), 'added', lambda: f'{n} tokens added: {show(r)}'[:600])
    full = [*range(n)]
    r = attempt(lambda: K(x=[], t=tuple(range(n)), w=(1, [], 2), m={'': []}, q=[[], ['z']], c=[0, [5], n - 1], a=[-1, n]))
    ctx.op()
    ctx.expect(r[0] == 'ok' and (r[1].w, r[1].m, r[1].q, r[1].c, r[1].a) == ((1, full, 2), {'.' * n: full}, [full, ['z', *full]], [[0], [5], [n - 1]], [-1, n]), 'added', lambda: f'{n} tokens added to one part: {show(r)}'[:600])
    for i in spots(n):
        no(ctx, attempt(lambda: K(x=[], t=tuple(range(n)), a=[-1, i])), ValueError, 'added', lambda: f'assertion {i} of {n} added')
        r = attempt(lambda: K(x=[], t=tuple(range(n)), c=[i]).c)
        ctx.expect(r == ('ok', [[i]]), 'added', lambda: f'coercer {i} of {n} added: {show(r)}')
    no(ctx, attempt(K.x.add_validator, print), Exception, 'after-binding', lambda: 'a token added after binding')
    no(ctx, attempt(K, x=[], t=tuple(put(range(n), n - 1, 'a'))), TypeError, 'accepted', lambda: f'a wrong last element of {n}')
    if n <= 65:
        def pre_bind(cls):
            for k in range(n):
                cls.u.add_coercer(lambda v, k=k: cs[k]() if v == k else 1 / 0, sub_key=k)
        cs = plain(n)
        U = mk('U', {'u': Annotated[Union[tuple(cs)], check]}, body=dict(pre_bind=classmethod(pre_bind)), default_type_check=check)
        for k in range(n):
            r = attempt(lambda: type(U(u=k).u))
            ok(ctx, r, cs[k], 'added', lambda: f'a coercer of alternative {k} of {n}')


def alternatives(ctx, n):
    """the best of many alternatives, wherever it is"""
    if n > 129:
        return
    A = type('A', (), {})
    B = type('B', (A,), {})
    others = [Annotated[c, CallCoercion(lambda v, c=c: c())] for c in plain(n - 1)]
    for i in spots(n):
        for best in ((B,), (A,)):
            K = mk('K', {'x': Annotated[Union[tuple(others[:i] + [best[0]] + others[i:])], check]})
            b = B()
            ok(ctx, attempt(lambda: K(x=b).x), b, 'best', lambda: f'the only well-typed alternative is number {i} of {n}')
        K = mk('K', {'x': Annotated[Union[tuple(o.__origin__ if j not in (i, (i + 1) % (n - 1)) else o for j, o in enumerate(others))], check]})
        ctx.state('alternatives', n, i)
        if i < n - 1:
            no(ctx, attempt(K, x='coerced two ways'), ValueError, 'ambiguity', lambda: f'alternatives {i} and the next of {n} coerce')
        o = others[i % (n - 1)]
        K = mk('K', {'x': Annotated[Union[tuple(x.__origin__ if x is not o else x for x in others)], check]})
        r = attempt(lambda: type(K(x='coerced').x))
        ok(ctx, r, o.__origin__, 'coerced', lambda: f'only alternative {i} of {n} coerces')


def builtin_coercers(ctx, n):
    m = {f'k{i}': 1000 + i for i in range(n)}
    K = mk('K', {'x': Annotated[int, check, MapCoercion(m, {f'z{i}': (lambda i=i: 2000 + i) for i in range(n)})],
                 'c': Annotated[int, check, ComposeCoercer(*(CallCoercion(lambda v, i=i: (v if isinstance(v, int) else 0) * 3 % 1000003 + i) for i in range(n)))],
                 'u': Annotated[Args, check, LooseUnpack], 'v': Annotated[Args, check, LooseUnpack.constrain(*[str if i % 2 else int for i in range(n)])], 'w': Annotated[Args, check, LooseUnpackMap(last=1)],
                 'b': Annotated[(bytes, check, *([ToBytes(byteorder='little', signed=True)] if ToBytes else []))]}, dict.fromkeys('xcuvwb'))
    for i in spots(n):
        ctx.op(2)
        ctx.expect(attempt(lambda: K(x=f'k{i}').x) == ('ok', 1000 + i) and attempt(lambda: K(x=f'z{i}').x) == ('ok', 2000 + i), 'map', lambda: f'key {i} of {n}')
    no(ctx, attempt(K, x=f'k{n}'), Exception, 'map', lambda: f'a key that is not among {n}')
    v = 0
    for i in reversed(range(n)):
        v = v * 3 % 1000003 + i
    r = attempt(lambda: K(c='start').c)
    ctx.expect(r == ('ok', v), 'compose', lambda: f'{n} composed coercers: {show(r)}, expected {v}')
    args = [f's{i}' if i % 2 else i for i in range(n)]
    for f in 'uv':
        r = attempt(lambda: getattr(K(**{f: args}), f).a)
        ctx.expect(r == ('ok', tuple(args)), 'unpack', lambda: f'{n} arguments unpacked: {show(r)}'[:500])
        for i in spots(n):
            r = attempt(lambda: getattr(K(**{f: put(args, i, None)}), f).a)
            ctx.op()
            ctx.expect(r == ('ok', tuple(put(args, i, None))) if f == 'u' else r[0] == 'err', 'unpack', lambda: f'None as argument {i} of {n}: {show(r)}'[:500])
    no(ctx, attempt(K, v=args[:-1]), Exception, 'unpack', lambda: f'{n - 1} arguments instead of {n}')
    no(ctx, attempt(K, v=args + [0]), Exception, 'unpack', lambda: f'{n + 1} arguments instead of {n}')
    r = attempt(lambda: K(w={f'a{i}': i for i in range(n)}).w.k)
    ctx.expect(r == ('ok', {f'a{i}': i for i in range(n)} | {'last': 1}), 'unpack', lambda: f'{n} keyword arguments: {show(r)}'[:500])
    for d in (-2, -1, 0, 1):
        for s in (1, -1):
            for e in (n, 8 * n):
                v = s * 2 ** e + d
                r = attempt(lambda: int.from_bytes(K(b=v).b, 'little', signed=True))
                ctx.op()
                ctx.expect(ToBytes is None or r == ('ok', v), 'bytes', lambda: f'{s} * 2 ** {e} + {d}: {show(r)}'[:300])


class Args:
    def __init__(self, *a, **k):
        self.a, self.k = a, k


# construction

def defaults(ctx, n):
    calls = []

    def fac(i):
        def f():
            calls.append(i)
            return [i]
        return f
    D = [object() for _ in range(n)]
    for chain in (False, True):
        fs = names(n)
        anns = {f: Annotated[int, check] for f in fs}
        dd = {f: Factory(fac(i)) if i % 2 else D[i] for i, f in enumerate(fs)}
        if chain:
            h = n // 2
            P = mk('P', {f: anns[f] for f in fs[:h]}, {f: dd[f] for f in fs[:h]})
            K = mk('K', {f: anns[f] for f in fs[h:]}, {f: dd[f] for f in fs[h:]}, bases=(P,))
        else:
            K = mk('K', anns, dd)
        S = mk('S', anns, dict.fromkeys(fs, Factory(list)))
        for given in [(), *((i,) for i in spots(n)), tuple(range(n)), tuple(range(0, n, 2)), tuple(range(1, n, 3))]:
            del calls[:]
            r = attempt(lambda: K(**{f'f{i}': 7 for i in given}))
            ctx.op()
            ctx.state('defaults', n, chain, given)
            if r[0] != 'ok':
                ctx.fail('defaults', f'{len(given)} of {n} fields given: {show(r)}')
                continue
            ctx.expect(sorted(calls) == [i for i in range(n) if i % 2 and i not in given], 'factory-calls', lambda: f'{given} of {n} fields given: factories {calls} called'[:500])
            ctx.expect(all(getattr(r[1], f) == 7 if i in given else getattr(r[1], f) == [i] if i % 2 else getattr(r[1], f) is D[i] for i, f in enumerate(fs)), 'defaults', lambda: f'{given} of {n} fields given: {r[1]}'[:500])
            s = attempt(lambda: S(**{f'f{i}': 7 for i in given}))
            made = [getattr(s[1], f) for i, f in enumerate(fs) if i not in given] if s[0] == 'ok' else [0, 0]
            ctx.expect(s[0] == 'ok' and all(v == [] for v in made) and len({id(v) for v in made}) == len(made), 'factory-shared', lambda: f'{n} fields with the same factory: {show(s)}'[:500])
            r2 = attempt(lambda: K(**{f'f{i}': 7 for i in given}))
            ctx.expect(r2[0] == 'ok' and not any(getattr(r2[1], f) is getattr(r[1], f) for i, f in enumerate(fs) if i % 2 and i not in given), 'factory-shared', lambda: f'{n} fields')


def errors(ctx, n):
    fs = names(n)

    class Odd(Exception):
        pass

    def val(v):
        if v == 13:
            raise Odd('v')
        return v
    K = mk('K', {f: Annotated[int, check, CallValidation(val)] for f in fs} | {'l': Annotated[List[Annotated[int, check, CallValidation(val)]], check]}, {'l': ()}, frozen=True)
    good = {f: 1 for f in fs}
    for i in spots(n):
        for v, E in ((13, Odd), ('a', TypeError)):
            for a in ({**good, f'f{i}': v}, dict(reversed({**good, f'f{i}': v}.items()))):
                r = attempt(K, **a)
                ctx.op()
                ctx.state('errors', n, i, v)
                ctx.expect(r[0] == 'err' and type(r[1]) is E and type(r[1].__cause__) is E and f'f{i}' in str(r[1]).replace("'", ' ').split(), 'report', lambda: f'{v} for field {i} of {n}: {show(r)}')
            r = attempt(K, **good, l=put([1] * n, i, v))
            ctx.expect(r[0] == 'err' and type(r[1]) is E and type(r[1].__cause__) is E, 'report', lambda: f'{v} in a list at {i} of {n}: {show(r)}')


def declarations(ctx, n):
    fs = names(n)
    for seed in (2, 3, 5):
        kinds = {f: 'field' if (i * seed) % 4 < 2 else 'classvar' if (i * seed) % 4 == 2 else 'final' for i, f in enumerate(fs)}
        if 'field' not in kinds.values():
            continue
        anns = {f: {'field': 'Annotated[int, Tag(0)]' if i % 3 else Annotated[int, Tag(0)], 'classvar': ClassVar[int], 'final': Final[int]}[kinds[f]] for i, f in enumerate(fs)}
        dd = {f: i for i, f in enumerate(fs) if kinds[f] == 'classvar' or i % 2 == 0}
        body = {f'attr{i}': i for i in range(n)} | {f'm{i}': lambda self, i=i: i for i in range(n)}
        r = attempt(mk, 'K', anns, dd, body, frozen=True, module=MOD.__name__)
        ctx.op()
        ctx.state('declarations', n, seed)
        if r[0] != 'ok':
            ctx.fail('declaration', f'{n} annotations: {show(r)}')
            continue
        K = r[1]
        ctx.expect(list(K._fields) == [f for f in fs if kinds[f] != 'classvar'], 'fields', lambda: f'{n} annotations: {list(K._fields)}'[:500])
        k = K(**{f: 5 for f in K._fields if f not in dd})
        ctx.expect(all(getattr(k, f) == (dd[f] if f in dd else 5) for f in fs) and all(getattr(k, f'attr{i}') == i and getattr(k, f'm{i}')() == i for i in range(n)), 'attributes', lambda: f'{n} annotations: {k}'[:500])


MOD.__dict__.update(Annotated=Annotated, Tag=Tag, int=int)


def inheritance(ctx, n):
    if n > 129:
        return
    # a chain of classes, and a class with many parents
    bases, classes = (RecordBase,), []
    for i in range(n):
        K = mk(f'K{i}', {f'f{i}': Annotated[int, check, CallValidation(lambda v, i=i: v + i)]} if i % 4 != 3 else {}, {f'f{i}': -1} if i % 2 and i % 4 != 3 else {}, {f'a{i}': i}, bases, frozen=i % 3 == 0, ordered=i % 5 == 0)
        classes.append(K)
        bases = (K,)
    own = [i for i in range(n) if i % 4 != 3]
    for i in spots(n):
        K = classes[i]
        mine = [j for j in own if j <= i]
        ctx.op()
        ctx.state('inheritance', n, i)
        ctx.expect(list(K._fields) == [f'f{j}' for j in mine], 'fields', lambda: f'class {i} of a chain of {n}: {list(K._fields)}')
        r = attempt(lambda: K(**{f'f{j}': 1000 for j in mine if j % 2 == 0}))
        ctx.expect(r[0] == 'ok' and all(getattr(r[1], f'f{j}') == (-1 if j % 2 else 1000 + j) for j in mine), 'values', lambda: f'class {i} of a chain of {n}: {show(r)}')
        ctx.expect(K.is_frozen() == (i % 3 == 0) and (attempt(hash, r[1])[0] == 'ok') == (i % 3 == 0) and (attempt(lambda: r[1] <= r[1])[0] == 'ok') == (i % 5 == 0), 'options', lambda: f'class {i} of a chain of {n}')
        j = mine[len(mine) // 2]
        no(ctx, attempt(K, **{f'f{k}': 1000 for k in mine if k % 2 == 0} | {f'f{j}': 'a'}), TypeError, 'accepted', lambda: f'a wrong value for f{j} of class {i} in a chain of {n}')
        for k in {mine[0], mine[-1], j}:
            no(ctx, attempt(mk, 'R', {f'f{k}': int}, bases=(K,)), ValueError, 'redeclared', lambda: f'f{k} declared again below class {i} of a chain of {n}')
    ps = [mk(f'P{i}', {f'f{i}': int}, {f'f{i}': i} if i % 2 else {}) for i in range(n)]
    r = attempt(mk, 'M', {'own': int}, {'own': 0}, bases=tuple(ps))
    ctx.expect(r[0] == 'ok' and list(r[1]._fields) == [*names(n), 'own'] and r[1](**{f'f{i}': 5 for i in range(0, n, 2)}).to_dict(include_defaults=True) == {f'f{i}': i if i % 2 else 5 for i in range(n)} | {'own': 0}, 'parents', lambda: f'{n} parents: {show(r)}')
    for i in spots(n):
        clash = mk('Cl', {f'f{i}': int})
        no(ctx, attempt(mk, 'M', {}, bases=tuple(ps) + (clash,)), ValueError, 'redeclared', lambda: f'the {i}th of {n} parents has the same field as the last')


def parsers(ctx, n):
    if n > 129:
        return
    for chain in (False, True):
        if chain and n > 33:
            continue

        def p(i):
            def f(cls, v):
                if v in (i, ('two', i), ('two', (i + 1) % n)) and v is not True:
                    return 'parsed', i, v
                raise (ValueError, KeyError, TypeError, AttributeError)[i % 4]
            return parser(classmethod(f))
        if chain:
            bases = (RecordBase,)
            for i in range(n):
                K = mk(f'K{i}', {f'f{i}': int}, body={f'p{i}': p(i)}, bases=bases)
                bases = (K,)
        else:
            K = mk('K', {'x': int, 'y': int}, body={f'p{i}': p(i)for i in range(n)})
        for i in spots(n):
            ctx.op(3)
            ctx.state('parsers', n, chain, i)
            for f in (K.parse, K):
                r = attempt(f, i)
                ctx.expect(r == ('ok', ('parsed', i, i)), 'parsed', lambda: f'only parser {i} of {n} accepts: {show(r)}')
                r = attempt(f, ('two', i))
                ctx.expect(r[0] == 'err' and isinstance(r[1], TypeError) and not isinstance(r[1], ParseFailure), 'ambiguous', lambda: f'parsers {i} and another of {n} accept: {show(r)}')
        for f in (K.parse, K):
            r = attempt(f, 'none')
            ctx.expect(r[0] == 'err' and isinstance(r[1], ParseFailure), 'none', lambda: f'none of {n} parsers accepts: {show(r)}')


def frozen(ctx, n):
    fs = names(n)
    F, M = (mk('K', {f: object for f in fs}, frozen=b) for b in (True, False))
    f, m = F(**{k: 1 for k in fs}), M(**{k: 1 for k in fs})
    for i in spots(n):
        for name in (f'f{i}', f'new{i}'):
            no(ctx, attempt(setattr, f, name, 2), TypeError, 'assignment', lambda: f'field {i} of {n}')
            no(ctx, attempt(delattr, f, name), TypeError, 'deletion', lambda: f'field {i} of {n}')
            setattr(m, name, 2)
            ctx.expect(getattr(m, name) == 2 and f == F(**{k: 1 for k in fs}) and not hasattr(f, f'new{i}'), 'attributes', lambda: f'field {i} of {n}')
    # many attributes on one instance
    for i in range(n):
        setattr(m, f'extra{i}', i)
    ctx.expect(all(getattr(m, f'extra{i}') == i for i in range(n)), 'attributes', lambda: f'{n} new attributes')


class Odd:
    def __eq__(self, o):
        return False

    __hash__ = object.__hash__


class Three:
    def __eq__(self, o):
        return o == 3 and not isinstance(o, Three)

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return 3


def equality(ctx, n):
    fs = names(n)
    for b in (True, False):
        K, L = mk('K', {k: object for k in fs}, frozen=b), mk('K', {k: object for k in fs}, frozen=b)
        a, twin = K(**{k: 1 for k in fs}), K(**{k: True if i % 2 else 1.0 for i, k in enumerate(fs)})
        ctx.expect(a == twin and not a != twin and a != L(**{k: 1 for k in fs}), 'equality', lambda: f'{n} fields')
        if b:
            ctx.expect(hash(a) == hash(twin) and twin in {a: 1}, 'hash', lambda: f'{n} fields')
        for i in spots(n):
            for used in (False, True):
                o = K(**{k: 2 if j == i else 1 for j, k in enumerate(fs)})
                if used:
                    attempt(hash, a), attempt(hash, o)
                ctx.op()
                ctx.state('equality', n, b, i)
                ctx.expect(a != o and not a == o and o != a and not o == a, 'equality', lambda: f'the {i}th of {n} values differs')
        odd = Odd()
        for i in spots(n):
            for how in (0, 1):
                # with a default for the odd field, and without
                D = mk('D', {k: object for k in fs}, {fs[i]: odd} if how else {}, frozen=b)
                x, y, z = (D(**{k: v if j == i else 0 for j, k in enumerate(fs)}) for v in (odd, Odd(), odd))
                x.__dict__['note'] = 1
                ctx.expect(x != y and not x == y and y != z, 'equality', lambda: f'the {i}th of {n} values equals nothing')
                a, c = D(**{k: 3 if j == i else 0 for j, k in enumerate(fs)}), D(**{k: Three() if j == i else 0 for j, k in enumerate(fs)})
                a.__dict__['note'] = 1
                ctx.op(2)
                ctx.expect(a == c and not a != c and c == a, 'equality', lambda: f'the {i}th of {n} values has an equality of its own')
        deep = lambda v: K(**{k: (v,) * n for k in fs})
        ctx.expect(deep(1) == deep(True) and deep(1) != deep(2), 'equality', lambda: f'{n} values of {n}')


def ordering(ctx, n):
    fs = names(n)
    for ex in (None, 0, 2, 'half'):
        out = {i for i in range(n) if ex == 'half' and i % 2 or i == ex}
        K = mk('K', {k: Annotated[object, exclude_from_ordering] if i in out else object for i, k in enumerate(fs)}, ordered=True)
        base = [5] * n
        for i in spots(n):
            for j in {n - 1, (i + 1) % n, 0}:
                for lo, hi in ((4, 6), (6, 4), (5, 6), (True, 5.5)):
                    v = put(put(base, j, hi), i, lo)
                    a, b = K(**dict(zip(fs, base))), K(**dict(zip(fs, v)))
                    ka, kb = ([x for q, x in enumerate(w) if q not in out] for w in (base, v))
                    got = a < b, a <= b, a > b, a >= b
                    ctx.op(4)
                    ctx.expect(got == (ka < kb, ka <= kb, ka > kb, ka >= kb), 'ordering', lambda: f'{n} fields, excluded {ex}, differing at {i} and {j}: {got}')
            ctx.state('ordering', n, ex, i)
        some = [K(**{k: (i * 7919) % n if k == fs[-1] else 0 for k in fs}) for i in range(n)]
        exp = [getattr(x, fs[-1]) for x in (some if n - 1 in out else sorted(some, key=lambda r: getattr(r, fs[-1])))]
        ctx.expect([getattr(x, fs[-1]) for x in sorted(some)] == exp, 'sorting', lambda: f'{n} records')


# exports and imports

def exports(ctx, n):
    fs = [f'f{(i * 7) % n}_{i}' for i in range(n)]
    tags = [Tag(i) for i in range(n)]
    K = mk('K', {k: Annotated[object, tags[i], Tag('odd' if i % 2 else 'even')] for i, k in enumerate(fs)}, {k: i for i, k in enumerate(fs) if i % 3 == 0})
    i = K(**{k: j if j % 6 == 0 else -j - 1 for j, k in enumerate(fs) if j % 3 or j % 6 == 0 or j % 9 == 0})
    cur = {k: getattr(i, k) for k in fs}
    non = {k for j, k in enumerate(fs) if not (j % 3 == 0 and cur[k] == j)}

    def expect(kw, keep, key=None, rev=False):
        exp = [(k, cur[k]) for k in fs if k in keep]
        if key:
            exp.sort(key=lambda t: key(t[0]), reverse=rev)
        for how, f in (('instance', lambda: i.to_dict(**kw)), ('class', lambda: K.to_dict(i, **kw)), ('foreign', lambda: K.to_dict(_types.SimpleNamespace(**cur), **kw))):
            r = attempt(lambda: list(f().items()))
            ctx.op()
            ctx.expect(r == ('ok', exp), 'export', lambda: f'{n} fields, {how} exported with {kw}: {show(r)}, expected {exp}'[:900])
    expect({}, non)
    expect(dict(include_defaults=True), fs)
    ident = lambda k: k
    expect(dict(include_defaults=True, sort=True), fs, ident)
    expect(dict(include_defaults=True, sort=-1), fs, ident, True)
    expect(dict(include_defaults=True, sort=lambda k: k[::-1]), fs, lambda k: k[::-1])
    expect(dict(include_defaults=True, blacklist_tags=Tag('odd')), fs[::2])
    expect(dict(include_defaults=True, blacklist_tags=set(tags)), ())
    expect(dict(whitelist_keys=set(fs), blacklist_tags=set(tags)), fs)
    for j in spots(n):
        ctx.state('exports', n, j)
        expect(dict(include_defaults=True, blacklist_tags=Tag(j)), set(fs) - {fs[j]})
        expect(dict(include_defaults=True, blacklist_tags={*tags} - {tags[j]}), {fs[j]})
        expect(dict(whitelist_keys=fs[j]), non | {fs[j]})
        expect(dict(whitelist_keys=[fs[j]], blacklist_tags=tags), {fs[j]})
        expect(dict(whitelist_keys=[k for k in fs if k != fs[j]], blacklist_tags=tags), set(fs) - {fs[j]})


def tags(ctx, n):
    K = mk('K', {'all': Annotated[(object, *(Tag(i) for i in range(n)))], 'none': object} | {f'f{i}': Annotated[object, Tag(i), Tag((i, 'x'))] for i in range(n)})
    ctx.expect(K._fields['all'].tags == {Tag(i) for i in range(n)} and not K._fields['none'].tags, 'tags', lambda: f'{n} tags: {K._fields["all"].tags}'[:500])
    for i in spots(n):
        ctx.op()
        ctx.state('tags', n, i)
        got = list(K._fields.filter_by_tag(Tag(float(i))))
        ctx.expect(got == ['all', f'f{i}'] or [getattr(f, 'name', f) for f in got] == ['all', f'f{i}'], 'filter', lambda: f'tag {i} of {n}: {got}')
    i = K(**{k: 0 for k in K._fields})
    for j in spots(n):
        # few and many tags in the blacklist, with one in common
        for bl in ({Tag(j)}, {Tag(j), *(Tag(-1 - x) for x in range(n))}, [*(Tag(-1 - x) for x in range(n)), Tag(j)], {Tag(j): 0}):
            r = attempt(lambda: list(i.to_dict(blacklist_tags=bl)))
            ctx.op()
            ctx.expect(r == ('ok', ['none', *(f'f{x}' for x in range(n) if x != j)]), 'blacklist', lambda: f'tag {j} of {n} in {type(bl).__name__}: {show(r)}'[:500])
    big = Tag(tuple(range(n)))
    ctx.expect(big == Tag(tuple(map(float, range(n)))) and hash(big) == hash(Tag(tuple(range(n)))) and big != Tag(tuple(range(n - 1))) and all(big != Tag(tuple(put(range(n), i, -1))) for i in spots(n)), 'equality', lambda: f'{n} parts')


def selections(ctx, n):
    src = {f'k{i}': i for i in range(n)}
    ks = list(src)
    m = dict(src)

    def check_(sel, exp, what):
        r = attempt(lambda: dict(sel(dict(m))))
        ctx.op()
        ctx.expect(r == ('ok', exp), 'selection', lambda: f'{what} of {n}: {show(r)}, expected {exp}'[:900])
    half, rest = ks[::2], ks[1::2]
    check_(Select(keys_to_remove=half), {k: src[k] for k in rest}, 'removing half')
    check_(Select(keys_to_maybe_remove=[*half, 'nope', *[f'no{i}' for i in range(n)]]), {k: src[k] for k in rest}, 'maybe removing half')
    check_(Select(keys_to_rename=[(k, 'r' + k) for k in half]), {('r' + k if k in half else k): v for k, v in src.items()}, 'renaming half')
    check_(Select(keys_to_maybe_rename={k: 'r' + k for k in ks + [f'no{i}' for i in range(n)]}), {'r' + k: v for k, v in src.items()}, 'maybe renaming all')
    check_(Select(keys_to_add={f'n{i}': -i for i in range(n)}), {**src, **{f'n{i}': -i for i in range(n)}}, 'adding')
    check_(Select(keys_to_maybe_add={**{f'n{i}': -i for i in range(n)}, **{k: 'no' for k in ks}}), {**src, **{f'n{i}': -i for i in range(n)}}, 'maybe adding')
    for i in spots(n):
        ctx.state('selections', n, i)
        for s, E in ((Select(keys_to_remove=put(ks, i, 'nope')), KeyError), (Select(keys_to_rename=[(k if j != i else 'nope', 'r' + k) for j, k in enumerate(ks)]), KeyError),
                     (Select(keys_to_add=put([(f'n{j}', j) for j in range(n)], i, (ks[i], 0))), ValueError), (Select(keys_to_rename=[(k, 'r' + k if j != i or i == 0 else 'rk0') for j, k in enumerate(ks)] + ([('k0', 'z')] if i == 0 else [])), (KeyError, ValueError))):
            no(ctx, attempt(s, dict(m)), E, 'selection-accepted', lambda: f'a wrong key at {i} of {n}')
    # merging many, in every way
    parts = [Select(keys_to_remove=k) if i % 3 == 0 else Select(keys_to_rename={k: 'r' + k}) if i % 3 == 1 else Select(keys_to_add={'a' + k: i}) for i, k in enumerate(ks)]
    exp = {('r' + k if i % 3 == 1 else k): v for i, (k, v) in enumerate(src.items()) if i % 3} | {'a' + k: i for i, k in enumerate(ks) if i % 3 == 2}
    one = Select.empty
    for p in parts:
        one = one.merge(p)
    check_(one, exp, 'merged one by one')
    check_(parts[0].merge(*parts[1:]), exp, 'merged at once')
    K = mk('K', {'x': object}, {'x': 0})
    h = K.from_mapping
    for p in parts:
        h = h.select(p)
    D = mk('D', {k: object for k in exp})
    h = D.from_mapping
    for p in parts:
        h = h.select(p)
    r = attempt(lambda: h(dict(src)).to_dict())
    ctx.expect(r == ('ok', {k: exp[k] for k in D._fields}), 'selection', lambda: f'{n} chained selections: {show(r)}'[:600])
    ctx.expect(m == src, 'changed', 'the mapping changed')


def imports(ctx, n):
    fs = names(n)
    for fz in (False, True):
        K = mk('K', {k: object for k in fs}, {k: ('default', k) for k in fs[::2]}, frozen=fz)
        exp = {k: i for i, k in enumerate(fs)}
        maps = [{k: exp[k]} for k in fs]
        late = [{k: 'late' for k in fs[:i]} for i in range(1, n + 1)]
        for what, f in (('n mappings', lambda: K.from_mapping(*maps)), ('shadowed', lambda: K.from_mapping(exp, *late)), ('each shadowing the next', lambda: K.from_mapping(*[x for i in range(n) for x in (maps[i], {k: 'late' for k in fs[:i + 1]})])),
                        ('keywords', lambda: K.from_mapping(*maps[::2], **{k: v for m in maps[1::2] for k, v in m.items()})), ('object', lambda: K.from_instance(_types.SimpleNamespace(**exp))),
                        ('object and mappings', lambda: K.from_instance(_types.SimpleNamespace(**dict.fromkeys(fs, 'early')), *late, *maps)), ('json', lambda: K.from_json(json.dumps(exp))),
                        ('json file', lambda: K.from_json_io(io.StringIO(json.dumps(exp)))), ('instance', lambda: K.from_instance(K(**exp))), ('parse', lambda: K.parse(exp))):
            r = attempt(f)
            ctx.op()
            ctx.state('imports', n, fz, what)
            ctx.expect(r[0] == 'ok' and canon(r[1]) == canon(K(**exp)), 'import', lambda: f'{what} of {n} fields: {show(r)}'[:600])
        for i in spots(n):
            less = {k: v for k, v in exp.items() if k != fs[i]}
            for f in (lambda: K.from_mapping(less), lambda: K.from_instance(_types.SimpleNamespace(**less)), lambda: K.from_json(json.dumps(less)), lambda: K(**less)):
                r = attempt(f)
                ctx.op()
                if i % 2:
                    ctx.expect(r[0] == 'err', 'missing', lambda: f'field {i} of {n} missing: {show(r)}'[:500])
                else:
                    ctx.expect(r[0] == 'ok' and getattr(r[1], fs[i]) is K._fields[fs[i]].default, 'missing', lambda: f'field {i} of {n} missing: {show(r)}'[:500])


def wide_record(n, fz):
    name = f'W{n}_{fz}'
    if not hasattr(MOD, name):
        setattr(MOD, name, mk(name, {k: object for k in names(n)}, {k: i for i, k in enumerate(names(n)) if i % 3 == 0}, frozen=fz, module=MOD.__name__))
        setattr(MOD, 'N' + name, mk('N' + name, {'v': object, 'next': object}, {'next': None}, frozen=fz, module=MOD.__name__))
    return getattr(MOD, name), getattr(MOD, 'N' + name)


def chain(N, n, v=1):
    r = None
    for i in range(n):
        r = N(v=v if i == 0 else i, next=r)
    return r


def serial(ctx, n):
    for fz in (False, True):
        K, N = wide_record(n, fz)
        i = K(**{k: j if j % 6 == 0 else [j, 'é' * (j % 5)] for j, k in enumerate(names(n))})
        d = chain(N, min(n, 65))
        for x in (i, d):
            C = type(x)
            for what, f in [('repr', lambda: eval(repr(x), dict(vars(MOD)))), ('full repr', lambda: eval(x.__repr__(include_defaults=True), dict(vars(MOD)))), ('dictionary', lambda: C(**x.to_dict())),
                            ('full dictionary', lambda: C.from_mapping(x.to_dict(include_defaults=True)))] + [(f'pickle {p}', lambda p=p: C.from_pickle(x.to_pickle(p))) for p in (2, 4, 5)] + \
                           ([('json', lambda: C.from_json(x.to_json())), ('full json', lambda: C.from_json(x.to_json.export_with(include_defaults=True, sort=True)()))] if x is i else []):
                r = attempt(f)
                ctx.op()
                ctx.state('serial', n, fz, what)
                ctx.expect(r[0] == 'ok' and canon(r[1]) == canon(x) and r[1] == x, 'round-trip', lambda: f'{what} of {n} fields or levels: {show(r)}'[:500])


def copies(ctx, n):
    for fz in (False, True):
        K, N = wide_record(n, fz)
        shared = [0]
        i = K(**{k: shared if j % 2 else [j] for j, k in enumerate(names(n)) if j % 3})
        c, d = copy.copy(i), copy.deepcopy(i)
        ctx.op(2)
        ctx.state('copies', n, fz)
        ctx.expect((c is i) if fz else c is not i and c == i and all(getattr(c, k) is getattr(i, k) for k in names(n)), 'copy', lambda: f'{n} fields')
        ctx.expect(d == i and d is not i and all(getattr(d, k) is not getattr(i, k) for j, k in enumerate(names(n)) if j % 3) and len({id(getattr(d, k)) for j, k in enumerate(names(n)) if j % 3 and j % 2}) == 1, 'deepcopy', lambda: f'{n} fields: {d}'[:500])
        l = copy.deepcopy([i] * n + [shared])
        ctx.expect(all(x is l[0] for x in l[:n]) and l[0].f1 is l[-1] and l[0].f1 is not shared, 'sharing', lambda: f'{n} references')
        many = [N(v=shared, next=j) for j in range(n)]
        l = copy.deepcopy(many)
        ctx.expect(l == many and len({id(x) for x in l}) == n and len({id(x.v) for x in l}) == 1 and l[0].v is not shared, 'sharing', lambda: f'{n} records')
        x = chain(N, min(n, 65), shared)
        y = copy.deepcopy(x)
        ctx.expect(x == y, 'deepcopy', lambda: f'{n} levels')
        while x.next is not None:
            ctx.expect(x is not y, 'deepcopy', lambda: f'{n} levels')
            x, y = x.next, y.next
        ctx.expect(y.v == [0] and y.v is not shared, 'deepcopy', lambda: f'the innermost of {n} levels')


def hooks(ctx, n):
    seen = []
    K = mk('K', {k: object for k in names(n)}, {k: Factory(lambda i=i: i) if i % 2 else i for i, k in enumerate(names(n))}, dict(post_new=lambda self: seen.append(dict(vars(self)))))
    for given in [(), *((i,) for i in spots(n)), tuple(range(n))]:
        del seen[:]
        r = attempt(lambda: K(**{f'f{i}': 'given' for i in given}))
        ctx.op()
        ctx.state('hooks', n, given)
        got = [{k: v for k, v in s.items() if k in K._fields} for s in seen]
        ctx.expect(r[0] == 'ok' and got == [{k: 'given' if i in given else i for i, k in enumerate(names(n))}], 'hook', lambda: f'{given} of {n} fields given: {show(r)}, {len(seen)} calls'[:500])


ALL = dict(C02=[defaults], C03=[tuples, literals, unions, deep], C04=[tuples, literals, unions, deep], C05=[styles], C06=[coercers], C07=[validators], C08=[alternatives, unions], C12=[builtin_coercers], C13=[parsers], C14=[parsers],
           C15=[frozen], C16=[equality], C17=[ordering], C18=[exports, tags], C19=[selections], C20=[imports], C21=[serial], C22=[copies], C23=[inheritance], C24=[additions], C26=[errors], C27=[declarations], C28=[hooks], C30=[tags])

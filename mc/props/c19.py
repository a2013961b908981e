"""C19: selections against an independent model, all ways of building them, and immutability of everything derived from them."""
import itertools
import json
import types as _types

from mc import wide
from mc.lib import *  # noqa
from records import SelectableFactory
from records.select import Select, Exporter

BOUNDS = dict(quick=wide.TEXT + '; ' + 'all sequences of up to 3 selection entries out of 18 x all 8 mappings over 3 keys and 5 holding falsish values x 12 ways of giving or splitting them, applied directly, on export and on import; '
                    'all sequences of up to 4 derive/call operations on the handles of 5 kinds', thorough='up to 4 entries; 5 operations')
RULE = 'one case = first entries of a selection, or a kind of handle and first operations'

ENTRIES = [('remove', 'a'), ('remove', 'b'), ('maybe_remove', 'a'), ('maybe_remove', 'b'), ('rename', ('a', 'b')), ('rename', ('b', 'c')), ('rename', ('c', 'a')), ('rename', ('a', 'a')),
           ('maybe_rename', ('a', 'b')), ('maybe_rename', ('b', 'c')), ('maybe_rename', ('c', 'a')), ('add', ('a', 10)), ('add', ('c', None)), ('maybe_add', ('a', 20)), ('maybe_add', ('b', ())),
           ('maybe_add', ('c', None)), ('maybe_rename', ('a', 'a')), ('maybe_add', ('a', 30))]
KINDS = ('remove', 'maybe_remove', 'rename', 'maybe_rename', 'add', 'maybe_add')
MAPS = [dict((k, k.upper()) for k in s) for n in range(4) for s in itertools.combinations('abc', n)]
# falsish values are present all the same
MAPS += [{'a': None}, {'b': None, 'c': 0}, {'c': None}, {'a': None, 'b': False, 'c': None}, {'c': '', 'a': [], 'b': None}]


def model(entries, mapping):
    m = dict(mapping)
    e = {k: [x for kind, x in entries if kind == k] for k in KINDS}
    for k in e['remove']:
        del m[k]
    for k in e['maybe_remove']:
        m.pop(k, None)
    for maybe in (False, True):
        for s, d in e['maybe_rename' if maybe else 'rename']:
            if s not in m:
                if maybe:
                    continue
                # both a missing source and an existing target are errors; which one is reported is not specified
                raise (KeyError if d not in m else Either)(s)
            if d in m:
                raise ValueError(d)
            m[d] = m.pop(s)
    for k, v in e['add']:
        if k in m:
            raise ValueError(k)
        m[k] = v
    for k, v in e['maybe_add']:
        if k not in m:
            m[k] = v
    return m


class Either(Exception):
    pass


class OneShot:
    def __init__(self, x):
        self.i = iter(x)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self.i)


def kwargs(entries, how):
    out = {}
    for k in KINDS:
        x = [v for kind, v in entries if kind == k]
        if not x and how != 'all':
            continue
        pairs = 'move' not in k
        if how in ('list', 'all'):
            pass
        elif how == 'tuple':
            x = tuple(x)
        elif how == 'generator':
            x = (v for v in list(x))
        elif how == 'iterator':
            x = OneShot(x)
        elif how == 'mapping' and pairs and len(dict(x)) == len(x):
            x = dict(x)
        elif how == 'proxy' and pairs and len(dict(x)) == len(x):
            x = _types.MappingProxyType(dict(x))
        elif how == 'items' and pairs and len(dict(x)) == len(x):
            x = dict(x).items()
        elif how == 'string' and not pairs and len(x) == 1:
            x = x[0]
        elif how == 'substring' and not pairs and len(x) == 1:
            x = MyStr(x[0])
        elif how == 'substrings' and not pairs:
            x = [MyStr(k) for k in x]
        elif how == 'keys' and not pairs and len(set(x)) == len(x):
            x = dict.fromkeys(x).keys()
        out['keys_to_' + k] = x
    return out


HOWS = ('list', 'tuple', 'generator', 'iterator', 'mapping', 'proxy', 'items', 'string', 'substring', 'substrings', 'keys', 'all')


class K(RecordBase):
    a: object = NODEF
    b: object = NODEF
    c: object = NODEF


class X(RecordBase):
    a: object
    b: object
    c: object


def outcome(f, *a, **k):
    r = attempt(f, *a, **k)
    return r


def agree(ctx, where, got, exp, key='selection'):
    ctx.op()
    if exp[0] == 'ok':
        ctx.expect(got[0] == 'ok' and same_map(got[1], exp[1]), key, lambda: f'{where()}: {show(got)}, expected {exp[1]}')
        ctx.outcome(len(exp[1]))
    else:
        t = (KeyError, ValueError) if type(exp[1]) is Either else type(exp[1])
        ctx.expect(got[0] == 'err' and isinstance(got[1], t), key + '-error', lambda: f'{where()}: {show(got)}, expected {t}')
        ctx.outcome(type(exp[1]).__name__)


def same_map(a, b):
    a = dict(a)
    return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)


def cases(tier):
    yield from wide.cases('C19', tier)
    n = 4 if tier == 'thorough' else 3
    yield 'entries', (), 0
    for i in range(len(ENTRIES)):
        yield 'entries', (i,), 0
        for j in range(len(ENTRIES)):
            yield 'entries', (i, j), n - 2
    for kind in HANDLES:
        for i in range(len(OPS)):
            for j in range(len(OPS)):
                yield 'handles', kind, (i, j, 3 if tier == 'thorough' else 2)
    yield 'containers', 0, 0
    yield 'empty', 0, 0


def run(case, ctx):
    if case[0] == '__wide__':
        return wide.run('C19', ctx, case[1])
    kind = case[0]
    if kind == 'entries':
        for n in range(1 if case[2] else 0, case[2] + 1) if case[2] else (0,):
            for more in itertools.product(range(len(ENTRIES)), repeat=n):
                entries(ctx, [ENTRIES[i] for i in case[1] + more])
        if case[2]:
            entries(ctx, [ENTRIES[i] for i in case[1]])
    elif kind == 'handles':
        handles(ctx, case)
    elif kind == 'containers':
        containers(ctx)
    else:
        for s in (Select(), Select.empty, Select(keys_to_add=(), keys_to_remove=iter(())), Select().merge(Select()), Select().merge(Select(), keys_to_rename={})):
            for m in MAPS:
                ctx.expect(dict(s(dict(m))) == m and not s, 'empty', f'an empty selection changes {m}')
                ctx.op()
        ctx.expect(bool(Select(keys_to_maybe_remove='q')) and bool(Select().merge(keys_to_add={'a': None})), 'truth', 'a selection with keys is false')
        ctx.state(case)


def entries(ctx, E):
    exps = [outcome(model, E, m) for m in MAPS]
    ctx.state(repr(E))
    for how in HOWS:
        try:
            s = Select(**kwargs(E, how))
        except Exception as e:
            ctx.fail('construction', f'{E} given as {how}: {e!r}')
            continue
        for m, exp in zip(MAPS, exps):
            agree(ctx, lambda: f'{E} given as {how}, on {m}', outcome(s, dict(m)), exp)
        # again: a selection can be applied repeatedly
        for m, exp in zip(MAPS, exps):
            agree(ctx, lambda: f'{E} given as {how}, second use on {m}', outcome(s, dict(m)), exp)
    # split over several selections, merged or chained
    for cut in range(len(E) + 1):
        A, B = E[:cut], E[cut:]
        a, b = Select(**kwargs(A, 'list')), Select(**kwargs(B, 'iterator'))
        merged = [a.merge(b), a.merge(Select.empty, b), Select.empty.merge(a, b), a.merge(Select(), **kwargs(B, 'generator'))] + ([a.merge(**kwargs(B, 'mapping'))] if B else [])
        if len(B) == 2:
            merged.append(a.merge(Select(**kwargs(B[:1], 'tuple')), Select(**kwargs(B[1:], 'tuple'))))
            merged.append(a.merge(Select(**kwargs(B[:1], 'list')), **kwargs(B[1:], 'mapping')))
            merged.append(a.merge(Select(), Select(**kwargs(B[:1], 'substring')), Select.empty, **kwargs(B[1:], 'substring')))
            merged.append(a.merge(Select(**kwargs(B[:1], 'list')).merge(**kwargs(B[1:], 'list'))))
        for n, s in enumerate(merged):
            for m, exp in zip(MAPS, exps):
                agree(ctx, lambda: f'{A} merged with {B} (way {n}) on {m}', outcome(s, dict(m)), exp, 'merge')
        ea, eb = [outcome(model, A, m) for m in MAPS], [outcome(model, B, m) for m in MAPS]
        for m, x, y in zip(MAPS, ea, eb):
            agree(ctx, lambda: f'{A} on {m} after merging with {B}', outcome(a, dict(m)), x, 'merge-changed')
            agree(ctx, lambda: f'{B} on {m} after merging with {A}', outcome(b, dict(m)), y, 'merge-changed')
    # on import and on export
    for m, exp in zip(MAPS, exps):
        for cut in range(len(E) + 1):
            f = K.from_mapping
            for part in (E[:cut], E[cut:]):
                f = f.select(**kwargs(part, 'iterator')) if part else f.select(Select())
            src = dict(m)
            got = outcome(lambda: {k: v for k, v in vars(f(src)).items() if v is not NODEF})
            agree(ctx, lambda: f'{E} (cut at {cut}) importing {m}', got, exp, 'import')
            ctx.expect(src == m and list(src) == list(m), 'import-input', lambda: f'{E} importing {m}: the mapping became {src}')
        i = K(**m)
        e = i.to_dict.select(**kwargs(E, 'list')) if E else i.to_dict.select(Select())
        agree(ctx, lambda: f'{E} exporting {m}', outcome(e), exp, 'export')
        agree(ctx, lambda: f'{E} exporting {m} a second time', outcome(e), exp, 'export')
        ctx.expect({k: v for k, v in vars(i).items() if v is not NODEF} == m, 'export-changed', lambda: f'{E} exporting {m}: the record became {vars(i)}')
    ctx.trace()


# handles: each operation derives a new handle from the latest or the first one, or calls all of them
SELS = [[('rename', ('a', 'q'))], [('remove', 'b')], [('maybe_add', ('z', 9))], [('add', ('z', 1)), ('maybe_rename', ('q', 'r'))]]
EXPO = [dict(include_defaults=True), dict(whitelist_keys='c'), dict(include_defaults=False, sort=-1)]
OPS = [('last', 's', i) for i in range(len(SELS))] + [('first', 's', i) for i in range(len(SELS))] + [('last', 'e', i) for i in range(len(EXPO))] + [('first', 'e', 0), ('call', None, None), ('fail', None, None)]
HANDLES = ('to_dict', 'class-to_dict', 'to_json', 'from_mapping', 'custom-factory', 'custom-exporter')


class H(RecordBase):
    a: object
    b: object
    c: object = 5

    @SelectableFactory
    @classmethod
    def make(cls, m, **k):
        return {**m, **k}

    @Exporter
    @staticmethod
    def pairs(v, *args):
        return (sorted(v.items(), key=lambda t: t[0]), args)


class Imp(RecordBase):
    """accepts any of the keys a selection can produce"""
    a: object = NODEF
    b: object = NODEF
    c: object = NODEF
    q: object = NODEF
    r: object = NODEF
    z: object = NODEF

    @SelectableFactory
    @classmethod
    def make(cls, m, **k):
        return {**m, **k}


def handles(ctx, case):
    _, kind, (i, j, more) = case
    for rest in itertools.product(range(len(OPS)), repeat=more):
        seq = (i, j) + rest
        inst = H(a=1, b=[2], c=5)
        h = dict(zip(HANDLES, (inst.to_dict, H.to_dict, inst.to_json, Imp.from_mapping, Imp.make, inst.pairs)))[kind]
        hs = [(h, [], {})]
        imp = kind in ('from_mapping', 'custom-factory')
        for n, o in enumerate(seq):
            where, what, k = OPS[o]
            ctx.op()
            if where in ('last', 'first'):
                base, E, opts = hs[-1 if where == 'last' else 0]
                if what == 's':
                    hs.append((base.select(Select(**kwargs(SELS[k][:1], 'iterator')), **kwargs(SELS[k][1:], 'list')), E + SELS[k], opts))
                elif not imp:
                    hs.append((base.export_with(**EXPO[k]), E, {**opts, **EXPO[k]}))
            elif where == 'call' or n == len(seq) - 1:
                pass
            if where == 'fail':
                # failing uses
                for hh, _, _ in hs:
                    attempt(hh, object(), 1, 2)
                    attempt(hh.select, nonsense=1)
                    attempt(hh, nonsense=1)
            if where == 'call' or n == len(seq) - 1:
                for m, (hh, E, opts) in enumerate(hs):
                    call(ctx, lambda: f'{kind} operations {[OPS[x] for x in seq[:n + 1]]}, handle {m} ({E}, {opts})', kind, hh, E, opts, inst)
        ctx.trace()
        ctx.state(case, seq)


def call(ctx, where, kind, hh, E, opts, inst):
    if kind in ('from_mapping', 'custom-factory'):
        src = {'a': 1, 'b': [2]}
        exp = outcome(model, E, src)
        got = outcome(lambda: {k: v for k, v in vars(hh(src)).items() if v is not NODEF})
        agree(ctx, where, got, exp, 'handle')
        exp = outcome(model, E, {**src, 'c': 3})
        got = outcome(lambda: {k: v for k, v in vars(hh(src, c=3)).items() if v is not NODEF})
        agree(ctx, where, got, exp, 'handle')
        return
    d = {'a': 1, 'b': inst.b}
    if opts.get('include_defaults') or opts.get('whitelist_keys') == 'c':
        d['c'] = 5
    exp = outcome(model, E, d)
    if kind == 'to_dict':
        got = outcome(hh)
    elif kind == 'class-to_dict':
        got = outcome(hh, inst)
    elif kind == 'to_json':
        got = outcome(lambda: json.loads(hh()))
    else:
        r = outcome(hh, 'x', 'y')
        got = ('ok', dict(r[1][0])) if r[0] == 'ok' and r[1][1] == ('x', 'y') else r
    agree(ctx, where, got, exp, 'handle')


def containers(ctx):
    """what is given to a selection may be changed or consumed afterwards"""
    lst, d, rem = [('a', 'b')], {'z': 1}, ['c']
    s = Select(keys_to_rename=lst, keys_to_add=d, keys_to_remove=rem)
    t = s.merge(keys_to_maybe_remove=(x for x in 'q'))
    exp = {'b': 1, 'z': 1}
    for n in range(3):
        lst.append(('z', 'zz'))
        d['b'] = 5
        rem[:] = []
        for sel in (s, t, s.merge(t.empty if hasattr(t, 'empty') else Select())):
            got = outcome(sel, {'a': 1, 'c': 2})
            ctx.op()
            ctx.expect(got == ('ok', exp), 'containers', lambda: f'after changing the containers: {show(got)}')
    ctx.trace()
    ctx.state('containers')
    # a single key given as a string (of any string type) is that key, not its characters
    for key in ('ab', 'é', '', 'a', 'aba', 'key', '__class__', 'a b', 'self'):
        for how, given in (('string', key), ('string subclass', MyStr(key)), ('list', [key]), ('list of subclass', [MyStr(key)]), ('set', {key}), ('dict', {key: 0}), ('generator', (k for k in [key])), ('nested tuple', (key,))):
            given = [given] if how != 'generator' else [(k for k in [key]) for _ in range(9)]
            g = lambda: given[0] if len(given) == 1 else given.pop()  # noqa
            for m in ({key: 1}, {key: None, 'z': 2}, {'z': 2}, dict.fromkeys(key, 3), {**dict.fromkeys(key, 3), key: 4}):
                for kind in ('remove', 'maybe_remove'):
                    exp = outcome(model, [(kind, key)], m)
                    for way, s in (('Select', attempt(lambda: Select(**{'keys_to_' + kind: g()}))), ('merge', attempt(lambda: Select.empty.merge(**{'keys_to_' + kind: g()})))):
                        if how == 'generator':
                            given[:] = [(k for k in [key]) for _ in range(9)]
                        if s[0] != 'ok':
                            ctx.fail('single-key', f'{key!r} as {how}: {show(s)}')
                            continue
                        agree(ctx, lambda: f'keys_to_{kind}={key!r} given as {how} ({way}) on {m}', outcome(s[1], dict(m)), exp, 'single-key')
                ctx.state('single', key, how, repr(m))

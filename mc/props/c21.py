"""C21: every export route followed by every import route gives an equal record; pickles preserve values and attributes exactly; extras are looked up on use."""
import io
import itertools
import json
import pickle
import sys
import types as _types

from mc import wide
from mc.lib import *  # noqa
from records import Loose, Clamp, extras

BOUNDS = dict(quick=wide.TEXT + '; ' + 'all classes of 1-2 fields of 10 kinds, own or partly inherited, frozen or not, qualified name nested or not, x all value combinations (5-8 per kind) x 40 export/import routes; 12 foreign pickles per class; '
                    'arguments for the JSON and pickle libraries on every route; all sequences of up to 4 library replacements and uses', thorough='also classes of 3 fields of different kinds, 4 values each; sequences of up to 5')
RULE = 'one case = class shape (all its instances and routes) or one sequence prefix of library replacements'

MOD = _types.ModuleType('mc_c21_generated')
sys.modules[MOD.__name__] = MOD


class Holder:
    pass


class In(RecordBase, frozen=True):
    p: object
    q: object = 0


class Inm(RecordBase):
    p: object
    q: object = Factory(list)


class Txt:
    """shown as it is laid out"""

    def __init__(self, t):
        self.t = t

    def __eq__(self, o):
        return isinstance(o, Txt) and self.t == o.t

    def __hash__(self):
        return hash(self.t)

    def __repr__(self):
        return f'Txt("""{self.t}""")'


for c in (In, Inm, Txt):
    c.__module__ = MOD.__name__
    setattr(MOD, c.__qualname__, c)

NO = object()
# kind -> (annotation, default, [(value builder, JSON can represent it)])
J = True
KINDS = {
    'req': (object, NODEF, [(lambda: 1, J), (lambda: None, J), (lambda: 'é"\\\n\u2028', J), (lambda: [1, [2.5, {}]], J), (lambda: {'a': None, '': [True]}, J), (lambda: (1, ('x',)), 0), (lambda: In(p=[1]), 0),
                            (lambda: [Inm(p=In(p=b'z'), q=5)], 0)]),
    'zero': (object, 0, [(NO, J), (lambda: 0, J), (lambda: False, J), (lambda: 0.0, J), (lambda: None, J), (lambda: [], J), (lambda: 7, J)]),
    'none': (object, None, [(NO, J), (lambda: None, J), (lambda: '', J), (lambda: In(p=1, q=2), 0)]),
    'fac': (list, Factory(list), [(NO, J), (lambda: [], J), (lambda: [0, 'a'], J), (lambda: [In(p=None)], 0)]),
    'chk': (Annotated[int, check_strict], NODEF, [(lambda: 0, J), (lambda: -10 ** 20, J)]),
    'coe': (Annotated[int, check, Loose], NODEF, [(lambda: '5', J), (lambda: 12, J), (lambda: 2.7, J)]),
    'cla': (Annotated[float, check, Clamp(0.0, 9.0)], 3.0, [(NO, J), (lambda: -1.5, J), (lambda: 3.0, J), (lambda: 1e22, J)]),
    'exc': (Annotated[object, exclude_from_ordering, Tag('x')], NODEF, [(lambda: 0, J), (lambda: 'e', J), (lambda: (), 0)]),
    'txt': (object, Txt(''), [(NO, 0), (lambda: Txt('a\n  b\n\n\tc '), 0), (lambda: [Txt('\n'), {Txt('  x, f0=1)\n'): Txt(' ' * 80 + '...')}], 0), (lambda: 'a\nb' * 40, J)]),
    'rec': (Annotated[In, check], In(p='d'), [(NO, J), (lambda: In(p='d'), J), (lambda: In(p=()), 0)]),
}
CACHE = {}


def declare(kinds, split, frozen, nested):
    key = kinds, split, frozen, nested
    if key in CACHE:
        return CACHE[key]
    name = f'K{len(CACHE)}'
    body = {'__qualname__': f'Holder.{name}'} if nested else {}
    fields = [(f'f{i}', k) for i, k in enumerate(kinds)]

    def part(nm, fs, bases=(RecordBase,), **kw):
        return mk(nm, [(n, KINDS[k][0]) for n, k in fs], {n: KINDS[k][1] for n, k in fs if KINDS[k][1] is not NODEF}, bases=bases, module=MOD.__name__, **kw)

    if split:
        base = part(name + 'b', fields[:split])
        cls = part(name, fields[split:], (base,), frozen=frozen, body=body)
    else:
        cls = part(name, fields, frozen=frozen, body=body, ordered='exc' in kinds)
    setattr(Holder if nested else MOD, name, cls)
    MOD.Holder = Holder
    CACHE[key] = cls
    return cls


def seqs(n):
    ops = [('set', 'json', 'A'), ('set', 'json', 'B'), ('reset', 'json'), ('set', 'pickle', 'A'), ('set', 'pickle', 'B'), ('reset', 'pickle'), ('use',)]
    return itertools.product(ops, repeat=n)


def cases(tier):
    yield from wide.cases('C21', tier)
    for n in range(1, (4 if tier == 'thorough' else 3)):
        for kinds in itertools.product(KINDS, repeat=n):
            if n == 3 and len(set(kinds)) < 3:
                continue
            for split in range(n):
                if n == 3 and split == 2:
                    continue
                for frozen in (False, True):
                    yield 'class', kinds, split, frozen, (len(kinds) + split + frozen) % 2 == 0
    yield 'options', 0, 0
    n = 5 if tier == 'thorough' else 4
    for first in seqs(2):
        yield 'extras', first, n - 2


def run(case, ctx):
    if case[0] == '__wide__':
        return wide.run('C21', ctx, case[1])
    if case[0] == 'extras':
        return extras_case(ctx, case)
    if case[0] == 'options':
        return options_case(ctx)
    _, kinds, split, frozen, nested = case
    cls = declare(kinds, split, frozen, nested)
    for combo in itertools.product(*(range(min(len(KINDS[k][2]), 4 if len(kinds) == 3 else 99)) for k in kinds)):
        vals = [KINDS[k][2][i] for k, i in zip(kinds, combo)]

        def build():
            return cls(**{f'f{j}': v[0]() for j, v in enumerate(vals) if v[0] is not NO})

        trips(ctx, cls, build, frozen, all(v[1] for v in vals), f'{kinds} {combo} frozen={frozen}')
        ctx.state(case, combo)
    foreign(ctx, cls, kinds, case)


def equal(ctx, a, b, key, where):
    """a is what came back, b the original"""
    ctx.op()
    if a[0] != 'ok':
        ctx.fail(key, f'{where()}: {show(a)}')
        return
    a = a[1]
    ctx.expect(type(a) is type(b), key, lambda: f'{where()}: class {type(a)}')
    ctx.expect(a == b and b == a and not a != b, key, lambda: f'{where()}: {a!r} is not equal to {b!r}')
    for n in type(b)._fields:
        ctx.expect(getattr(a, n) == getattr(b, n), key, lambda: f'{where()}: {n} became {getattr(a, n)!r}, was {getattr(b, n)!r}')
    ctx.outcome(f'{key}:{type(a).is_frozen()}')


def trips(ctx, cls, build, frozen, jsonable, where):
    made = attempt(build)
    if made[0] != 'ok':
        ctx.fail('build', f'{where}: {show(made)}')
        return
    i = made[1]
    before = {k: v for k, v in vars(i).items()}
    names = list(cls._fields)
    # dictionary
    for opts in ({}, dict(include_defaults=True), dict(include_defaults=False, sort=True), dict(whitelist_keys=names[-1:]), dict(include_defaults=True, sort=-1)):
        for src, ex in (('instance', lambda: i.to_dict(**opts)), ('class', lambda: cls.to_dict(i, **opts)), ('handle', lambda: i.to_dict.export_with(**opts)())):
            for dst, im in (('call', lambda d: cls(**d)), ('from_mapping', cls.from_mapping), ('kwargs', lambda d: cls.from_mapping({}, **d))):
                equal(ctx, attempt(lambda: im(ex())), i, 'dict', lambda: f'{where}: dictionary of {src} with {opts} through {dst}')
    equal(ctx, attempt(cls.from_instance, i), i, 'instance', lambda: f'{where}: from_instance')
    ns = _types.SimpleNamespace(**before)
    equal(ctx, attempt(cls.from_instance, ns), i, 'instance', lambda: f'{where}: from_instance of a namespace')
    # JSON
    if jsonable:
        # a record default can only be left out
        optsl = [{}, dict(include_defaults=False, sort=True)] + ([] if any(isinstance(v, RecordBase) for v in before.values()) else [dict(include_defaults=True), dict(include_defaults=True, sort=-1)])
        for opts in optsl:
            for args, kw in (((), {}), ((), dict(indent=2)), ((), dict(sort_keys=True, ensure_ascii=False))):
                equal(ctx, attempt(lambda: cls.from_json(i.to_json.export_with(**opts)(*args, **kw))), i, 'json', lambda: f'{where}: JSON {opts} {kw}')
                for h in (i.to_json.export_with(**opts), lambda *a, **k: cls.to_json.export_with(**opts)(i, *a, **k)):
                    texts = attempt(h, *args, **kw), attempt(written, h, *args, **kw), attempt(lambda: json.dumps(i.to_dict(**opts), *args, **kw))
                    ctx.op()
                    ctx.expect(texts[0] == texts[1] == texts[2], 'json-arguments', lambda: f'{where}: JSON {opts} {kw}: {texts}')
            equal(ctx, attempt(lambda: cls.from_json(cls.to_json.export_with(**opts)(i).encode())), i, 'json', lambda: f'{where}: JSON {opts} through the class')

            def viafile():
                f = io.StringIO()
                r = i.to_json.export_with(**opts)(io=f)
                assert r is None, r
                f.seek(0)
                return cls.from_json_io(f)
            equal(ctx, attempt(viafile), i, 'json-io', lambda: f'{where}: JSON file {opts}')
            r = attempt(lambda: json.loads(i.to_json.export_with(**opts)()))
            ctx.expect(r == attempt(lambda: json.loads(json.dumps(dict(i.to_dict(**opts))))), 'json-text', lambda: f'{where}: {show(r)}')
    # repr
    env = dict(vars(MOD), inf=float('inf'), nan=float('nan'))
    for rep in (lambda: repr(i), lambda: i.__repr__(include_defaults=True), lambda: str(i), lambda: f'{i!r}'):
        equal(ctx, attempt(lambda: eval(rep(), dict(env))), i, 'repr', lambda: f'{where}: repr {rep()}')
    # pickle
    for extra in ((), (('extra', [1, 'a']),), (('_private', None), ('f9', 'z'))):
        for used in (False, True):
            j = build()
            for k, v in extra:
                j.__dict__[k] = v
            if used:
                attempt(hash, j)
                j == build()
                attempt(lambda: j < j)
            for proto in (None, 2, 3, 4, 5, -1):
                pa = () if proto is None else (proto,)
                blob = attempt(j.to_pickle, *pa)
                if blob[0] != 'ok':
                    ctx.fail('pickle', f'{where}: to_pickle protocol {proto}: {show(blob)}')
                    continue

                def tofile():
                    f = io.BytesIO()
                    r = j.to_pickle(io=f) if proto is None else j.to_pickle(io=f, protocol=proto)
                    assert r is None, r
                    f.seek(0)
                    return cls.from_pickle_io(f)
                def shared(route):
                    # one file, other things before and after, each read takes what it wrote
                    f = io.BytesIO(b'first')
                    f.seek(5)
                    for x in (j, 'between', j):
                        route(x, f) if x is j else pickle.dump(x, f)
                    f.seek(5)
                    a, b, c = cls.from_pickle_io(f), pickle.load(f), cls.from_pickle_io(f)
                    assert b == 'between' and f.read() == b'' and a == j, (a, b, c)
                    return c
                outs = [('in a file with others', attempt(shared, lambda x, f: x.to_pickle(io=f, protocol=proto))), ('in a file written by pickle', attempt(shared, lambda x, f: pickle.dump(x, f, *pa))), ('from_pickle', attempt(cls.from_pickle, blob[1])), ('pickle.loads', attempt(pickle.loads, blob[1])), ('file', attempt(tofile)), ('pickle.dumps', attempt(lambda: pickle.loads(pickle.dumps(j, *pa)))),
                        ('kwargs', attempt(lambda: cls.from_pickle(blob[1], encoding='ASCII')))]
                for base in cls.__mro__[1:-1]:
                    outs += [(f'from_pickle of {base.__name__}', attempt(base.from_pickle, blob[1])), (f'from_pickle_io of {base.__name__}', attempt(lambda: base.from_pickle_io(io.BytesIO(blob[1]))))]
                for route, got in outs:
                    equal(ctx, got, j, 'pickle', lambda: f'{where}: {route} protocol {proto} extra {extra}')
                    if got[0] == 'ok':
                        g = {k: v for k, v in vars(got[1]).items() if k != '_hash'}
                        w = {k: v for k, v in vars(j).items() if k != '_hash'}
                        ctx.expect(g.keys() == w.keys() and all(same(g[k], w[k]) for k in w), 'pickle-state', lambda: f'{where}: {route} protocol {proto} extra {extra}: state {g}, was {w}')
                        if frozen:
                            for f in (lambda: setattr(got[1], 'f0', 1), lambda: setattr(got[1], 'new', 1), lambda: delattr(got[1], 'f0')):
                                ctx.expect(attempt(f)[0] == 'err', 'pickle-frozen', f'{where}: an unpickled record can be changed')
                            hs = attempt(hash, got[1]), attempt(hash, j)
                            ctx.expect(hs[0][0] == hs[1][0] and (hs[0][0] == 'err' or hs[0] == hs[1]), 'pickle-hash', lambda: f'{where}: hashes {hs}')
    after = {k: v for k, v in vars(i).items() if k != '_hash'}
    before.pop('_hash', None)
    ctx.expect(after.keys() == before.keys() and all(after[k] is before[k] for k in after), 'export-changed', lambda: f'{where}: exporting changed the record: {before} {after}')
    ctx.trace()


class Enc(json.JSONEncoder):
    def default(self, o):
        return ['encoded', type(o).__name__]


def written(h, *a, **k):
    f = io.StringIO()
    r = h(*a, io=f, **k)
    assert r is None, r
    return f.getvalue()


def options_case(ctx):
    """the arguments meant for the JSON and pickle libraries reach them, on every route"""
    for kinds in (('req',), ('req', 'zero'), ('zero', 'fac')):
        cls = declare(kinds, 0, False, False)
        for v in (1, {1, 2}, object, In(p=1), [In(p={3})], {'k': (1, b'x')}, 1e300, 'é', float('inf'), {2: 1}):
            i = cls(f0=v)
            for kw in ({}, dict(cls=Enc), dict(default=lambda o: 'd' + type(o).__name__), dict(default=repr, indent=1), dict(separators=(',', ':'), default=str), dict(sort_keys=True), dict(ensure_ascii=False), dict(allow_nan=False),
                       dict(skipkeys=True, cls=Enc), dict(indent='\t', default=lambda o: 0), dict(check_circular=False, default=lambda o: [])):
                if 'default' in kw and kw['default'] in (str, repr) and v is object:
                    continue
                exp = attempt(lambda: json.dumps(i.to_dict(), **kw))
                for how, h in (('instance', i.to_json), ('class', lambda **k: cls.to_json(i, **k)), ('export_with', i.to_json.export_with(include_defaults=False)), ('select', i.to_json.select(keys_to_maybe_remove='q')),
                               ('class select', lambda **k: cls.to_json.select(keys_to_maybe_remove='q')(i, **k))):
                    for what, got in (('text', attempt(h, **kw)), ('file', attempt(written, h, **kw))):
                        ctx.op()
                        ctx.expect(got == exp or got[0] == exp[0] == 'err' and type(got[1]) is type(exp[1]), 'json-arguments', lambda: f'{kinds} {v!r} {how} to_json({kw}) as {what}: {show(got)}, json.dumps gives {show(exp)}')
                ctx.trace()
                ctx.state('options', kinds, repr(v)[:9], tuple(kw))
                ctx.outcome(f'options:{exp[0]}')
            # reading
        for text, kw in (('{"f0": 1.5}', dict(parse_float=str)), ('{"f0": [1, 2]}', dict(parse_int=float)), ('{"f0": NaN}', dict(parse_constant=repr)), ('{"f0": {"a": 1}}', dict(object_pairs_hook=lambda p: dict(p, f1=5))),
                         ('{"f0": {"a": 1}}', dict(object_hook=lambda d: dict(d, f1=7))), ('{"f0": 1}', dict(nonsense=1)), ('{"f0": "a\nb"}', dict(strict=False)), ('{"f0": "a\nb"}', dict(strict=True))):
            exp = attempt(lambda: cls(**json.loads(text, **kw)))
            for how, f in (('from_json', lambda: cls.from_json(text, **kw)), ('bytes', lambda: cls.from_json(text.encode(), **kw)), ('from_json_io', lambda: cls.from_json_io(io.StringIO(text), **kw)),
                           ('select', lambda: cls.from_json.select(keys_to_maybe_remove='q')(text, **kw)), ('io select', lambda: cls.from_json_io.select(keys_to_maybe_remove='q')(io.StringIO(text), **kw))):
                got = attempt(f)
                ctx.op()
                ctx.expect(got[0] == exp[0] and (got[0] == 'err' or type(got[1]) is cls and got[1] == exp[1]), 'json-arguments', lambda: f'{how} of {text!r} with {list(kw)}: {show(got)}, expected {show(exp)}')
            ctx.trace()
        i = cls(f0=['é', 1])
        for proto in range(2, 6):
            for kw in ({}, dict(fix_imports=False), dict(fix_imports=True)):
                blob = attempt(lambda: i.to_pickle(protocol=proto, **kw)), attempt(lambda: (lambda f: (i.to_pickle(io=f, protocol=proto, **kw), f.getvalue())[1])(io.BytesIO())), attempt(lambda: pickle.dumps(i, proto, **kw))
                ctx.op()
                ctx.expect(blob[0] == blob[1] == blob[2], 'pickle-arguments', lambda: f'to_pickle protocol {proto} {kw}: {blob}')
        bufs = []
        b = cls(f0=pickle.PickleBuffer(b'abc'))
        blob = attempt(lambda: b.to_pickle(protocol=5, buffer_callback=bufs.append))
        if blob[0] == 'ok':
            for got in (attempt(lambda: cls.from_pickle(blob[1], buffers=[b'xyz'] * len(bufs))), attempt(lambda: cls.from_pickle_io(io.BytesIO(blob[1]), buffers=[b'xyz'] * len(bufs)))):
                ctx.expect(got[0] == 'ok' and got[1].f0 == b'xyz', 'pickle-arguments', lambda: f'out-of-band buffers: {show(got)}')
        ctx.expect(blob[0] == 'ok' and bufs, 'pickle-arguments', lambda: f'out-of-band buffers: {show(blob)}')


def foreign(ctx, cls, kinds, case):
    sub = None
    inst = cls(**{f'f{j}': KINDS[k][2][0][0]() for j, k in enumerate(kinds) if KINDS[k][2][0][0] is not NO})
    good = inst.to_dict(include_defaults=True)
    ns = _types.SimpleNamespace(**good)
    objs = [good, {}, dict(good, zz=1), None, 5, 'x', '', b'', [1], (), json.dumps({'f0': 1}), ns, In(p=1), Inm(p=1), cls]
    for n, o in enumerate(objs):
        blob = pickle.dumps(o)
        exp = attempt(lambda: cls.parse(pickle.loads(blob)))
        for route, got in (('bytes', attempt(cls.from_pickle, blob)), ('file', attempt(cls.from_pickle_io, io.BytesIO(blob)))):
            ctx.op()
            ok = got[0] == exp[0] and (type(got[1]) is type(exp[1])) and (got[0] == 'err' or got[1] == exp[1])
            ctx.expect(ok, 'foreign', lambda: f'{case}: {route} of pickled {o!r}: {show(got)}, parsing it gives {show(exp)}')
            ctx.outcome(f'foreign:{exp[0]}')
    for bad in (b'', b'not a pickle', pickle.dumps(inst)[:-5]):
        got = attempt(cls.from_pickle, bad)
        ctx.expect(got[0] == 'err', 'foreign', lambda: f'{case}: from_pickle({bad!r}): {show(got)}')


class Lib:
    """a JSON or pickle replacement that marks what it writes and only reads its own marks"""

    def __init__(self, name, real, kind):
        self.name, self.real, self.kind, self.calls = name, real, kind, []

    def __getattr__(self, k):
        return getattr(self.real, k)

    def mark(self):
        m = f'<{self.name}>'
        return m if self.kind == 'json' else m.encode()

    def dumps(self, v, *a, **k):
        self.calls.append('dumps')
        return self.mark() + self.real.dumps(v, *a, **k)

    def dump(self, v, f, *a, **k):
        self.calls.append('dump')
        f.write(self.mark() + self.real.dumps(v, *a, **k))

    def loads(self, s, *a, **k):
        self.calls.append('loads')
        if not s.startswith(self.mark()):
            raise ValueError('not mine')
        return self.real.loads(s[len(self.mark()):], *a, **k)

    def load(self, f, *a, **k):
        self.calls.append('load')
        return self.loads(f.read(), *a, **k)


class E(RecordBase, frozen=True):
    x: object
    y: object = 0


E.__module__ = MOD.__name__
MOD.E = E


def extras_case(ctx, case):
    _, first, more = case
    for rest in seqs(more):
        seq = first + rest + (('use',),)
        orig = extras.json, extras.pickle
        try:
            extras.json, extras.pickle = json, pickle
            cur = {'json': None, 'pickle': None}
            i = E(x=1, y='b')
            bound = i.to_json, E.to_json, E.from_json, E.from_json_io, i.to_json.select(keys_to_maybe_remove='q')
            for n, o in enumerate(seq):
                where = f'{seq[:n + 1]}'
                ctx.op()
                if o[0] == 'set':
                    cur[o[1]] = Lib(o[2], json if o[1] == 'json' else pickle, o[1])
                    setattr(extras, o[1], cur[o[1]])
                elif o[0] == 'reset':
                    cur[o[1]] = None
                    setattr(extras, o[1], json if o[1] == 'json' else pickle)
                else:
                    use(ctx, where, i, cur, bound)
            ctx.trace()
            ctx.state(seq)
        finally:
            extras.json, extras.pickle = orig


def use(ctx, where, i, cur, bound):
    jm = cur['json'].mark() if cur['json'] else ''
    pm = cur['pickle'].mark() if cur['pickle'] else b''
    text = jm + json.dumps({'x': 1, 'y': 'b'})

    def tf(f):
        s = io.StringIO()
        f(s)
        return s.getvalue()

    def bf():
        s = io.BytesIO()
        i.to_pickle(io=s)
        return s.getvalue()
    outs = [('to_json', i.to_json, text), ('class to_json', lambda: E.to_json(i), text), ('bound to_json', bound[0], text), ('bound class to_json', lambda: bound[1](i), text), ('selecting to_json', bound[4], text),
            ('to_json io', lambda: tf(lambda s: i.to_json(io=s)), text), ('bound io', lambda: tf(lambda s: bound[0](io=s)), text),
            ('from_json', lambda: E.from_json(text), i), ('bound from_json', lambda: bound[2](text), i), ('from_json_io', lambda: E.from_json_io(io.StringIO(text)), i), ('bound from_json_io', lambda: bound[3](io.StringIO(text)), i),
            ('parse', lambda: E.parse(text), i),
            ('pickle', lambda: i.to_pickle(), pm + pickle.dumps(i)), ('pickle io', bf, pm + pickle.dumps(i)), ('from_pickle', lambda: E.from_pickle(pm + pickle.dumps(i)), i),
            ('from_pickle_io', lambda: E.from_pickle_io(io.BytesIO(pm + pickle.dumps(i))), i)]
    for name, f, exp in outs:
        got = attempt(f)
        ctx.op()
        ctx.expect(got[0] == 'ok' and type(got[1]) is type(exp) and got[1] == exp, 'extras', lambda: f'{where}: {name}: {show(got)}, expected {exp!r}')
        ctx.outcome(f'extras:{name}')
    # what the current library cannot read is not read
    for name, f, on in (('from_json', lambda: E.from_json('<C>{}'), 'json'), ('from_json unmarked', lambda: E.from_json('{"x": 1}'), 'json'), ('from_pickle unmarked', lambda: E.from_pickle(pickle.dumps(i)), 'pickle')):
        if cur[on] is None and 'unmarked' in name:
            continue
        got = attempt(f)
        ctx.expect(got[0] == 'err', 'extras', lambda: f'{where}: {name}: {show(got)}')

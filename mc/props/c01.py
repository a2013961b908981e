import itertools

from mc import wide
from mc import alpha
from mc.lib import *  # noqa

BOUNDS = dict(quick=wide.kinds.TEXT + '; ' + 'all classes of <=3 fields of 6 kinds (and 4 fields of 4 kinds), frozen or not, fields declared in one class or split over an inheritance '
                    'chain in every way, x every field absent/accepted/rejected/falsish/equal to default x {no, one, two} unknown names x all argument orders; every name known to '
                    'Python, the library or the class, and near misses of field names, as an unknown name; '
                    'classes of up to 257 fields, each (and, up to 33, each two) missing or unknown; field names that are also names of library parameters and locals; 20 singletons and other signal-like objects as values, defaults and results of factories, coercers and validators',
              thorough='as quick with all 6 kinds for 4 fields and 5 fields of 3 kinds')
RULE = 'one case = one class shape; inside: every set of supplied arguments in every order'
NAMES = ('x', 'b', 'zz', 'a', 'm')
# kind -> (annotation, default, {label: (value, stored) or None when rejected})
DEF = object()
SENT = [1]


def coerce(v):
    return int(v)


KINDS = {
    'R': (object, NODEF), 'K': (Annotated[int, check], NODEF), 'C': (Annotated[int, check, CallCoercion(coerce), CallValidation(lambda v: v if v < 50 else v + 100)], NODEF),
    'D': (object, SENT), 'F': (object, 'factory'), 'E': (Annotated[int, check], None),
}


def vals(kind):
    """label -> (supplied, stored)"""
    if kind in 'RDF':
        return [(o, o) for o in (object(), None)] + ([([1], 'self')] if kind == 'D' else [])
    if kind == 'K':
        return [(5, 5), (0, 0)]
    if kind == 'C':
        return [(5, 5), ('70', 170)]
    return [(7, 7), (0, 0)]


BAD = {'K': 'no', 'C': 'no', 'E': 'no'}


def cases(tier):
    yield from wide.cases('C01', tier)
    t = tier == 'thorough'
    for n in (1, 2, 3, 4, 5) if t else (1, 2, 3, 4):
        kinds = 'RKCDFE' if n < 4 or (t and n == 4) else ('RKDF' if n == 4 else 'RDK')
        for ks in itertools.product(kinds, repeat=n):
            for frozen in (False, True):
                splits = [(n,)] + [(i, n - i) for i in range(1, n)] + [(i, j, n - i - j) for i in range(1, n) for j in range(1, n - i)]
                if n >= 4:
                    splits = splits[:1] + splits[-1:]
                if n == 5 and frozen:
                    continue
                for sp in splits:
                    yield 'shape', ''.join(ks), frozen, sp
        if n == 2:
            for ks in itertools.product('RDK', repeat=2):
                yield 'multi', ''.join(ks), False, (1, 1)
    for ks in ('R', 'D', 'K', 'RD', 'DF'):
        for frozen in (False, True):
            for sp in [(len(ks),)] + [(1, 1)] * (len(ks) > 1):
                yield 'unknown', ks, frozen, sp
    for w in WIDE:
        for frozen in (False, True):
            for chain in (1, 2, 4):
                yield 'wide', w, frozen, chain
    for sign in alpha.SIGNS:
        for frozen in (False, True):
            yield 'sign', sign, frozen, 0
    for nm in ODD:
        for ks in ('R', 'RR', 'DR', 'RD', 'K', 'D'):
            for frozen in (False, True):
                yield 'name', nm, ks, frozen


ODD = ('arg', 'self', 'cls', 'kwargs', 'args', 'values', 'k', 'v', 'e', 'msg', 'parsing', 'redundant', 'required', 'arg_key', 'parent_error', 'replacement', 'field',
       'name', 'type', 'key', 'obj', 'default', 'owner', 'filler', 'x1', 'Ünïcode', 'U\u0308ni\u0308code', 'K', '\u212a', 'fi', '\ufb01', 'ª', 'straße', 'STRASSE', 'ſ', 's', 'µ', 'μ', 'origin', 'memo', 'frozen', 'ordered', 'unary_parse', 'default_type_check',
       'sort', 'include_defaults', 'blacklist_tags', 'whitelist_keys', 'v_', '_x', '__dunderish', 'io', 'select', 'maps', 'func', 'instance', 'other', 'a' * 300)


def build(case):
    calls = []

    def factory():
        calls.append(o := object())
        return o

    kind, ks, frozen, sp = case
    names = NAMES[:len(ks)]
    fields = []
    for nm, k in zip(names, ks):
        ann, d = KINDS[k]
        fields.append((nm, ann, Factory(factory) if d == 'factory' else d))
    base = (RecordBase,)
    if kind == 'multi':
        bs = [mk(f'B{i}', {f[0]: f[1]}, {f[0]: f[2]} if f[2] is not NODEF else {}) for i, f in enumerate(fields)]
        cls = mk('K', {}, bases=tuple(bs), frozen=frozen)
        return cls, names, calls
    i = 0
    for depth, w in enumerate(sp):
        part = fields[i:i + w]
        i += w
        last = depth == len(sp) - 1
        cls = mk('K' if last else f'P{depth}', {f[0]: f[1] for f in part}, {f[0]: f[2] for f in part if f[2] is not NODEF}, bases=base,
                 frozen=frozen if last else (depth % 2 == 1))
        base = (cls,)
    return cls, names, calls


def run(case, ctx):
    if case[0] == '__wide__':
        return wide.run('C01', ctx, case[1])
    if case[0] == 'name':
        return run_name(case, ctx)
    if case[0] == 'unknown':
        return run_unknown(case, ctx)
    if case[0] == 'wide':
        return run_wide(case, ctx)
    if case[0] == 'sign':
        return run_sign(case, ctx)
    cls, names, calls = build(case)
    ks = case[1]
    options = []
    for nm, k in zip(names, ks):
        o = [None] + [(nm, s, st, True) for s, st in vals(k)]
        if len(ks) >= 4:
            o = o[:2]
        if k in BAD:
            o.append((nm, BAD[k], None, False))
        options.append(o)
    for unknown in ((), ('nope',), ('q', 'Xx'), ('_' + names[0],)) if len(ks) < 4 else ((), ('nope',)):
        for combo in itertools.product(*options):
            sup = [c for c in combo if c is not None] + [(u, 1, None, True) for u in unknown]
            orders = itertools.permutations(sup) if len(sup) <= 3 else (sup, sup[::-1], sup[2:] + sup[:2])
            for order in orders:
                one(ctx, case, cls, names, ks, order, unknown, calls)


def one(ctx, case, cls, names, ks, order, unknown, calls):
    ctx.op()
    ctx.trace()
    given = {o[0] for o in order}
    missing = [n for n, k in zip(names, ks) if k in 'RKC' and n not in given]
    bad = [o for o in order if not o[3]]
    calls.clear()
    kw = {o[0]: o[1] for o in order}
    r = attempt(cls, **kw)
    ctx.state(case, tuple(o[0] + str(o[3]) + repr(type(o[1])) for o in order))
    where = lambda: f'{case}: {[(o[0], o[1]) for o in order]}'
    if unknown or missing or bad:
        ctx.outcome(f'fail u{len(unknown)} m{len(missing)} b{len(bad)}')
        if r[0] == 'ok':
            ctx.fail('accepted', f'{where()}: constructed {r[1]!r} (unknown {unknown}, missing {missing}, rejected {[b[0] for b in bad]})')
        if (unknown or missing) and not bad and not isinstance(r[1], TypeError):
            ctx.fail('error-type', f'{where()}: {show(r)}')
        return
    ctx.outcome(f'ok {len(order)}')
    if r[0] != 'ok':
        ctx.fail('rejected', f'{where()}: {show(r)} {r[1].__cause__!r}')
    inst = r[1]
    if type(inst) is not cls:
        ctx.fail('result-class', f'{where()}: {inst!r} is a {type(inst)}')
    byname = {o[0]: o for o in order}
    extra = [k for k in vars(inst) if k not in names and not k.startswith('_')]
    if extra:
        ctx.fail('extra-attributes', f'{where()}: {extra}')
    used = []
    for n, k in zip(names, ks):
        got = getattr(inst, n, NODEF)
        if n in byname:
            s, st = byname[n][1:3]
            ok = got is s if st == 'self' or st is s else same(got, st)
        elif k == 'D':
            ok = got is SENT
        elif k == 'E':
            ok = got is None
        else:
            ok = any(got is c for c in calls) and not any(got is u for u in used)
            used.append(got)
        if not ok:
            ctx.fail('stored-value', f'{where()}: field {n} ({k}) holds {got!r}')
    if len(calls) != len(used):
        ctx.fail('factory-calls', f'{where()}: {len(calls)} factory calls for {len(used)} omitted fields')


def run_unknown(case, ctx):
    """every name that means something to Python, to the library or to the class, and every near miss of a field's name, is unknown unless it is a field"""
    cls, names, calls = build(case)
    known = {n: 5 for n in names}
    inst = cls(**known)
    attempt(hash, inst)
    slots = [s for c in cls.__mro__ for s in (lambda x: [x] if isinstance(x, str) else x)(c.__dict__.get('__slots__', ()))]
    odd = {*dir(cls), *dir(type(cls)), *vars(inst), *slots, *ODD, '_hash', '_frozen', '', ' ', '*', '**', '0', 'None', 'True', 'def'} - {'arg', 'self', 'cls'}
    for n in names:
        odd |= {''.join(chr(ord(c) + 0xfee0) for c in n), n + '\u0301', n + '\u200b', ''.join(f'\\u{ord(c):04x}' for c in n), n.encode().hex()}
        odd |= {n.upper(), n + ' ', ' ' + n, n + n, n[:-1], '_' + n, n + '_', '__' + n, f'_K__{n}', n + '\0', n + '.', '-' + n}
    odd -= set(names)
    for u in sorted(odd):
        for k in range(len(names) + 1):
            for given in itertools.combinations(names, k):
                for val in (None, 1, [1]):
                    ctx.op()
                    ctx.trace()
                    ctx.state(case, u, given, repr(val))
                    r = attempt(cls, **{**{n: known[n] for n in given}, u: val})
                    ctx.outcome(f'unknown {k}')
                    if r[0] == 'ok':
                        ctx.fail('accepted', f'{case}: constructed {r[1]!r} although {u!r} is not a field')
                    if not isinstance(r[1], TypeError):
                        ctx.fail('error-type', f'{case}: unknown {u!r}: {show(r)}')
    if [(n, getattr(inst, n)) for n in names] != list(known.items()):
        ctx.fail('stored-value', f'{case}: an instance changed')


WIDE = (5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257)


def run_wide(case, ctx):
    """many fields, declared in one class or along an inheritance chain: each one missing, each one given alone, each unknown one"""
    _, w, frozen, chain = case
    names = [f'f{i}' for i in range(w)]
    optional = {n for i, n in enumerate(names) if i % 3 == 1}
    base, i = (RecordBase,), 0
    for depth in range(chain):
        part = names[i:] if depth == chain - 1 else names[i:i + w // chain]
        i += len(part)
        cls = mk(f'K{depth}', {n: Annotated[int, check] if j % 2 else object for j, n in enumerate(part)}, {n: ('default', n) for n in part if n in optional}, bases=base, frozen=frozen)
        base = (cls,)
    full = {n: k for k, n in enumerate(names)}

    def one(kw, good):
        ctx.op()
        ctx.trace()
        r = attempt(cls, **kw)
        ctx.outcome(f'wide {good}')
        if not good:
            if r[0] == 'ok' or not isinstance(r[1], TypeError):
                ctx.fail('accepted', f'{case}: {len(kw)} keywords, missing {sorted(full.keys() - kw.keys() - optional)}, unknown {sorted(kw.keys() - full.keys())}: {show(r)}')
        else:
            ctx.expect(r[0] == 'ok' and [(n, getattr(r[1], n, None)) for n in names] == [(n, kw.get(n, ('default', n))) for n in names], 'stored-value', lambda: f'{case}: {sorted(kw)}: {show(r)}')
    for order in (1, -1):
        one(dict(list(full.items())[::order]), True)
        one({n: full[n] for n in names[::order] if n not in optional}, True)
    for j, n in enumerate(names):
        ctx.state(case, j)
        one({k: v for k, v in full.items() if k != n}, n in optional)
        one({**full, f'f{w + j}': 1}, False)
        one({**{k: v for k, v in full.items() if k != n}, f'f{w}': 1}, False)
        one({n: full[n]}, full.keys() - {n} <= optional)
        for m in names[j + 1:] if w <= 33 else ():
            one({k: v for k, v in full.items() if k not in (n, m)}, {n, m} <= optional)


def run_sign(case, ctx):
    """no object given, used as a default, or made by a factory, a coercer or a validator means anything but itself"""
    _, sign, frozen, _ = case
    s = alpha.SIGNS[sign]
    to = CallValidation(lambda v: s)
    fields = [('r', object, NODEF), ('k', Annotated[object, check], NODEF), ('u', typing.Union[Annotated[int, check], Annotated[object, check]], NODEF),
              ('v', Annotated[object, to], NODEF), ('c', Annotated[type(s), check, CallCoercion(lambda v: s)], NODEF), ('d', object, s), ('w', object, Factory(lambda: s)), ('p', object, 1)]
    for n in (1, 2, 3):
        for some in itertools.permutations(fields, n):
            dfl = {f[0]: f[2] for f in some if f[2] is not NODEF}
            cls = mk('K', {f[0]: f[1] for f in some}, dfl, frozen=frozen)
            for give in itertools.product((False, True), repeat=n):
                ctx.op()
                ctx.trace()
                kw = {f[0]: object() if f[0] in 'vc' else s for f, g in zip(some, give) if g}
                missing = [f[0] for f, g in zip(some, give) if not g and f[2] is NODEF]
                ctx.state(case, tuple(f[0] for f in some), give)
                r = attempt(cls, **kw)
                ctx.outcome(f'sign {len(missing)}')
                if missing:
                    if r[0] == 'ok' or not isinstance(r[1], TypeError):
                        ctx.fail('accepted', f'{case}: {sorted(kw)} of {[f[0] for f in some]}: {show(r)}, {missing} missing')
                    continue
                if r[0] != 'ok':
                    ctx.fail('rejected', f'{case}: {sorted(kw)} of {[f[0] for f in some]}: {show(r)} {r[1].__cause__!r}')
                want = {f[0]: 1 if f[0] == 'p' and not g else s for f, g in zip(some, give)}
                got = {k: v for k, v in vars(r[1]).items() if k != '_hash'}
                if type(r[1]) is not cls or got.keys() != want.keys() or any(got[k] is not want[k] or getattr(r[1], k) is not want[k] for k in got):
                    ctx.fail('stored-value', f'{case}: {sorted(kw)} of {[f[0] for f in some]}: holds {got!r}, expected {want!r}')


def run_name(case, ctx):
    _, nm, ks, frozen = case
    names = (nm, 'other_field')[:len(ks)]
    anns = {n: KINDS[k][0] for n, k in zip(names, ks)}
    dfl = {n: KINDS[k][1] for n, k in zip(names, ks) if KINDS[k][1] is not NODEF}
    r = attempt(mk, 'K', anns, dfl, frozen=frozen)
    if r[0] != 'ok':
        ctx.fail('declaration', f'{case}: {show(r)}')
    cls = r[1]
    import unicodedata
    for other in {f(nm) for f in (str.upper, str.lower, str.casefold, str.title, *(lambda s, form=form: unicodedata.normalize(form, s) for form in ('NFC', 'NFD', 'NFKC', 'NFKD')))} - set(names):
        # names that only some normalisation makes equal
        for kw in ({other: 5}, {other: 5, **{n: 5 for n in names[1:]}}, {other: 5, **{n: 5 for n in names}}):
            ctx.op()
            r = attempt(lambda: cls(**kw))
            ctx.expect(r[0] == 'err' and isinstance(r[1], TypeError), 'accepted', lambda: f'{case}: keywords {kw}: {show(r)}')
    # (a keyword with a default value can be given to from_mapping as well, which uses keyword construction)
    for give in itertools.product((False, True), repeat=len(names)):
        ctx.op()
        ctx.trace()
        ctx.state(case, give)
        kw = {n: 5 for n, g in zip(names, give) if g}
        need = all(g or KINDS[k][1] is not NODEF for g, k in zip(give, ks))
        r = attempt(cls, **kw)
        good = need and r[0] == 'ok' and all(getattr(r[1], n) == (5 if n in kw else SENT) for n in names) or not need and r[0] == 'err'
        ctx.outcome((good, need))
        if not good:
            key = f'field-named-{nm}' if nm in ('arg', 'self', 'cls') else 'field-name'
            ctx.fail(key, f'{case}: keywords {kw}: {show(r)}')

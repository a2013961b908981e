import itertools
import logging
import typing
import warnings

from mc import wide
from mc.lib import *  # noqa
from mc import lib

BOUNDS = dict(quick=wide.TEXT + '; ' + 'all validator sequences of length <=3 over 17 behaviours on a checked field, <=2 in 12 other positions (hollow, strict, coerced, '
                    'Optional, list/tuple/mapping element, NewType, inherited, pre_bind on hollow, checked and strict fields and along with annotated ones), <=3 with one token object standing for equal ones in 8 positions; conforming, coerced, rejected, falsish and omitted arguments',
              thorough='all sequences of length <=4 on a checked field and <=3 in the other positions')
RULE = 'one case = position and list of validators; inside: every argument, twice; calls, warnings, log records and stored objects compared'
ASSUMPTIONS = ['warnings are observed with the "always" filter']


class Custom(Exception):
    pass


class MyWarning(UserWarning):
    pass


class Box:
    pass


# name -> (factory(run) -> token, model(v) -> (new value | Raise, warnings, log records)
class R:
    """one run: the calls the implementation made, log records"""

    def __init__(self):
        self.calls, self.memo = [], {}
        self.records = []
        self.logger = logging.Logger('mc')
        h = logging.Handler()
        h.emit = lambda rec: self.records.append(rec)
        self.logger.addHandler(h)
        self.keep = []

    def f(self, name, fn):
        def call(v):
            self.calls.append((name, id(v)))
            self.keep.append(v)
            return self.pure(name, fn, v)

        return call

    def pure(self, name, fn, v):
        k = name, id(v)
        if k not in self.memo:
            try:
                self.memo[k] = True, fn(v)
            except Exception as e:
                self.memo[k] = False, e
        ok, r = self.memo[k]
        if not ok:
            raise r
        return r


def raises(e):
    def f(v):
        raise e
    return f


class AV(AssertValidation):
    """a user-made assertion validator given as an (uninstantiated) class"""

    def assert_(self, v):
        return v is not None


BEH = {
    'wrap': ('V', lambda v: Box(), {}), 'wrap2': ('V', lambda v: [v], {}), 'same': ('V', lambda v: v, {}), 'none': ('V', lambda v: None, {}),
    'ni': ('V', lambda v: NotImplemented, {}), 'dots': ('V', lambda v: ..., {}), 'vexc': ('V', lambda v: ValueError('x'), {}), 'vcls': ('V', lambda v: int, {}), 'vfalse': ('V', lambda v: False, {}), 'vtrue': ('V', lambda v: True, {}),
    'ani': ('A', lambda v: Ellipsis, {}), 'aexc': ('A', lambda v: ValueError('x'), {}), 'a0.0': ('A', lambda v: 0.0, {}), 'acls': ('A', lambda v: int, {}),
    'zero': ('V', lambda v: 0, {}), 'empty': ('V', lambda v: '', {}),
    'key': ('V', raises(KeyError('k')), {}), 'custom': ('V', raises(Custom('c')), {}),
    'true': ('A', lambda v: True, {}), 'truthy': ('A', lambda v: 'x', {}), 'false': ('A', lambda v: False, {}), 'falsy': ('A', lambda v: [], {}),
    'araise': ('A', raises(LookupError('l')), {}), 'ferr': ('A', lambda v: False, dict(err='bad')), 'fexc': ('A', lambda v: None, dict(err=KeyError('e'))),
    'warn': ('A', lambda v: False, dict(warn=True)), 'okwarn': ('A', lambda v: True, dict(warn=True)),
    'wexc': ('A', lambda v: False, dict(warn=True, err=MyWarning('m'))), 'log': ('A', lambda v: 0, dict(warn='logger')),
    'wmsg': ('A', lambda v: False, dict(warn=True, err='msg')), 'nn': ('A', lambda v: v is not None, {}), 'oklog': ('A', lambda v: True, dict(warn='logger')),
}
MAIN = ('wrap', 'same', 'none', 'zero', 'key', 'true', 'false', 'araise', 'fexc', 'warn', 'wexc', 'log', 'nn', 'ferr', 'custom', 'wmsg', 'truthy')


def shared(run, names):
    """equal names stand for one token object"""
    memo = {n: token(run, n) for n in names}
    return tuple(memo[n] for n in names)


def token(run, name):
    kind, fn, kw = BEH[name]
    if kind == 'V':
        return CallValidation(run.f(name, fn))
    kw = dict(kw)
    if kw.get('warn') == 'logger':
        kw['warn'] = run.logger
    return AssertCallValidation(run.f(name, fn), **kw)


def model(run, names, v):
    """-> ('ok', value) or ('err', exception type), calls, warnings, number of log records"""
    calls, warns, logs = [], [], 0
    for n in names:
        kind, fn, kw = BEH[n]
        calls.append((n, id(v)))
        run.keep.append(v)
        try:
            r = run.pure(n, fn, v)
        except Exception as e:
            return ('err', type(e)), calls, warns, logs
        if kind == 'V':
            v = r
        elif not r:
            w, err = kw.get('warn'), kw.get('err', 'validation failed')
            if not w:
                return ('err', type(err) if isinstance(err, Exception) else ValueError), calls, warns, logs
            if w == 'logger':
                logs += 1
            elif isinstance(err, Exception):
                warns.append((type(err), str(err)))
            else:
                warns.append((UserWarning, err))
    return ('ok', v), calls, warns, logs


POS = {
    # position: (annotation from the annotated leaf and style, class default, wrap the leaf value into an argument, look the leaf value up)
    'check': (lambda a: Annotated[(int, check) + a], hollow, None),
    'hollow': (lambda a: ann(int, a), hollow, None),
    'strict': (lambda a: Annotated[(int, check_strict) + a], hollow, None),
    'class': (lambda a: ann(int, a), check, None),
    'opt': (lambda a: typing.Optional[ann(int, a)], check, None),
    'optout': (lambda a: ann(typing.Union[int, str], a), check, None),
    'list': (lambda a: typing.List[ann(int, a)], check, 'list'),
    'vtup': (lambda a: typing.Tuple[ann(int, a), ...], check, 'tuple'),
    'tup': (lambda a: typing.Tuple[str, ann(int, a)], check, 'pair'),
    'dictv': (lambda a: typing.Dict[str, ann(int, a)], check, 'dict'),
    'newtype': (lambda a: typing.NewType('N', ann(int, a)), check, None),
    'any': (lambda a: ann(typing.Any, a), check, None),
    'whole': (lambda a: ann(typing.List[int], a), check, None),
    'wtup': (lambda a: ann(typing.Tuple[int, ...], a), check, None),
    'wfix': (lambda a: ann(typing.Tuple[int, int], a), check, None),
    'wdict': (lambda a: ann(typing.Dict[str, int], a), check, None),
    'wtype': (lambda a: ann(typing.Type[int], a), check, None),
    'wlit': (lambda a: ann(typing.Literal[1, 7], a), check, None),
    'nested': (lambda a: ann(ann(int, a[:1]), a[1:]), check, None),
}
SAFE = ('same', 'true', 'false', 'key', 'araise', 'fexc', 'warn', 'wexc', 'log', 'nn', 'ferr')


def cases(tier):
    yield from wide.cases('C07', tier)
    t = tier == 'thorough'
    for n in range(0, 5 if t else 4):
        for vs in itertools.product(MAIN, repeat=n):
            yield 'check', vs
    for p in POS:
        if p == 'check':
            continue
        beh = SAFE if p in ('whole', 'wtup', 'wfix', 'wdict', 'wtype', 'wlit') else MAIN
        for n in range(0 if p != 'nested' else 1, 4 if t else 3):
            for vs in itertools.product(beh, repeat=n):
                yield p, vs
    for p in ('prebind', 'prebindhollow', 'prebindhalf', 'prebindstrict', 'inherit', 'coerced', 'coercedstrict', 'hunion', 'sibling'):
        for n in range(1, 4 if t else 3):
            for vs in itertools.product(MAIN, repeat=n):
                yield p, vs
    for p in ('check', 'hollow', 'strict', 'list', 'newtype', 'any', 'nested', 'dictv'):
        for n in range(2, 5 if t else 4):
            for vs in itertools.product(('wrap', 'same', 'zero', 'key', 'true', 'warn', 'log', 'false', 'nn'), repeat=n):
                if len(set(vs)) < n and not ('key' in vs[:-1] or 'false' in vs[:-1]):
                    yield p, vs, 'shared'
    for v in BEH:
        yield 'check', (v,)
        yield 'hollow', (v, v, v)
        for w in ('same', 'wrap', 'nn', 'true', 'zero', v):
            yield 'hollow', (v, w)
            yield 'check', (w, v)
            yield 'strict', (w, v, w)
            yield 'list', (v, w)
    yield 'classtoken', ()


GOOD = {'whole': lambda: [1, 2], 'wtup': lambda: (1, 2), 'wfix': lambda: (1, 2), 'wdict': lambda: {'a': 1}, 'wtype': lambda: bool, 'wlit': lambda: 7}
BAD = {'whole': [(), ['a'], 5, None], 'wtup': [[1], ('a',), None], 'wfix': [[1, 2], 3, None], 'wdict': [[], 3], 'wtype': [3, None], 'wlit': ['b', None, 2.5]}
# right container, wrong contents: the validators of the container may or may not run, but construction fails
BADIN = {'whole': [['a']], 'wtup': [('a',)], 'wfix': [(1, 'a'), (1,)], 'wdict': [{'a': 'b'}], 'wtype': [str], 'wlit': [2]}


def run(case, ctx):
    if case[0] == '__wide__':
        return wide.run('C07', ctx, case[1])
    pos, names, *opt = case
    R_ = R()
    if pos == 'classtoken':
        return class_tokens(ctx)
    make = (lambda: shared(R_, names)) if opt else (lambda: tuple(token(R_, n) for n in names))
    toks = make()
    acc, rej, conv = [5, 0, 10 ** 9], ['a', None, 1.5], {}
    names_by = {}
    if pos in POS:
        mkann, default, wrap = POS[pos]
        cls = mk('K', {'x': mkann(toks)}, default_type_check=default)
        if pos == 'strict':
            rej.append(True)
        elif pos not in ('hollow',):
            acc.append(True)
        if pos in ('hollow', 'any'):
            acc, rej = acc + rej + ['', [], False, object()], []
        if wrap:
            rej.remove(None)  # some validators return None themselves
        if pos == 'opt':
            rej = [r for r in rej if r is not None]
            names_by[None] = ()
        if pos == 'optout':
            acc, rej = acc + ['a', ''], [1.5, None]
        if pos in GOOD:
            acc, rej = [GOOD[pos]()], [v for v in BAD[pos] if v not in BADIN[pos]]
    elif pos.startswith('prebind'):
        wrap = None
        late = names[len(names) // 2:] if pos == 'prebindhalf' else names

        def pre_bind(cls):
            for n in late:
                kind, fn, kw = BEH[n]
                kw = dict(kw)
                if kw.get('warn') == 'logger':
                    kw['warn'] = R_.logger
                g = R_.f(n, fn)
                m = cls.x.add_validator if kind == 'V' else cls.x.add_assert_validator
                if m(g, **kw) is not g:
                    ctx.fail('decorator-result', f'adding {n} in pre_bind does not return the function itself')

        hint = {'prebind': Annotated[int, check], 'prebindhollow': int, 'prebindstrict': Annotated[int, check_strict],
                'prebindhalf': Annotated[(int, check, *toks[:len(toks) // 2])]}[pos]
        cls = mk('K', {'x': hint}, body={'pre_bind': classmethod(pre_bind)})
        if pos == 'prebindhalf':
            # tokens added in the class body come before those of the annotation, as they are applied first
            names = late + names[:len(names) // 2]
        if pos == 'prebindhollow':
            acc, rej = acc + rej + ['', [], False, object()], []
        elif pos == 'prebindstrict':
            rej.append(True)
        else:
            acc.append(True)
    elif pos == 'inherit':
        wrap = None
        base = mk('Base', {'x': Annotated[(int, check) + toks]})
        mid = mk('Mid', {'y': str}, {'y': 'd'}, bases=(base,))
        cls = mk('K', {'z': str}, {'z': 'd'}, bases=(mid,))
    elif pos == 'sibling':
        # two fields sharing the token objects
        wrap = None
        cls = mk('K', {'x': Annotated[(int, check) + toks], 'y': Annotated[(str,) + toks]}, {'y': 'omitted'})
    elif pos in ('coerced', 'coercedstrict'):
        wrap = None
        st = check if pos == 'coerced' else check_strict
        coerced = 10 ** 12 + 1
        cls = mk('K', {'x': Annotated[(int, st, CallCoercion(lambda v: {'a': coerced, True: coerced}[v])) + toks]})
        conv = {'a': coerced}
        if pos == 'coercedstrict':
            conv[True] = coerced
            acc.append(True)
        acc.append('a')
        rej = [None, 1.5]
    elif pos == 'hunion':
        wrap = None
        cls = mk('K', {'x': Annotated[(typing.Union[int, str],) + toks]})
        acc, rej = [5, 'a', 1.5], []
    else:
        raise AssertionError(pos)
    for rep in range(2):
        for a in acc:
            v = conv.get(a, a) if not isinstance(a, (list, dict)) else a
            nm = () if (pos == 'opt' and a is None) else names
            one(ctx, case, R_, cls, pos, wrap, nm, a, v)
        for a in rej:
            ctx.op()
            ctx.trace()
            ctx.state(case, 'rej', a)
            R_.calls.clear()
            r = attempt(cls, x=wrapped(wrap, a))
            if r[0] == 'ok':
                ctx.fail('accepted', f'{case}: {a!r} accepted')
            if any(i == id(a) for _, i in R_.calls):
                ctx.fail('validator-on-rejected', f'{case}: validators called for {a!r}, which fails its type check: {R_.calls}')
        for a in BADIN.get(pos, ()):
            if attempt(cls, x=a)[0] == 'ok':
                ctx.fail('accepted', f'{case}: {a!r} accepted')
    # defaults are never validated
    R_.calls.clear()
    if pos in POS:
        d = object()
        dc = mk('D', {'x': POS[pos][0](make())}, {'x': d}, default_type_check=POS[pos][1])
        df = mk('D', {'x': POS[pos][0](make())}, {'x': Factory(lambda: d)}, default_type_check=POS[pos][1])
        for c in (dc, df):
            if attempt(lambda: c().x is d) != ('ok', True) or R_.calls:
                ctx.fail('validated-default', f'{case}: the default was not stored as is, or was validated')


def wrapped(wrap, v):
    return {None: v, 'list': [4, v], 'tuple': (4, v), 'pair': ('s', v), 'dict': {'s': 4, 't': v}}[wrap]


def unwrap(wrap, w):
    if wrap is None:
        return [w]
    if wrap in ('list', 'tuple'):
        return list(w)
    if wrap == 'pair':
        return [w[1]]
    return [w['s'], w['t']]


def one(ctx, case, R_, cls, pos, wrap, names, a, v):
    ctx.op()
    ctx.trace()
    ctx.state(case, a)
    arg = wrapped(wrap, a)
    exp_vals, calls, warns, logs, err = [], [], [], 0, None
    for leaf in ([4, v] if wrap in ('list', 'tuple', 'dict') else [v]):
        res, c, w, l = model(R_, names, leaf)
        calls += c
        warns += w
        logs += l
        if res[0] == 'err':
            err = res[1]
            break
        exp_vals.append(res[1])
    R_.calls.clear()
    R_.records.clear()
    with warnings.catch_warnings(record=True) as got:
        warnings.simplefilter('always')
        r = attempt(cls, x=arg)
    gw = [(w.category, str(w.message)) for w in got]
    where = f'{case}, argument {arg!r}'
    ctx.outcome(err.__name__ if err else f'ok{len(warns)}{logs}')
    if pos == 'hunion':
        if r[0] == 'ok' and r[1].x is arg and not R_.calls and names:
            return ctx.fail('hollow-union-validators-ignored', where)
    if pos == 'optout' and err is None and len(exp_vals) == 1:
        pass
    if err is not None:
        if r[0] == 'ok':
            ctx.fail('accepted', f'{where}: constructed although a validator fails')
        if pos not in ('opt', 'optout') and type(r[1]) is not err:
            ctx.fail('error-type', f'{where}: {show(r)}, expected {err.__name__}')
    else:
        if r[0] != 'ok':
            ctx.fail('rejected', f'{where}: {show(r)} {r[1].__cause__!r}')
        stored = unwrap(wrap, r[1].x)
        if len(stored) != len(exp_vals) or any(s is not e for s, e in zip(stored, exp_vals)):
            ctx.fail('stored-value', f'{where}: stored {stored!r}, expected the objects {exp_vals!r}')
    if R_.calls != calls:
        ctx.fail('calls', f'{where}: validators called {[c[0] for c in R_.calls]}, expected {[c[0] for c in calls]} (or with other objects)')
    if gw != warns:
        ctx.fail('warnings', f'{where}: warnings {gw}, expected {warns}')
    if len(R_.records) != logs or any(rec.levelno != logging.WARNING for rec in R_.records):
        ctx.fail('log', f'{where}: {len(R_.records)} log records, expected {logs}')


def class_tokens(ctx):
    """validators given as classes, instances, or mixed with tags and unrelated metadata"""
    for toks in itertools.permutations([AV, Tag('t'), 'doc', Truth, AssertCallValidation(lambda v: v != 9), 3.5], 4):
        c = mk('K', {'x': Annotated[(int,) + toks]})
        for v in (None, 0, 1, 9):
            ctx.op()
            ctx.trace()
            ctx.state(repr(toks), v)
            bad = (AV in toks and v is None) or (Truth in toks and not v) or (v == 9 and any(isinstance(t, AssertCallValidation) for t in toks))
            r = attempt(c, x=v)
            if (r[0] == 'err') != bool(bad):
                ctx.fail('class-token', f'{toks} with {v!r}: {show(r)}')

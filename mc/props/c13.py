"""C13: the meaning of a single positional argument, composed from the two readings tried separately."""
import itertools
from typing import ClassVar

from mc.canon import canon, observe
from mc import wide
from mc.lib import *  # noqa
from records import parser
from records.record import ParseFailure

BOUNDS = dict(quick=wide.TEXT + '; ' + 'classes: 0-3 required x (no, plain, falsish, factory) default x inherited or own x unary_parse (unset, on, off) x frozen x checked x 3 post-creation hooks x all subsets of at most 2 of '
                    '7 custom parsers; 21 arguments x 12 keyword sets each', thorough='the same with all subsets of at most 3 parsers')
RULE = 'one case = a class shape without its parsers; inside: every parser subset x argument x keyword set; each reading is also performed separately (every parser alone, keyword construction) and the outcome has to be their combination'


class HasX:
    x = 4
    y = 5
    z = 6

    def __repr__(self):
        return 'HasX'


class Falsy:
    def __bool__(self):
        return False

    def __repr__(self):
        return 'Falsy'


FALSY = Falsy()


def p_str(cls, v):
    if isinstance(v, str) and v[:1] == 'p':
        return cls(**{k: 100 for k in cls._fields})
    raise ValueError


def p_int(cls, v):
    return cls(**{k: v + 1 for k in cls._fields})


def p_none(v):
    if v == 'p5' or v == 5:
        return None
    raise KeyError(v)


def p_falsy(v):
    if v == 'p6' or v == 6:
        return FALSY
    raise LookupError(v)


def p_zero(v):
    if not isinstance(v, (dict, str)):
        raise AttributeError
    return 0


def p_same(cls, v):
    # the record that filling the field would give
    return cls(**{k: v for k in list(cls._fields)[:1]})


def p_raise(v):
    raise ParseFailure('never')


PARSERS = dict(p_str=classmethod(p_str), p_int=classmethod(p_int), p_none=staticmethod(p_none), p_falsy=staticmethod(p_falsy), p_zero=staticmethod(p_zero), p_raise=staticmethod(p_raise), p_same=classmethod(p_same))


def post_bad(self):
    if getattr(self, 'x', None) in (5, 'p5', 1):
        raise OSError('bad')


def post_rep(self):
    if getattr(self, 'x', None) in (5, 'p5', 1):
        return FALSY


POSTS = dict(none=None, bad=post_bad, rep=post_rep)
DEFAULTS = {'none': {}, 'plain': {'o': 7}, 'falsish': {'o': None}, 'factory': {'o': Factory(lambda: 3)}}
KWS = [{}, {'x': 1}, {'y': 2}, {'o': 8}, {'zz': 1}, {'x': 1, 'o': 2}, {'o': 'notint'}, {'x': None}, {'x': False}, {'x': ()}, {'x': ...}, {'x': NotImplemented}]


def args(K):
    a = [0, 5, 6, 'p5', 'p6', 'q', '', None, FALSY, HasX(), object(), {}, {'x': 1}, {'x': 2}, {'x': 1, 'y': 2, 'o': 3}, {'x': 1, 'zz': 1}, {'o': 3}, '{}', '{"x": 2}', '[]', K]
    for kw in ({}, {'x': 9}, {'x': 9, 'y': 8}, {'x': 9, 'y': 8, 'z': 7}):
        r = attempt(lambda: K(**kw))
        if r[0] == 'ok' and r[1] is not FALSY:
            a.append(r[1])
            break
    return a


def cases(tier):
    yield from wide.cases('C13', tier)
    for req, d, inh, un, fr, ch, po in itertools.product((0, 1, 2, 3), DEFAULTS, (False, True), (None, True, False), (False, True), (False, True), POSTS):
        if req == 0 and d == 'none' or inh and req + (d != 'none') < 2:
            continue
        yield req, d, inh, un, fr, ch, po, 3 if tier == 'thorough' else 2


def build(case, subset):
    req, d, inh, un, fr, ch, po, _ = case
    names = ['x', 'y', 'z'][:req]
    ann = {n: int for n in names}
    if d != 'none':
        ann['o'] = int
    body = {p: parser(type(PARSERS[p])(PARSERS[p].__func__)) for p in subset}
    if POSTS[po]:
        body['post_new'] = POSTS[po]
    kw = dict(unary_parse=un, frozen=fr, default_type_check=check if ch else hollow)
    if not inh:
        return mk('K', ann, DEFAULTS[d], body, **kw)
    first = dict(list(ann.items())[:1])
    rest = dict(list(ann.items())[1:])
    dd = DEFAULTS[d]
    P = mk('P', first, {k: v for k, v in dd.items() if k in first}, unary_parse=not un, default_type_check=kw['default_type_check'])
    return mk('K', rest, {k: v for k, v in dd.items() if k in rest}, body, bases=(P,), **kw)


def run(case, ctx):
    if case[0] == '__wide__':
        return wide.run('C13', ctx, case[1])
    limit = case[-1]
    req = case[0]
    for n in range(limit + 1):
        for subset in itertools.combinations(PARSERS, n):
            K = build(case, subset)
            unary = case[3] if case[3] is not None else req != 1
            trivial = 'x' if req == 1 else None
            for arg in args(K):
                parsed = []
                for p in list(subset) + ['from_mapping', 'from_instance', 'from_json']:
                    r = attempt(getattr(K, p), arg)
                    if r[0] == 'ok':
                        parsed.append(r[1])
                for kw in KWS:
                    got = attempt(lambda: K(arg, **kw))
                    exp = model(K, arg, kw, unary, trivial, parsed)
                    ctx.op()
                    ctx.trace()
                    ctx.state(case, subset, repr(arg)[:40], tuple(kw))
                    ctx.outcome(f'{exp[0]} {getattr(exp[1], "__name__", "")}'[:40])
                    compare(ctx, (case, subset), K, arg, kw, got, exp)
            for extra in ((1, 2), (1, 2, 3)):
                r = attempt(lambda: K(*extra))
                ctx.op()
                ctx.expect(r[0] == 'err' and isinstance(r[1], TypeError), 'several-positional', lambda: f'{case} {subset}: K{extra}: {show(r)}')


def model(K, arg, kw, unary, trivial, parsed):
    """('value', v) the very object or an equal record, or ('error', exception class or None)"""
    standing = []
    if unary and not kw:
        if len(parsed) > 1:
            return 'error', TypeError
        standing = parsed
    if trivial is None:
        if standing:
            return 'parsed', standing[0]
        return 'error', ParseFailure if unary and not kw else TypeError
    if trivial in kw:
        return 'error', TypeError
    fill = attempt(lambda: K(**{trivial: arg}, **kw))
    if fill[0] == 'ok' and standing:
        return 'error', TypeError
    if standing:
        return 'parsed', standing[0]
    if fill[0] == 'ok':
        return 'filled', fill[1]
    return 'error', type(fill[1])


def compare(ctx, where, K, arg, kw, got, exp):
    msg = lambda: f'{where}: K({arg!r}, {kw}): {show(got)}, expected {exp[0]} {exp[1]!r}'
    if exp[0] == 'error':
        ctx.expect(got[0] == 'err', 'accepted', msg)
        if got[0] == 'err':
            ctx.expect(isinstance(got[1], exp[1]), 'error-type', msg)
        return
    ctx.expect(got[0] == 'ok', 'rejected', msg)
    if got[0] == 'ok':
        ctx.expect(canon(got[1]) == canon(exp[1]), 'value', msg)

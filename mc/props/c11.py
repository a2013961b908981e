import datetime as dt
import decimal
import itertools
import math
import re
import warnings
from fractions import Fraction as Fr

from mc import wide
from mc.lib import *  # noqa
from records import extras

BOUNDS = dict(quick=wide.kinds.TEXT + '; ' + 'Clamp/Within/Cyclic: all pairs of bounds of a 9-value grid per domain (int, bool-ish, float, Fraction, Decimal, str, tuple, date, timedelta, '
                    'user-defined order; bounds missing, equal, reversed) x all inclusive/exclusive flags x all grid values and their midpoints; '
                    'FullMatch: 20 patterns x 3 ways of giving them x 40 subjects; Truth: 30 objects',
              thorough='grids of 13 values; Cyclic over every integer of [-40, 40] for every pair of bounds')
RULE = 'one case = validator kind, domain and bounds; inside: every value through a hollow field, a checked field and a list element'


class Ord:
    """a user-defined total order, compared through all six operators"""

    def __init__(self, n):
        self.n = n

    def __eq__(self, o):
        return isinstance(o, Ord) and self.n == o.n

    def __hash__(self):
        return hash(self.n)

    def __lt__(self, o):
        return self.n < o.n if isinstance(o, Ord) else NotImplemented

    def __le__(self, o):
        return self.n <= o.n if isinstance(o, Ord) else NotImplemented

    def __gt__(self, o):
        return self.n > o.n if isinstance(o, Ord) else NotImplemented

    def __ge__(self, o):
        return self.n >= o.n if isinstance(o, Ord) else NotImplemented

    def __repr__(self):
        return f'Ord({self.n})'


def grid(dom, n):
    r = range(-(n // 2), n - n // 2)
    return {
        'int': [i for i in r], 'float': [i / 2 for i in r], 'Fraction': [Fr(i, 3) for i in r], 'Decimal': [decimal.Decimal(i) / 4 for i in r],
        'str': ['', 'A', 'B', 'a', 'aa', 'ab', 'b', 'é', 'zz'][:n], 'tuple': [(), (0,), (0, 1), (1,), (1, 0), (1, 1), (2,), (2, 3), (3,)][:n],
        'date': [dt.date(2020, 1, 1) + dt.timedelta(days=i) for i in r], 'timedelta': [dt.timedelta(hours=i) for i in r], 'Ord': [Ord(i) for i in r],
        'mixed': [-2, -1.5, 0, False, True, 1.0, Fr(3, 2), 2, 10 ** 20][:n], 'frozenset': [frozenset(x) for x in ('', 'a', 'b', 'ab', 'c', 'ac', 'abc', 'bc', 'abcd')][:n], 'big': [-10 ** 30, -2 ** 63 - 1, -2.0 ** 53, 2 ** 53 - 1, 2.0 ** 53, 2 ** 53 + 1, 2 ** 64, 1e30, 10 ** 30, Fr(10 ** 31, 3), math.inf, -math.inf, 2 ** 53],
        'bytes': [b'', b'a', b'aa', b'b', b'\xff'],
    }[dom]


DOMS = ('int', 'float', 'Fraction', 'Decimal', 'str', 'tuple', 'date', 'timedelta', 'Ord', 'mixed', 'bytes', 'frozenset', 'big')
PATTERNS = ['a', 'a*', 'a|ab', '^a$', 'a$', '(?i)ab', '.', '.*', '', '[0-9]+', r'\d{3}', 'a.b', '(?s)a.b', 'a+?', r'(a)(b)?', 'x*a', r'\Aab\Z', '(?:ab)+', 'a\n', 'b|']
SUBJECTS = ['', 'a', 'b', 'ab', 'aab', 'A', 'AB', 'aB', 'a\n', 'a\nb', '\n', '123', '1234', '12', 'axb', 'aaa', 'abab', 'aba', 'a b', ' a', 'xa', 'xxa', '٣٤٥', 'é', 'ba', 'ab\n']


NAN = float('nan')
# values that have no place in the order of the domain
ALIEN = [NAN, decimal.Decimal('NaN'), None, 'q', b'q', 1, (5,), [1], object(), 1j, frozenset('ad'), ...]


BIG = [(0, 7), (-3, 4), (0, 360), (1, 10 ** 9 + 8), (10 ** 18, 10 ** 18 + 10), (-10 ** 20, 10 ** 20), (2 ** 53, 2 ** 53 + 3), (0, 2 ** 64), (Fr(0), Fr(1, 3)), (Fr(1, 7), Fr(10 ** 20)), (0, Fr(22, 7))]


def cases(tier):
    yield from wide.cases('C11', tier)
    n = 13 if tier == 'thorough' else 9
    for d in DOMS:
        m = len(grid(d, n))
        for a in list(range(m)) + [None]:
            for b in list(range(m)) + [None]:
                yield 'Clamp', d, a, b, n
                yield 'Within', d, a, b, n
    for d in ('int', 'float', 'Fraction', 'Decimal', 'timedelta'):
        for a, b in itertools.combinations(range(n), 2):
            yield 'Cyclic', d, a, b, n
    for a, b in ((0, 360), (-180, 180), (0.0, 1.0), (0.1, 0.3), (1e-3, 1e3), (0, 24), (-7, -3), (10 ** 9, 10 ** 9 + 7), (0.0, 2 * math.pi), (-0.5, 0.1)):
        yield 'CyclicF', 'float', a, b, n
    yield 'CyclicDate', 'date', 0, 0, n
    for i in range(len(BIG)):
        yield 'CyclicBig', i, 0, 0, n
    for i in range(len(PATTERNS)):
        yield 'FullMatch', i, 0, 0, n
    yield 'Truth', 0, 0, 0, n
    yield 'construct', 0, 0, 0, n


def fields(tok):
    """the validator on a hollow field, a checked field and on list elements, sharing or not the token object"""
    h = mk('H', {'x': Annotated[object, tok]})
    c = mk('C', {'x': Annotated[object, check, tok]})
    l = mk('L', {'x': list_of(Annotated[object, tok])}, default_type_check=check)
    yield 'hollow', lambda v: h(x=v).x
    yield 'checked', lambda v: c(x=v).x
    yield 'element', lambda v: l(x=[v]).x[0]


def list_of(t):
    from typing import List
    return List[t]


def run(case, ctx):
    if case[0] == '__wide__':
        return wide.run('C11', ctx, case[1])
    kind, d, a, b, n = case
    if kind in ('Clamp', 'Within', 'Cyclic'):
        g = grid(d, n)
        vals = list(g)
        # equal but distinct objects of the bounds
        lo, hi = (NODEF if i is None else g[i] for i in (a, b))
    if kind == 'Clamp':
        kw = {}
        if lo is not NODEF:
            kw['ge'] = lo
        if hi is not NODEF:
            kw['le'] = hi
        r = attempt(Clamp, **kw)
        ctx.op()
        if lo is not NODEF and hi is not NODEF and lo > hi:
            ctx.outcome('contradictory')
            if r[0] == 'ok' or not isinstance(r[1], ValueError):
                ctx.fail('contradictory-bounds', f'{case}: Clamp({lo!r}, {hi!r}): {show(r)}')
            return
        if r[0] == 'err':
            return ctx.fail('rejected-bounds', f'{case}: Clamp({lo!r}, {hi!r}): {show(r)}')
        for how, f in fields(r[1]):
            for v in vals + [copyval(x) for x in vals] + ALIEN:
                if d == 'frozenset' and isinstance(v, frozenset) and (lo is not NODEF and not (v <= lo or v >= lo) or hi is not NODEF and not (v <= hi or v >= hi)):
                    continue  # no bound is nearest
                try:
                    exp = lo if lo is not NODEF and v < lo else hi if hi is not NODEF and v > hi else v
                except (TypeError, decimal.InvalidOperation):
                    exp = NODEF
                got = attempt(f, v)
                compare(ctx, case, how, v, got, exp)
    elif kind == 'Within':
        for ge, le in itertools.product((None, True, False), repeat=2):
            kw = {}
            if lo is not NODEF:
                kw['ge'] = lo
            if hi is not NODEF:
                kw['lt'] = hi
            if ge is not None:
                kw['g_eq'] = ge
            if le is not None:
                kw['l_eq'] = le
            g_eq, l_eq = ge is not False, le is True
            r = attempt(Within, **kw)
            ctx.op()
            bad = lo is not NODEF and hi is not NODEF and (lo > hi or (lo == hi and not (g_eq and l_eq)))
            if bad:
                ctx.outcome('contradictory')
                if r[0] == 'ok' or not isinstance(r[1], ValueError):
                    ctx.fail('contradictory-bounds', f'{case}: Within({kw}): {show(r)}')
                continue
            if r[0] == 'err':
                ctx.fail('rejected-bounds', f'{case}: Within({kw}): {show(r)}')
                continue
            for how, f in fields(r[1]):
                for v in vals + ALIEN:
                    try:
                        ok = (lo is NODEF or (v >= lo if g_eq else v > lo)) and (hi is NODEF or (v <= hi if l_eq else v < hi))
                    except (TypeError, decimal.InvalidOperation):
                        ok = False  # there is no order between the value and the bound
                    compare(ctx, (case, ge, le), how, v, attempt(f, v), v if ok else NODEF)
            if ge is None and le is None:
                modes(ctx, case, kw, vals, lo, hi)
    elif kind == 'Cyclic':
        tok = Cyclic(lo, hi)
        period = hi - lo
        far = [lo + period * k + (hi - lo) / 2 if d in ('float', 'Fraction', 'Decimal') else lo + period * k for k in (-3, 2, 5)]
        if n > 9 and d == 'int':
            vals = list(range(-40, 41))
        for how, f in fields(tok):
            for v in vals + far + [lo - period, hi + period * 4]:
                exp = v
                while exp < lo:
                    exp = exp + period
                while exp >= hi:
                    exp = exp - period
                got = attempt(f, v)
                ctx.op()
                ctx.trace()
                ctx.state(case, how, repr(v))
                if v >= lo and v < hi:
                    compare(ctx, case, how, v, got, v)
                elif got[0] != 'ok' or got[1] != exp or not (lo <= got[1] < hi) or (type(lo) is type(v) and type(got[1]) is not type(v)):
                    ctx.fail('cyclic', f'{case} {how}: Cyclic({lo!r}, {hi!r}) of {v!r}: {show(got)}, expected {exp!r}')
                ctx.outcome(type(exp).__name__)
    elif kind == 'CyclicF':
        tok = Cyclic(a, b)
        period = Fr(b) - Fr(a)
        base = [a, b, (a + b) / 2, math.nextafter(b, -math.inf), math.nextafter(a, -math.inf), math.nextafter(b, math.inf), a - 1e-18, -1e-30, 0.0, -0.0, 1e-300]
        vs = base + [x + k * (b - a) for x in base for k in (-1000, -7, -1, 1, 2, 13, 999)] + [i / 7 for i in range(-60, 60)] + [1, -1, 5, 10 ** 6, -10 ** 6]
        for how, f in fields(tok):
            for v in vs:
                ctx.op()
                ctx.trace()
                ctx.state(case, how, v)
                got = attempt(f, v)
                if a <= v < b:
                    compare(ctx, case, how, v, got, v)
                    continue
                where = f'{case} {how}: Cyclic({a!r}, {b!r}) of {v!r}: {show(got)}'
                if got[0] != 'ok' or not a <= got[1] < b:
                    ctx.fail('cyclic-range', where)
                k = (Fr(v) - Fr(got[1])) / period
                # rounding of floats may move the result a little; it may also sit at the other end of the cycle then
                if abs(k - round(k)) * period > max(Fr(1, 10 ** 9) * period, max(abs(Fr(v)), abs(Fr(a)), abs(Fr(b))) * Fr(1, 10 ** 14)):
                    ctx.fail('cyclic-value', where + f' (off by {float(k)} periods)')
                ctx.outcome('float')
    elif kind == 'CyclicBig':
        # exact numbers of any size
        lo, hi = BIG[d]
        far = [s * (base + k) for base in (0, 2 ** 31, 2 ** 53, 2 ** 63, 2 ** 64, 10 ** 17, 3 * 10 ** 17, 10 ** 30, 10 ** 400) for k in range(-3, 6) for s in (1, -1)]
        far += [lo + (hi - lo) * k + j for k in (-10 ** 40, -2 ** 53 - 1, -1, 1, 2 ** 53 + 1, 10 ** 25 + 3) for j in (-1, 0, 1)] + [Fr(s * (10 ** 30 + 1), 3) for s in (1, -1)]
        for how, f in fields(Cyclic(lo, hi)):
            for v in far:
                inside = lo <= v < hi
                compare(ctx, case, how, v, attempt(f, v), v if inside else lo + (v - lo) % (hi - lo), ident=inside)
    elif kind == 'CyclicDate':
        D = dt.datetime
        for lo, hi in ((D(2020, 1, 1), D(2020, 1, 8)), (D(2020, 1, 1, 6), D(2020, 1, 1, 18))):
            for how, f in fields(Cyclic(lo, hi)):
                for h in range(-400, 400, 7):
                    v = lo + dt.timedelta(hours=h)
                    exp = lo + (v - lo) % (hi - lo)
                    compare(ctx, case, how, v, attempt(f, v), v if lo <= v < hi else exp, ident=lo <= v < hi)
    elif kind == 'FullMatch':
        p = PATTERNS[d]
        ways = [('str', p, 0), ('bytes', p.encode(), 0), ('compiled', re.compile(p), 0), ('flags', re.compile(p, re.I | re.S), re.I | re.S),
                ('cbytes', re.compile(p.encode(), re.I), re.I)]
        for way, pat, fl in ways:
            isb = 'bytes' in way
            ref = re.compile(p.encode() if isb else p, fl)
            for how, f in fields(FullMatch(pat)):
                for s in SUBJECTS:
                    for subj, wrongtype in ((s, isb), (s.encode(), not isb)):
                        m = None if wrongtype else ref.fullmatch(subj)
                        compare(ctx, (case, way), how, subj, attempt(f, subj), subj if m else NODEF)
                for junk in (None, 5, [], ['a'], ('a',)):
                    compare(ctx, (case, way), how, junk, attempt(f, junk), NODEF)
    elif kind == 'Truth':
        class Bad:
            def __bool__(self):
                raise LookupError('no truth value')

        class Len0:
            def __len__(self):
                return 0

        class F:
            def __bool__(self):
                return False

        class T:
            def __len__(self):
                return 0

            def __bool__(self):
                return True

        objs = [0, 1, -1, 0.0, -0.0, 1e-300, float('nan'), '', ' ', '0', 'False', b'', b'\0', None, True, False, [], [0], (), (None,), {}, {0: 0}, set(), {0},
                range(0), range(1), Len0(), F(), T(), object(), Ellipsis, NotImplemented and 0, len, int, 0j, 1j, Fr(0), decimal.Decimal('0.00')]
        for tok in (Truth, Truth()):
            for how, f in fields(tok):
                for v in objs:
                    compare(ctx, case, how, v, attempt(f, v), v if v else NODEF)
                if attempt(f, Bad())[0] == 'ok':
                    ctx.fail('truth', 'an object whose truth value raises was accepted')
    else:
        for f in (Clamp, Within):
            for bad in ((5, 3), ('b', 'a'), (1.5, 1), (True, False), (dt.date(2020, 1, 2), dt.date(2020, 1, 1))):
                r = attempt(f, *bad)
                ctx.op()
                ctx.trace()
                ctx.state(case, f.__name__, bad)
                if r[0] == 'ok' or not isinstance(r[1], ValueError):
                    ctx.fail('contradictory-bounds', f'{f.__name__}{bad}: {show(r)}')
        # the same validator object on several fields, and several validators on one field
        w = Within(0, 10)
        K = mk('K', {'x': Annotated[int, w, Clamp(2, 5)], 'y': Annotated[int, Clamp(2, 5), w], 'z': Annotated[int, Clamp(-5, 20), Cyclic(0, 4), w]})
        for v in range(-8, 25):
            exp = (max(2, min(v, 5)) if 0 <= v < 10 else NODEF, max(2, min(v, 5)), max(-5, min(v, 20)) % 4)
            r = attempt(lambda: K(x=v, y=v, z=v))
            ctx.op()
            ctx.trace()
            if (r[0] == 'ok') != (exp[0] is not NODEF) or r[0] == 'ok' and (r[1].x, r[1].y, r[1].z) != exp:
                ctx.fail('combination', f'{v}: {show(r)}, expected {exp}')


def modes(ctx, case, kw, vals, lo, hi):
    """warning mode and custom errors of the same bounds"""
    def ok(v):
        return (lo is NODEF or v >= lo) and (hi is NODEF or v < hi)
    W = mk('W', {'x': Annotated[object, Within(**kw, warn=True)]})
    E = mk('E', {'x': Annotated[object, Within(**kw, err=LookupError('out'))]})
    for v in vals:
        with warnings.catch_warnings(record=True) as got:
            warnings.simplefilter('always')
            r = attempt(lambda: W(x=v).x)
        if r[0] != 'ok' or r[1] is not v or len(got) != (not ok(v)):
            ctx.fail('warn-mode', f'{case}: {v!r}: {show(r)}, {len(got)} warnings')
        r = attempt(lambda: E(x=v).x)
        if (r[0] == 'ok') != ok(v) or r[0] == 'err' and type(r[1]) is not LookupError:
            ctx.fail('custom-error', f'{case}: {v!r}: {show(r)}')


def copyval(v):
    """an equal object, distinct where the type allows"""
    if isinstance(v, str):
        return ''.join(list(v)) if len(v) != 1 else v
    if isinstance(v, (float, int)) and not isinstance(v, bool) and abs(v) < 1e300:
        return float(v) if isinstance(v, int) else Fr(v)
    if isinstance(v, tuple):
        return tuple(list(v))
    if isinstance(v, Ord):
        return Ord(v.n)
    if isinstance(v, dt.date):
        return dt.date(v.year, v.month, v.day)
    return v


def compare(ctx, case, how, v, got, exp, ident=True):
    ctx.op()
    ctx.trace()
    ctx.state(case, how, repr(v))
    if exp is NODEF:
        ctx.outcome('rejected')
        if got[0] == 'ok':
            ctx.fail('accepted', f'{case} {how}: {v!r} gave {got[1]!r}, has to be rejected')
        return
    ctx.outcome('passed' if exp is v else 'changed')
    if got[0] != 'ok':
        ctx.fail('rejected', f'{case} {how}: {v!r}: {show(got)} {got[1].__cause__!r}')
    elif (got[1] is not exp) if ident else (got[1] != exp):
        ctx.fail('value', f'{case} {how}: {v!r} gave {got[1]!r}, expected {"the object " if ident else ""}{exp!r}')

"""C16: equality and hashing, after every history of operations and across processes."""
import copy
import decimal
import itertools
import os
import pickle
import subprocess
import sys
from fractions import Fraction as Fr

from mc import engine, fixtures as fx, hashproc
from mc import wide
from mc.lib import *  # noqa

BOUNDS = dict(quick=wide.TEXT + '; ' + 'all pairs of instances of 7 classes (frozen, mutable, derived either way, equal shapes) with fields over 43 values; every sequence of up to 3 of 22 operations on pairs of instances; '
                    'pickles of 146 records x 5 histories x 4 protocols exchanged with processes of 3 other hash seeds, both ways', thorough='sequences of up to 4 operations, 8 hash seeds')
RULE = 'one case = a class and a field value (all pairs), a class and pair of values (histories), or a hash seed'
ASSUMPTIONS = ['field values have consistent == and != (fields holding the same object that is not equal to itself are not compared)']


class Unequal:
    """equal to nothing, not even itself"""

    def __eq__(self, o):
        return False

    def __ne__(self, o):
        return True

    __hash__ = object.__hash__


class Same:
    """all have the same hash"""

    def __init__(self, n):
        self.n = n

    def __eq__(self, o):
        return isinstance(o, Same) and o.n == self.n

    def __hash__(self):
        return 5

    def __repr__(self):
        return f'Same({self.n})'


class Listy:
    """equal by content, unhashable"""

    def __init__(self, n):
        self.n = n

    def __eq__(self, o):
        return isinstance(o, Listy) and o.n == self.n

    __hash__ = None


CLASSES = [fx.F1, fx.F2, fx.FT, fx.FO, fx.M1, fx.M2, fx.F3]
VALUES = [0, 1, True, 1.0, False, '', 'a', None, (), (1,), (True,), [1], [1.0], frozenset({1}), {'a': 1}, -1, -2, 2 ** 61 - 1, 2 ** 61 - 2 + 1 + 0.0, 'b', Listy(1), Listy(1.0), Same(1), Same(2), Same(1.0), Unequal(), float('nan'),
          frozenset({True}), frozenset([0, 8, 16]), frozenset([16, 8, False]), frozenset({(1, frozenset({1.0}))}), frozenset({(True, frozenset({1}))}), decimal.Decimal(1), Fr(1), 1 + 0j, -0.0, (1, (2, 'a')), (1.0, (2, 'a')),
          b'a', range(3), range(0, 3, 1), MyStr('a'), MyInt(1)]
OTHERS = [None, 0, 'F1(x=1)', (1, 0), [1], {'x': 1, 'y': 0}, object(), int, fx.F1]


def val(i):
    v = VALUES[i]
    return copy.copy(v) if isinstance(v, (list, dict)) else Listy(v.n) if isinstance(v, Listy) else v


def cases(tier):
    yield from wide.cases('C16', tier)
    for c in range(len(CLASSES)):
        for i in range(len(VALUES)):
            yield 'pairs', c, i, 0
    for c in range(len(CLASSES)):
        for p in PAIRS:
            yield 'history', c, p, 4 if tier == 'thorough' else 3
    for seed in range(1, 9 if tier == 'thorough' else 4):
        yield 'process', seed, 0, 0


def fields_of(c, x, y):
    d = dict(x=x)
    if y is not NODEF:
        d['y'] = y
    return d


def eq_values(a, b):
    """None if not specified"""
    if a is b and a != a:
        return None
    return not (a != b)


def eq_model(a, b):
    if type(a) is not type(b):
        return False
    out = True
    for k in type(a)._fields:
        e = eq_values(getattr(a, k), getattr(b, k))
        if e is None:
            out = None if out else out
        elif not e:
            return False
    return out


def hashable(inst):
    try:
        hash(tuple(getattr(inst, k) for k in type(inst)._fields))
        return True
    except TypeError:
        return False


def check_pair(ctx, a, b, where):
    exp = eq_model(a, b)
    ctx.op(2)
    ctx.trace()
    if exp is None:
        return
    for l, r in ((a, b), (b, a)):
        got = attempt(lambda: (l == r, l != r))
        ctx.expect(got[0] == 'ok' and got[1] == (exp, not exp), 'equality', lambda: f'{where()}: {l!r} (==, !=) {r!r}: {show(got)}, expected {exp}')
    ha, hb = attempt(hash, a), attempt(hash, b)
    for i, h in ((a, ha), (b, hb)):
        if not type(i).is_frozen():
            ctx.expect(h[0] == 'err' and isinstance(h[1], TypeError), 'mutable-hashable', lambda: f'{where()}: hash of {i!r}: {show(h)}')
        elif hashable(i):
            ctx.expect(h[0] == 'ok', 'unhashable', lambda: f'{where()}: hash of {i!r}: {show(h)}')
    if exp and ha[0] == 'ok' and hb[0] == 'ok' and hashable(a):
        ctx.expect(ha[1] == hb[1], 'hash-of-equals', lambda: f'{where()}: {a!r} and {b!r} are equal, their hashes {ha[1]} and {hb[1]}')
        ctx.expect(a in {b} and {b: 1}.get(a) == 1 and len({a, b}) == 1, 'set', lambda: f'{where()}: {a!r} is not found in a set with {b!r}')
    if ha[0] == 'ok' or hb[0] == 'ok':  # having been hashed does not matter to equality
        for l, r in ((a, b), (b, a)):
            got = attempt(lambda: (l == r, l != r))
            ctx.expect(got[0] == 'ok' and got[1] == (exp, not exp), 'equality', lambda: f'{where()}: after hashing, {l!r} (==, !=) {r!r}: {show(got)}, expected {exp}')
        ctx.expect(not exp and hb[0] == ha[0] == 'ok' and len({a, b}) == 2 or exp or hb[0] != ha[0], 'set', lambda: f'{where()}: a set takes {a!r} and {b!r} for one')
    ctx.outcome(('equal' if exp else 'unequal', type(a).is_frozen(), ha[0]))


PAIRS = [((1, 0), (1, 0)), ((1, 0), (True, 0.0)), (('a', 0), ('a', 5)), (([1], 0), ([1], 0)), (([1], 0), ([2], 0)), (('a', 0), ('b', 0)), (('a', [1]), ('a', [1])), (('a', (1,)), ('a', (1,))), ((-1, 0), (-2, 0)), ((Same(1), 0), (Same(2), 0)), ((0, Same(1)), (0, Same(1.0)))]


def history_ops():
    def op(f):
        return f

    def each(f):
        return [lambda s: f(s, 0), lambda s: f(s, 1)]

    def h(s, i):
        attempt(hash, s[i])

    def repl(f):
        def g(s, i):
            s[i] = f(s[i])
        return g

    def mutate(s, i):
        if not type(s[i]).is_frozen():
            s[i].x = 'mutated' if s[i].x != 'mutated' else 'a'

    def mutate_in_place(s, i):
        # a mutable value inside the record
        if isinstance(s[i].x, list):
            s[i].x.append(7)
    def extra(s, i):
        # an attribute that is no field, as cached properties add
        s[i].__dict__['note'] = object()
    return each(h) + each(extra) + [lambda s: (s[0] == s[1], s[1] == s[0]), lambda s: attempt(lambda: {s[0], s[1]})] + each(repl(copy.copy)) + each(repl(copy.deepcopy)) + \
        each(repl(lambda i: pickle.loads(pickle.dumps(i, 4)))) + [lambda s: (s[0].to_dict(), repr(s[1]), s[0].to_json(default=str))] + [lambda s: mutate(s, 0), lambda s: mutate(s, 1)] + \
        each(repl(lambda i: type(i).from_instance(i))) + [lambda s: mutate_in_place(s, 0), lambda s: (attempt(lambda: s[0] < s[1]), s[0] == 5, s[0] == None)]  # noqa


def run(case, ctx):
    if case[0] == '__wide__':
        return wide.run('C16', ctx, case[1])
    kind = case[0]
    if kind == 'pairs':
        _, c, i, _ = case
        K = CLASSES[c]
        for y in (NODEF, 0, (1,), [1]):
            a = K(**fields_of(K, val(i), y))
            for d, D in enumerate(CLASSES):
                for j in range(len(VALUES)):
                    for y2 in (NODEF, 0.0, (1.0,), 1):
                        if D is fx.FO and y2 is NODEF and y is NODEF:
                            pass
                        b = D(**fields_of(D, val(j), y2))
                        ctx.state(case, d, j, repr(y), repr(y2))
                        check_pair(ctx, a, b, lambda: f'{K.__name__}/{D.__name__}')
            for o in OTHERS:
                for r in (attempt(lambda: (a == o, a != o)), attempt(lambda: (o == a, o != a))):
                    ctx.op()
                    ctx.expect(r[0] == 'ok' and r[1] == (False, True), 'non-record', lambda: f'{a!r} and {o!r}: {show(r)}')
        return
    if kind == 'history':
        _, c, pair, depth = case
        K = CLASSES[c]
        O = history_ops()
        for n in range(1, depth + 1):
            for seq in itertools.product(range(len(O)), repeat=n):
                s = [K(x=copy.copy(v[0]), y=copy.copy(v[1])) for v in pair]
                h0 = [attempt(hash, K(x=copy.copy(v[0]), y=copy.copy(v[1]))) for v in pair]
                for o in seq:
                    O[o](s)
                ctx.state(case, seq)
                check_pair(ctx, s[0], s[1], lambda: f'after operations {seq}')
                if K.is_frozen():
                    for i in (0, 1):
                        h = attempt(hash, s[i])
                        ctx.expect(h[0] == h0[i][0] and (h[0] == 'err' or h[1] == h0[i][1]), 'hash-changed', lambda: f'{K.__name__}, {pair}, operations {seq}: hash {h}, was {h0[i]}')
        return
    seed = case[1]
    env = dict(os.environ, PYTHONHASHSEED=str(seed), PYTHONDONTWRITEBYTECODE='1')
    cmd = [sys.executable, str(engine.VERIF / 'mc/hashproc.py'), engine.REPO, str(engine.VERIF)]
    p = subprocess.run(cmd + ['make'], env=env, capture_output=True, timeout=100)
    ctx.expect(p.returncode == 0, 'process', lambda: f'the other process failed: {p.stderr[-500:]}')
    n, errs = hashproc.verify(pickle.loads(p.stdout))
    ctx.op(n)
    ctx.trace(n)
    ctx.state(case, n)
    ctx.expect(not errs, 'foreign-pickle', lambda: f'pickled with hash seed {seed}: {errs[:3]}')
    p = subprocess.run(cmd + ['verify'], env=env, input=pickle.dumps(hashproc.make()), capture_output=True, timeout=100)
    ctx.expect(p.returncode == 0, 'process', lambda: f'the other process failed: {p.stderr[-500:]}')
    n, errs = pickle.loads(p.stdout)
    ctx.op(n)
    ctx.trace(n)
    ctx.expect(not errs, 'foreign-pickle', lambda: f'unpickled with hash seed {seed}: {errs[:3]}')
    ctx.outcome('process')

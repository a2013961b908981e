"""C22: copy and deepcopy over all small acyclic object graphs of records and containers, with the identity structure compared and mutations afterwards."""
import copy
import itertools
from typing import Dict, List, Optional, Tuple  # noqa

from mc import wide
from mc.lib import *  # noqa

BOUNDS = dict(quick=wide.TEXT + '; ' + 'all acyclic graphs of 1-2 nodes of 11 kinds (4 record kinds with all combinations of frozen/inheritance, a hashable frozen one, list, tuple, dict, object, hashable object, subclass), 2 slots each, over 2 shared mutable values and 2 immutable ones; '
                    'of 3 nodes of 5 kinds over 1 shared value; each deep copied by 6 ways (also after hashing, also two roots with one memo) and followed by every single mutation of original and copy; cycles through a record and each kind of container, rings of 1-3 records',
              thorough='3 nodes of 7 kinds over 2 shared values and an immutable one')
RULE = 'one case = kinds of the nodes of a graph and edges of its root'


class Obj:
    def __init__(self, **k):
        self.__dict__.update(k)

    def __eq__(self, o):
        return type(self) is type(o) and vars(self) == vars(o)

    __hash__ = None

    def __repr__(self):
        return f'Obj({vars(self)})'


class HObj(Obj):
    """can be hashed, and changed"""

    def __hash__(self):
        return 1


DEF = ['default']


class M(RecordBase):
    a: object
    b: object


class F(RecordBase, frozen=True):
    a: object
    b: object
    c: object = DEF


class Fm(M, frozen=True):
    """frozen, from a mutable class"""
    c: object = Factory(lambda: ['fresh'])


class Mf(F):
    """mutable, from a frozen class"""
    d: object = DEF
    e: object = Factory(Obj)


class P(RecordBase, frozen=True):
    """every value may be hashable"""
    a: object
    b: object


RECS = {'M': M, 'F': F, 'G': Fm, 'N': Mf, 'P': P}
KINDS = 'MFGNLTDOSPH'


def node(kind, x, y):
    if kind in RECS:
        return RECS[kind](a=x, b=y)
    if kind == 'L':
        return [x, y]
    if kind == 'T':
        return (x, y)
    if kind == 'D':
        return {'a': x, 'b': y}
    if kind == 'S':
        return MyList([x, y])
    return (HObj if kind == 'H' else Obj)(a=x, b=y)


LEAVES = ('l', 'o', 0, 'i')


def build(kinds, edges):
    """edges: per node (from the root) two targets: a leaf name or the index of a later node"""
    leaf = {'l': [1, [2]], 'o': Obj(v=3), 0: 0, 'i': ('im', 'mu')}
    done = [None] * len(kinds)
    for i in reversed(range(len(kinds))):
        done[i] = node(kinds[i], *(leaf[e] if e in leaf and not isinstance(e, tuple) else done[e[0]] for e in edges[i]))
    return done, leaf


def slots(i, n, leaves):
    return list(itertools.product(list(leaves) + [(j,) for j in range(i + 1, n)], repeat=2))


def cases(tier):
    yield from wide.cases('C22', tier)
    for n in (1, 2):
        for kinds in itertools.product(KINDS, repeat=n):
            if any(k in RECS for k in kinds):
                yield kinds, LEAVES, None
    if tier == 'thorough':
        for kinds in itertools.product('MFGNLTO', repeat=3):
            if any(k in RECS for k in kinds):
                for root in slots(0, 3, ('l', 'o', 0)):
                    yield kinds, ('l', 'o', 0), root
    else:
        for kinds in itertools.product('MFGLT', repeat=3):
            if any(k in RECS for k in kinds):
                yield kinds, ('l', 0), None
        for kinds in itertools.product('PTH', repeat=3):
            if 'P' in kinds and 'H' in kinds:
                yield kinds, ('i', 0), None
    yield 'direct', 0, 0
    yield 'cycles', 0, 0


def run(case, ctx):
    if case[0] == '__wide__':
        return wide.run('C22', ctx, case[1])
    if case[0] == 'direct':
        return direct(ctx)
    if case[0] == 'cycles':
        return cycles(ctx)
    kinds, leaves, root = case
    n = len(kinds)
    for edges in itertools.product(*(slots(i, n, leaves) if i or root is None else [root] for i in range(n))):
        if n == 3 and not reachable(edges):
            continue
        graph(ctx, kinds, edges, n)


def reachable(edges):
    got = {0}
    for i in range(len(edges)):
        if i in got:
            got |= {e[0] for e in edges[i] if isinstance(e, tuple)}
    return len(got) == len(edges)


def parts(v):
    """(path, child) pairs of a node"""
    if isinstance(v, RecordBase):
        return [(k, getattr(v, k)) for k in type(v)._fields]
    if isinstance(v, Obj):
        return list(vars(v).items())
    if isinstance(v, (list, tuple)):
        return list(enumerate(v))
    if isinstance(v, dict):
        return list(v.items())
    return []


def mutable(v):
    return isinstance(v, (list, dict, Obj)) or isinstance(v, RecordBase) and not type(v).is_frozen()


def compare(ctx, orig, cop, where, key='deepcopy'):
    """cop mirrors orig: same shape, a one-to-one correspondence of objects, no mutable object shared (but plain defaults)"""
    to, back = {}, {}
    stack = [(orig, cop, 'root')]
    while stack:
        a, b, path = stack.pop()
        if a is DEF:
            ctx.expect(b is DEF, key + '-default', lambda: f'{where()}: the plain default at {path} became {b!r}')
            continue
        ctx.expect(type(a) is type(b), key + '-type', lambda: f'{where()}: at {path} {a!r} became {b!r}')
        if id(a) in to:
            ctx.expect(to[id(a)] is b, key + '-sharing', lambda: f'{where()}: {a!r}, met again at {path}, was copied to two objects')
            continue
        pa, pb = parts(a), parts(b)
        if mutable(a):
            ctx.expect(a is not b, key + '-shared', lambda: f'{where()}: {a!r} at {path} is shared with the copy')
            ctx.expect(id(b) not in back, key + '-merged', lambda: f'{where()}: {a!r} at {path} was copied to the same object as {back.get(id(b))!r}')
            back[id(b)] = a
        to[id(a)] = b
        if not pa and not isinstance(a, (list, dict, Obj, tuple)):
            ctx.expect(same(a, b), key + '-value', lambda: f'{where()}: at {path} {a!r} became {b!r}')
        ctx.expect([k for k, _ in pa] == [k for k, _ in pb], key + '-shape', lambda: f'{where()}: at {path} {a!r} became {b!r}')
        stack += [(x, y, f'{path}.{k}') for (k, x), (_, y) in zip(pa, pb)]
    return to


def shape(v, seen=None):
    seen = {} if seen is None else seen
    if id(v) in seen:
        return ('again', seen[id(v)])
    ch = parts(v)
    if not ch:
        return (type(v).__name__, repr(v))
    seen[id(v)] = len(seen)
    return (type(v).__name__, tuple((k, shape(x, seen)) for k, x in ch))


def change(v):
    if isinstance(v, RecordBase):
        v.a = 'changed'
    elif isinstance(v, Obj):
        v.a = 'changed'
    elif isinstance(v, dict):
        v['new'] = 'changed'
    else:
        v.append('changed')


def mutables(v, seen=None):
    seen = {} if seen is None else seen
    if id(v) in seen or v is DEF:
        return seen
    if mutable(v):
        seen[id(v)] = v
    for _, x in parts(v):
        mutables(x, seen)
    return seen


WAYS = ('deepcopy', 'memo', 'hashed', 'method', 'in-list', 'two-roots')


def graph(ctx, kinds, edges, n):
    where = lambda: f'graph {kinds} {edges}'
    ctx.state(kinds, edges)
    for way in WAYS:
        done, leaf = build(kinds, edges)
        root = done[0]
        before = shape(root)
        if way == 'hashed':
            for d in done:
                attempt(hash, d)
        if way == 'method':
            if not isinstance(root, RecordBase):
                continue
            r = attempt(root.__deepcopy__)
        elif way == 'memo':
            r = attempt(copy.deepcopy, root, {})
        elif way == 'in-list':
            holder = [root, {'again': root}, done[-1], leaf['l'], leaf['o']]
            r = attempt(copy.deepcopy, holder)
            ctx.op()
            if r[0] == 'ok':
                compare(ctx, holder, r[1], lambda: f'{where()} in a list')
                continue
        elif way == 'two-roots':
            memo = {}
            r1 = attempt(copy.deepcopy, done[-1], memo)
            l1 = attempt(copy.deepcopy, leaf['l'], memo)
            r = attempt(copy.deepcopy, root, memo)
            ctx.op(3)
            if r1[0] == r[0] == 'ok':
                compare(ctx, [done[-1], leaf['l'], root], [r1[1], l1[1], r[1]], lambda: f'{where()} after copying its last node and the list with one memo')
                continue
        else:
            r = attempt(copy.deepcopy, root)
        ctx.op()
        if r[0] != 'ok':
            ctx.fail('deepcopy', f'{where()} by {way}: {show(r)}')
            continue
        c = r[1]
        compare(ctx, root, c, lambda: f'{where()} by {way}')
        ctx.expect(c == root and root == c, 'deepcopy-equal', lambda: f'{where()} by {way}: {c!r} is not equal to {root!r}')
        ctx.expect(shape(root) == before, 'deepcopy-changed', lambda: f'{where()} by {way}: copying changed the original to {root!r}')
        ctx.outcome(f'{way}:{type(root).__name__}:{c is root}')
        if way == 'hashed' and isinstance(c, RecordBase) and type(c).is_frozen():
            new = type(c)(**{k: getattr(c, k) for k in type(c)._fields})
            h1, h2 = attempt(hash, c), attempt(hash, new)
            ctx.expect(h1[0] == h2[0] and (h1[0] == 'err' or h1[1] == h2[1]), 'deepcopy-hash', lambda: f'{where()}: hash {show(h1)}, a new one has {show(h2)}')
        # every single mutation of one side
        if way in ('deepcopy', 'hashed'):
            for first, second in ((root, c), (c, root)):
                ref = shape(second)
                for m in list(mutables(first).values()):
                    change(m)
                    ctx.op()
                    ctx.expect(shape(second) == ref, 'deepcopy-independent', lambda: f'{where()} by {way}: after changing {m!r} the other side became {second!r}')
        ctx.trace()
    # shallow copies of every record of the graph
    done, leaf = build(kinds, edges)
    for d in done:
        if not isinstance(d, RecordBase):
            continue
        for how in (copy.copy, lambda x: x.__copy__()):
            r = attempt(how, d)
            ctx.op()
            if r[0] != 'ok':
                ctx.fail('copy', f'{where()}: copying {d!r}: {show(r)}')
                continue
            c = r[1]
            if type(d).is_frozen():
                ctx.expect(c is d, 'copy-frozen', lambda: f'{where()}: the copy of {d!r} is another object')
                continue
            ctx.expect(c is not d and type(c) is type(d) and c == d and d == c, 'copy', lambda: f'{where()}: the copy of {d!r} is {c!r}')
            for k in type(d)._fields:
                ctx.expect(getattr(c, k) is getattr(d, k), 'copy-values', lambda: f'{where()}: {k} of the copy of {d!r} is {getattr(c, k)!r}')
            ref, ref2 = vars(c).copy(), vars(d).copy()
            d.a = 'new'
            d.b = ['new']
            ctx.expect(all(vars(c)[k] is ref[k] for k in ref), 'copy-independent', lambda: f'{where()}: assigning {d!r} changed its copy {c!r}')
            d.a, d.b = ref2['a'], ref2['b']
            c.a = 'new'
            attempt(delattr, c, 'b')
            ctx.expect(all(vars(d)[k] is ref2[k] for k in ref2), 'copy-independent', lambda: f'{where()}: changing the copy changed {d!r}')
            ctx.outcome('copy:' + type(d).__name__)


def direct(ctx):
    """memos given by the caller, chains, defaults, typed fields"""


    class T(RecordBase, default_type_check=check):
        a: List[int]
        b: Dict[str, List[int]] = Factory(dict)
        c: Tuple[List[int], ...] = ()
        d: 'Optional[T]' = None

    class U(T, frozen=True):
        z: Annotated[object, hollow] = Factory(list)
    T2 = [lambda cls, s: cls(a=s, b={'k': s}, c=(s, [1], s)), lambda cls, s: cls(a=s, c=(s,)), lambda cls, s: cls(a=[], b={'k': s, 'l': s})]
    for cls in (T, U):
        for f in T2:
            s = [1, 2]
            x = f(cls, s)
            for way in range(4):
                memo = {}
                if way == 1:
                    memo[id(s)] = rep = [9]
                if way == 2:
                    pre = copy.deepcopy(s, memo)
                r = attempt(copy.deepcopy, (x, s, x), *([memo] if way else []))
                if r[0] != 'ok':
                    ctx.fail('typed', f'{cls} {way}: {show(r)}')
                    continue
                y, t, y2 = r[1]
                ctx.op()
                if way == 1:
                    ctx.expect(t is rep and y is y2, 'memo', f'{cls}: the memo was ignored')
                if way == 2:
                    ctx.expect(t is pre, 'memo', f'{cls}: the memo was ignored')
                ctx.expect(y is y2 and y is not x and type(y) is cls, 'typed', f'{cls} {way}')
                uses = [v for v in (x.a, *x.b.values(), *x.c)], [v for v in (y.a, *y.b.values(), *y.c)]
                for a, b in zip(*uses):
                    ctx.expect((a is s) == (b is t), 'typed-sharing', f'{cls} {way}: {uses}')
                    ctx.expect(a is not b, 'typed-shared', f'{cls} {way}: {uses}')
                ctx.state(cls.__name__, way, T2.index(f))
    # long chains and wide sharing
    for n in (1, 2, 5, 30):
        s = []
        x = s
        for i in range(n):
            x = (M, F, Fm)[i % 3](a=x, b=s)
        y = copy.deepcopy(x)
        compare(ctx, x, y, lambda: f'chain of {n}')
        x = [M(a=s, b=i) for i in range(n)]
        x += x
        compare(ctx, x, copy.deepcopy(x), lambda: f'wide {n}')
        ctx.op(2)
        # repeatedly copying does not mix up
        for i in range(n):
            z = copy.deepcopy(M(a=[i], b=F(a=[i], b=M(a=i, b=[i]))))
            ctx.expect(z == M(a=[i], b=F(a=[i], b=M(a=i, b=[i]))), 'repeat', f'copy {i}: {z!r}')
    # values that may look like missing ones, next to every kind of default
    for frozen, d1, d2 in itertools.product((False, True), (NODEF, None, 0, 5, '', [1]), (NODEF, False, 'x', Factory(list), Factory(lambda: 0))):
        V = mk('V', {'p': object, 'q': object}, {n: d for n, d in (('p', d1), ('q', d2)) if d is not NODEF}, frozen=frozen)
        for p, q in itertools.product((None, 0, False, '', [], (), 5, [1], 'x', 0.0, NotImplemented, ...), repeat=2):
            v = V(p=p, q=q)
            for way, f in (('copy', copy.copy), ('deepcopy', copy.deepcopy), ('reduce', lambda v: copy.deepcopy([v])[0])):
                c = attempt(f, v)
                ctx.op()
                ctx.expect(c[0] == 'ok' and type(c[1]) is V and c[1] == v and v == c[1] and c[1].p == p and c[1].q == q and ('p' in vars(c[1])) and 'q' in vars(c[1]), 'values', lambda: f'{way} of {v!r} (defaults {d1!r}, {d2!r}): {show(c)}')
                if c[0] == 'ok':
                    for n, x, d in (('p', p, d1), ('q', q, d2)):
                        if d is NODEF or isinstance(d, Factory) or d != x:
                            ctx.expect(same(getattr(c[1], n), x), 'values', lambda: f'{way} of {v!r} (defaults {d1!r}, {d2!r}): {show(c)}, {n} differs')
        ctx.state('values', frozen, repr(d1), type(d2), repr(d2)[:5])
    ctx.trace()
    ctx.state('direct')


def cycles(ctx):
    """graphs with cycles through a record: the copy mirrors them (see the known finding for cycles of records alone), and nothing is changed"""
    def close(holder, x):
        if isinstance(holder, list):
            holder.append(x)
        elif isinstance(holder, dict):
            holder['x'] = x
        else:
            holder.x = x
    for name, cls in RECS.items():
        for hold in (list, dict, Obj, MyList):
            for root in ('record', 'holder', 'between'):
                h = hold()
                rec = cls(a=h, b=[1])
                mid = M(a=rec, b=h) if root == 'between' else rec
                close(h, mid)
                start = h if root == 'holder' else rec
                before = shape(start)
                where = lambda: f'{name} in a {hold.__name__} it holds, copied from the {root}'
                r = attempt(copy.deepcopy, start)
                ctx.op()
                ctx.state('cycle', name, hold.__name__, root)
                ctx.expect(shape(start) == before, 'cycle-changed', where)
                if r[0] == 'err':
                    ctx.fail('cycle', f'{where()}: {show(r)}')
                else:
                    ctx.expect(shape(r[1]) == before, 'cycle', where)
                    compare(ctx, start, r[1], where, 'cycle')
    # records that hold each other
    for n in (1, 2, 3):
        for kinds in itertools.product((M, Mf), repeat=n):
            for frozen_between in (False, True):
                recs = [k(a=0, b=[1]) for k in kinds]
                for i, x in enumerate(recs):
                    nxt = recs[(i + 1) % n]
                    x.a = F(a=nxt, b=0) if frozen_between else nxt
                where = lambda: f'{kinds} holding each other ({frozen_between})'
                before = shape(recs[0])
                r = attempt(copy.deepcopy, recs[0])
                ctx.op()
                ctx.state('ring', kinds, frozen_between)
                ctx.expect(shape(recs[0]) == before, 'cycle-changed', where)
                if r[0] == 'err' and isinstance(r[1], RecursionError):
                    ctx.fail('deepcopy-cycle', f'{where()}: {type(r[1]).__name__}')
                elif r[0] == 'err':
                    ctx.fail('cycle', f'{where()}: {show(r)}')
                else:
                    ctx.expect(shape(r[1]) == before, 'cycle', where)
                    compare(ctx, recs[0], r[1], where, 'cycle')
    # no cycle through a record: nothing special
    for cls in RECS.values():
        h = [1]
        h.append(h)
        x = cls(a=h, b=5)
        y = attempt(copy.deepcopy, [x, h])
        ctx.op()
        ctx.expect(y[0] == 'ok' and y[1][0].a is y[1][1] and y[1][1][1] is y[1][1] and y[1][1] is not h, 'cycle', lambda: f'a list in itself in {cls.__name__}')
    ctx.trace()

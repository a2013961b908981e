"""C29: operations nested inside the callbacks of other operations, on the same classes.

Every operation is first performed alone, on freshly declared classes: that gives its outcome and the sequence of
callbacks it runs.  Then operations are nested into every one of these callbacks, to some depth, and each operation of
such a tree must have the outcome, and run the callbacks, that it has alone.
"""
import copy
import itertools
import json
import pickle
import re
import sys
import types
from collections.abc import Mapping
from typing import Deque, Dict, List, Optional, Tuple, Union

from mc.canon import canon
from mc.lib import *  # noqa
from records import AssertCallValidation, CallCoercion, CallValidation, Loose, MapCoercion, SelectableFactory, Tag, parser
from records.select import Exporter, Select

BOUNDS = dict(
    quick='41 operations (8 of them on objects, handles and selections that all levels share) x every callback they run x the 41 operations nested in it; 16 operations nested x every callback of theirs x 8 operations; two operations nested in any two callbacks (4 operations); recursive types: all trees of up to 5 nodes, one node bad or none, chains up to depth 40; frozen and not',
    thorough='depth 2 with 41 x 41 operations, depth 3 with 16, two nested ones with 16')
RULE = 'one case = outer operation and its variant of the classes; inside: every tree of nested operations within the bound'

MOD = types.ModuleType('mc_nested')
sys.modules['mc_nested'] = MOD


class Frame:
    __slots__ = 'op', 'log', 'plan', 'done'

    def __init__(self, op, plan):
        self.op, self.plan, self.log, self.done = op, plan, [], []


STACK = []
S = None


def hit(slot):
    """a callback has been entered: perform what the plan of the running operation has for it"""
    if not STACK or STACK[-1] is None:
        return
    fr = STACK[-1]
    i = len(fr.log)
    fr.log.append(slot)
    for op, plan in fr.plan.get(i, ()):
        fr.done.append(execute(op, plan))


def execute(op, plan):
    prepare, act = OPS[op]
    STACK.append(None)
    try:
        x = prepare(S) if prepare else None
    finally:
        STACK.pop()
    fr = Frame(op, plan)
    STACK.append(fr)
    try:
        try:
            r = 'ok', act(S, x)
        except Exception as e:
            r = 'err', e
    finally:
        STACK.pop()
    return fr, r, describe(r)


def describe(r):
    STACK.append(None)
    try:
        if r[0] == 'ok':
            return 'ok', canon(r[1])
        out = ['err']
        e = r[1]
        while e is not None and len(out) < 12:
            out.append((type(e).__name__, re.sub('0x[0-9a-f]+', '0x', str(e))))
            e = e.__cause__
        return tuple(out)
    finally:
        STACK.pop()


class V:
    """a value all of whose methods are callbacks"""

    def __init__(self, n):
        self.n = n

    def __eq__(self, other):
        hit('eq')
        return isinstance(other, V) and self.n == other.n

    def __lt__(self, other):
        hit('lt')
        return self.n < other.n

    def __hash__(self):
        hit('hash')
        return hash(self.n)

    def __repr__(self):
        hit('repr')
        return f'V({self.n})'

    def __deepcopy__(self, memo):
        hit('deepcopy')
        return V(copy.deepcopy(self.n, memo))

    def __reduce__(self):
        hit('reduce')
        return V, (self.n,)

    def __bool__(self):
        hit('bool')
        return False


class Lazy(Mapping):
    def __init__(self, d):
        self.d = d

    def __getitem__(self, k):
        hit('getitem')
        return self.d[k]

    def __iter__(self):
        for k in self.d:
            hit('next')
            yield k

    def __len__(self):
        return len(self.d)


class Source:
    def __init__(self, **kw):
        self.kw = kw

    def __getattr__(self, name):
        if name.startswith('__') or name == 'kw':
            raise AttributeError(name)
        hit('getattr')
        if name not in self.kw:
            raise AttributeError(name)
        return self.kw[name]


def entries(it):
    for x in it:
        hit('entry')
        yield x


class Spec:
    """a fresh declaration of the classes"""

    def __init__(self, frozen):
        def co(name, f=int):
            def g(v):
                hit(name)
                return f(v)
            return CallCoercion(g)

        def va(name, f=lambda v: v):
            def g(v):
                hit(name)
                if v == 9:
                    raise ValueError('nine')
                return f(v)
            return CallValidation(g)

        def fac(name, f):
            def g():
                hit(name)
                return f()
            return g

        def post(self):
            hit('post')
            if self.i == 13:
                raise LookupError('unlucky')
            if self.i == 14:
                return type(self)(i=40, l=[])

        class K(RecordBase, frozen=frozen, ordered=True, unary_parse=True, default_type_check=check):
            i: Annotated[int, co('ico'), va('ival'), va('ival2', abs)]
            l: List[Annotated[int, co('lco'), va('lval', lambda v: v + 1)]]
            d: Dict[Annotated[str, va('dkey', str.lower)], Annotated[int, co('dco')]] = Factory(fac('dfac', dict))
            t: Tuple[int, Annotated[str, va('tval', str.upper)]] = (0, 'Z')
            u: Union[Annotated[int, va('uint')], Annotated[str, va('ustr', str.upper)], None, List[Annotated[int, co('uco')]]] = None
            m: Annotated[int, MapCoercion({'one': 1}, factory_map={'two': fac('mfac', lambda: 2)})] = 0
            v: object = V(0)
            w: Annotated[object, Tag('w')] = None
            q: Annotated[Deque[Annotated[int, AssertCallValidation(lambda v: hit('qas') or v < 50)]], Loose] = Factory(fac('qfac', deque))

            @parser
            @classmethod
            def from_k(cls, x):
                hit('parser1')
                if not isinstance(x, str) or x[:1] != 'k':
                    raise ValueError('no k')
                return cls(i=int(x[1:]), l=[1])

            @parser
            @staticmethod
            def from_two(x):
                hit('parser2')
                if x != 'two' and x != 'k3':
                    raise ValueError('not two')
                return 2

            @SelectableFactory
            @classmethod
            def make(cls, text, **kw):
                hit('make')
                return dict([p.split('=') for p in text.split()], **kw)

            @Exporter
            @staticmethod
            def pairs(d, *a, **k):
                hit('pairs')
                return list(d.items()), a, k
            post_new = post

        class Sub(K, frozen=frozen, ordered=True):
            extra: Annotated[List[Annotated[int, check, co('xco'), va('xval')]], check] = Factory(fac('xfac', list))
            post_new = post

        class H(RecordBase, frozen=frozen):
            v: object
            n: Annotated[int, check, co('hco')] = 0

        for c in (K, Sub, H):
            c.__module__, c.__qualname__ = 'mc_nested', c.__name__
            setattr(MOD, c.__name__, c)
        self.K, self.Sub, self.H = K, Sub, H
        # used by all operations at all levels
        a = K(i=1, l=[1], v=V(1), w=1)
        self.pair = a, K(i=1, l=[1], v=V(1), w=2), K(i=1, l=[1], v=V(1), w=1), K(i=1, l=[1], v=V(1), w=[a, [V(2)]])
        self.importer = K.from_mapping.select(keys_to_rename={'x': 'i'}, keys_to_maybe_add={'l': []})
        self.exporter = self.pair[0].pairs.select(keys_to_remove='l', keys_to_add={'z': 1})
        self.select = Select(keys_to_rename={'x': 'i'}, keys_to_maybe_add={'y': 1}, keys_to_maybe_remove='q')
        self.sources = Lazy({'x': '1', 'l': ['2'], 'm': 'two'}), Lazy({'x': '3', 'l': [4], 'u': 'r'}), Source(i='2', l=[1, '2'], u='q', w=None)
        self.dict = {'x': 1, 'w': 5}
        self.hashed = None
        self.frozen = frozen


def inst(s, k=0, **kw):
    return s.K(i=k, l=[k, 2], v=V(k), **kw)


def two(s):
    return inst(s), inst(s)


def same_hash(s, _):
    """hash a record that an outer operation may be hashing; which values are still to be hashed depends on that"""
    outer = s.hashed
    if outer is None:
        s.hashed = s.H(v=(V(1), s.H(v=V(2))))
    try:
        return hash(s.hashed) == hash(s.H(v=(V(1), s.H(v=V(2))))), s.hashed in {s.H(v=(V(1), s.H(v=V(2)))): 1}, hash(s.hashed) == hash(s.hashed)
    finally:
        s.hashed = outer


OPS = {
    'construct': (None, lambda s, x: s.K(i='5', l=['1', 2], d={'A': '3', 'b': 4}, t=(1, 'x'), u='s', m='two', q=(1, 2))),
    'construct int': (None, lambda s, x: s.K(i=-5, l=[], u=7, m='one', w=[1])),
    'construct union list': (None, lambda s, x: s.K(i=6, l=['4', '5', '6'], u=['1', 2], d={})),
    'fail first': (None, lambda s, x: s.K(i='x', l=['1'])),
    'fail validator': (None, lambda s, x: s.K(i=1, l=[1, '9', 3])),
    'fail element': (None, lambda s, x: s.K(l=[1, 'z', 3], i=2)),
    'fail union': (None, lambda s, x: s.K(i=1, l=['2'], u=1.5)),
    'fail missing': (None, lambda s, x: s.K(i='3')),
    'fail post': (None, lambda s, x: s.K(i='13', l=[7])),
    'replaced': (None, lambda s, x: s.K(i='14', l=[7])),
    'fail dict': (None, lambda s, x: s.K(i=1, l=[], d={'ok': 1, 'Bad': 'z'})),
    'parse': (None, lambda s, x: s.K.parse('k7')),
    'parse none': (None, lambda s, x: s.K.parse('zz')),
    'parse ambiguous': (None, lambda s, x: s.K.parse('k3')),
    'parse mapping': (None, lambda s, x: s.K.parse({'i': '1', 'l': ('2',)[:0] or ['2']})),
    'unary': (None, lambda s, x: s.K('k8')),
    'unary other': (None, lambda s, x: s.K('two')),
    'lazy mapping': (None, lambda s, x: s.K.from_mapping(Lazy({'i': '1', 'l': [2]}), Lazy({'l': [3], 'w': 'w'}))),
    'select factory': (None, lambda s, x: s.K.make.select(keys_to_rename=entries([('x', 'i')]), keys_to_add={'l': [3, '4']})('x=4 m=one', u='k')),
    'from_instance': (None, lambda s, x: s.K.from_instance(Source(i='2', l=[1, '2'], u='q', w=None))),
    'from_instance select': (None, lambda s, x: s.K.from_instance.select(keys_to_rename=[('ii', 'i')], keys_to_maybe_add={'w': 'W'})(Source(ii='2', l=['2']))),
    'export': (lambda s: inst(s, 3, u='a'), lambda s, x: x.to_dict(sort=lambda k: hit('sort') or k[::-1], include_defaults=True)),
    'export select': (lambda s: inst(s, 4), lambda s, x: x.pairs.select(keys_to_remove=entries(['l']), keys_to_rename={'i': 'I'}).export_with(blacklist_tags=Tag('w'))(1, a=2)),
    'to_json': (lambda s: inst(s, 5), lambda s, x: x.to_json(default=lambda o: hit('jdefault') or (['V', o.n] if isinstance(o, V) else [*o]))),
    'eq': (two, lambda s, x: (x[0] == x[1], x[0] != inst(s, 2))),
    'hash': (lambda s: (s.H(v=V(3)), s.H(v=V(3)), s.H(v=(V(3), s.H(v=V(3))))), lambda s, x: (hash((1, x[0])) == hash((1, x[1])), x[0] in {x[2]: 1, x[1]: 2}, hash(x[0]) == hash(x[0]))),
    'lt': (lambda s: (inst(s, 1, m=3), inst(s, 1, m=4), s.K(i=1, l=[1, 2], v=V(9), m=4)), lambda s, x: (x[0] < x[1], sorted([x[2], x[1], x[0]], key=lambda r: (hit('key') or r.v.n))[0] is x[1], x[0] <= x[2], x[1] < x[2])),
    'copy': (inst, lambda s, x: copy.copy(x)),
    'deepcopy': (lambda s: [inst(s, 2, w=[V(1)])] * 2, lambda s, x: copy.deepcopy(x)),
    'pickle': (lambda s: inst(s, 6, w=V('w')), lambda s, x: pickle.loads(pickle.dumps(x, 4))),
    'repr': (lambda s: inst(s, 3), lambda s, x: repr(x)),
    'same eq': (None, lambda s, x: (s.pair[0] == s.pair[1], s.pair[1] != s.pair[2], s.pair[0] == s.pair[2], s.pair[3] == s.pair[0])),
    'same hash': (None, same_hash),
    'same lt': (None, lambda s, x: (s.pair[0] < s.pair[1], s.pair[1] <= s.pair[2], s.pair[2] >= s.pair[0])),
    'same deepcopy': (None, lambda s, x: (lambda c: (c, c.w[0] is not s.pair[0], c.w[0].v is not s.pair[0].v, c.w[1][0] is not s.pair[3].w[1][0]))(copy.deepcopy(s.pair[3]))),
    'same export': (None, lambda s, x: (s.exporter(1), s.exporter.export_with(include_defaults=True, sort=lambda k: hit('sort') or k)(s=2), s.pair[1].to_dict())),
    'same import': (None, lambda s, x: (s.importer(s.sources[0]), s.importer(s.sources[1], w=4), s.importer(s.dict))),
    'same instance': (None, lambda s, x: (s.K.from_instance(s.sources[2]), s.K.from_instance(s.pair[0], {'i': '4'}))),
    'same select': (None, lambda s, x: (s.select(s.sources[0]), s.select(dict(s.dict)), s.select(s.sources[1]))),
    'sub': (None, lambda s, x: s.Sub(i='5', l=['1'], extra=['7', 8])),
    'sub fail': (None, lambda s, x: s.Sub(i='5', l=['1'], extra=['7', 9])),
}
NAMES = list(OPS)
FEW = ['construct', 'fail validator', 'replaced', 'parse', 'unary', 'select factory', 'from_instance select', 'export select', 'eq', 'hash', 'deepcopy', 'sub', 'same eq', 'same import', 'same deepcopy', 'same select']

ALONE = {}


def alone(ctx, frozen):
    global S
    if frozen not in ALONE:
        out = {}
        for op in NAMES:
            S = Spec(frozen)
            fr, r, d = execute(op, {})
            out[op] = d, tuple(fr.log)
            fails = op.startswith('fail') or op.endswith(('fail', 'parse none', 'parse ambiguous')) or 'hash' in op and not frozen
            if (d[0] == 'err') != fails:
                ctx.fail('alone', f'{op} on frozen={frozen} classes alone: {d}')
        ALONE[frozen] = out
    return ALONE[frozen]


def verify(ctx, ref, node, tree):
    fr, r, d = node
    exp, log = ref[fr.op]
    ctx.op()
    if d != exp or tuple(fr.log) != log and fr.op != 'same hash':
        ctx.fail('outcome', f'{tree}: the operation {fr.op!r} ended with {d} after {fr.log}; alone it ends with {exp} after {list(log)}')
    late = describe(r)
    if late != exp:
        ctx.fail('later', f'{tree}: the result of {fr.op!r} has become {late}, it was {exp}')
    for n in fr.done:
        verify(ctx, ref, n, tree)


def go(ctx, ref, op, plan):
    node = execute(op, plan)
    verify(ctx, ref, node, (op, plan))
    ctx.trace()


def run(case, ctx):
    global S
    if case[0] == 'trees':
        return trees(ctx, *case[1:])
    kind, op, frozen, tier = case
    del STACK[:]
    ref = alone(ctx, frozen)
    S = Spec(frozen)
    points = lambda o: range(len(ref[o][1]))
    ctx.outcome(f'{op}: {ref[op][0][0]} after {len(ref[op][1])} callbacks')
    ctx.count('callbacks', len(points(op)))
    if kind == 'one':
        go(ctx, ref, op, {})
        for i in points(op):
            for n in NAMES:
                go(ctx, ref, op, {i: [(n, {})]})
                ctx.state(op, frozen, i, n)
                if tier == 'quick' and n not in FEW:
                    continue
                for j in points(n):
                    for m in NAMES if tier == 'thorough' else FEW[::2]:
                        go(ctx, ref, op, {i: [(n, {j: [(m, {})]})]})
                        ctx.state(op, frozen, i, n, j, m)
        # the same operation inside itself, at every level, in the same callback
        for i in points(op):
            plan = {}
            for depth in range(4):
                plan = {i: [(op, plan)]}
                go(ctx, ref, op, plan)
                ctx.state(op, frozen, 'self', i, depth)
    elif kind == 'both':
        for i, j in itertools.combinations_with_replacement(points(op), 2):
            for n, m in itertools.product(FEW if tier == 'thorough' else FEW[:8:2], repeat=2):
                go(ctx, ref, op, {i: [(n, {}), (m, {})]} if i == j else {i: [(n, {})], j: [(m, {})]})
                ctx.state(op, frozen, 'both', i, n, j, m)
    elif kind == 'deep':
        for i in points(op):
            for n in FEW:
                for j in points(n):
                    for m in FEW:
                        for k in points(m):
                            for l in FEW[:6]:
                                go(ctx, ref, op, {i: [(n, {j: [(m, {k: [(l, {})]})]})]})
                                ctx.state(op, frozen, i, n, j, m, k, l)
    elif kind == 'all':  # a nested operation in every callback at once
        for n in NAMES:
            go(ctx, ref, op, {i: [(n, {})] for i in points(op)})
            for m in FEW:
                go(ctx, ref, op, {i: [(n, {j: [(m, {})] for j in points(n)})] for i in points(op)})
                ctx.state(op, frozen, 'all', n, m)


def shapes(n):
    """ordered trees with n nodes, as nested tuples"""
    if n == 1:
        yield ()
        return

    def forests(k):
        if k == 0:
            yield ()
        for first in range(1, k + 1):
            for a in shapes(first):
                for rest in forests(k - first):
                    yield (a,) + rest
    yield from forests(n - 1)


def declare(frozen, how):
    log = []

    convert = CallCoercion(lambda m: Node.from_mapping(m))
    if how == 'list':
        class Node(RecordBase, frozen=frozen):
            v: Annotated[int, check, CallCoercion(int)]
            kids: Annotated[List[Annotated['Node', check, convert]], check] = Factory(list)
            post_new = lambda self: log.append(self.v)
    elif how == 'dict':
        class Node(RecordBase, frozen=frozen):
            v: Annotated[int, check, CallCoercion(int)]
            kids: Annotated[Dict[str, Annotated['Node', check, convert]], check] = Factory(dict)
            post_new = lambda self: log.append(self.v)
    elif how == 'union':
        class Node(RecordBase, frozen=frozen):
            v: Annotated[int, check, CallCoercion(int)]
            kids: Annotated[Union[None, Annotated['Node', convert], List[Annotated['Node', check, convert]]], check] = None
            post_new = lambda self: log.append(self.v)
    elif how == 'tuple':
        class Node(RecordBase, frozen=frozen):
            kids: Annotated[Tuple[Annotated['Node', check, convert], ...], check] = ()
            v: Annotated[int, check, CallCoercion(int)]
            post_new = lambda self: log.append(self.v)
    Node.__module__, Node.__qualname__ = 'mc_nested', 'Node'
    MOD.Node = Node
    return Node, log


def assemble(how, kids):
    if how == 'list':
        return list(kids)
    if how == 'tuple':
        return tuple(kids)
    if how == 'dict':
        return {f'k{i}': k for i, k in enumerate(kids)}
    return None if not kids else kids[0] if len(kids) == 1 else list(kids)


def data(shape, bad, how, counter):
    """nested mappings for the tree; node number `bad` (in order of the walk) has a value that is refused"""
    me = next(counter)
    return {'v': 'bad' if me == bad else str(me), 'kids': assemble(how, [data(s, bad, how, counter) for s in shape])}


def bottom_up(Node, shape, how, counter):
    me = next(counter)
    return Node(v=me, kids=assemble(how, [bottom_up(Node, s, how, counter) for s in shape]))


def depth_of(shape, bad, counter, depth=0):
    if next(counter) == bad:
        return depth
    for s in shape:
        d = depth_of(s, bad, counter, depth + 1)
        if d is not None:
            return d


def to_plain(how, node):
    """exports level by level"""
    d = node.to_dict(include_defaults=True)
    k = d['kids']
    d['v'] = str(d['v'])
    if k is not None:
        d['kids'] = to_plain(how, k) if isinstance(k, RecordBase) else {a: to_plain(how, b) for a, b in k.items()} if how == 'dict' else type(k)(to_plain(how, x) for x in k)
    return d


def trees(ctx, how, frozen, n):
    Node, log = declare(frozen, how)
    todo = [(s, None) for s in shapes(n)] if n <= 6 else []
    if n > 6:
        s = ()
        for _ in range(n - 1):
            s = (s,)
        todo = [(s, None)]
    for shape, _ in todo:
        size = n
        count = itertools.count
        del log[:]
        tree = bottom_up(Node, shape, how, count())
        order = list(log)
        for bad in [None] + list(range(size)):
            d = data(shape, bad, how, count())
            snap = repr(d)
            del log[:]
            r = attempt(Node.from_mapping, d)
            where = lambda: f'{how} frozen={frozen} {shape} bad={bad}'
            ctx.op()
            ctx.state(how, frozen, shape, bad)
            ctx.expect(repr(d) == snap, 'arguments', lambda: f'{where()}: the argument became {d}')
            if bad is None:
                ctx.expect(r[0] == 'ok' and canon_deep(r[1]) == canon_deep(tree) and r[1] == tree, 'tree', lambda: f'{where()}: {show(r)}, expected {tree!r}')
                ctx.expect(sorted(log) == sorted(order), 'hooks', lambda: f'{where()}: hooks {log}, expected {order}')
                ctx.expect(log[-1] == 0, 'hooks', lambda: f'{where()}: {log}')
                new = r[1]
                ctx.expect(to_plain(how, new) == d, 'export', lambda: f'{where()}: exported {to_plain(how, new)}')
                for label, f in (('deepcopy', copy.deepcopy), ('pickle', lambda x: pickle.loads(pickle.dumps(x)))):
                    c = attempt(f, new)
                    ctx.expect(c[0] == 'ok' and c[1] == tree and canon_deep(c[1]) == canon_deep(tree), label, lambda: f'{where()}: {show(c)}')
                js = attempt(lambda: Node.from_json(new.to_json(default=lambda x: x.to_dict())))
                if how != 'tuple':
                    ctx.expect(js[0] == 'ok' and js[1] == tree, 'json', lambda: f'{where()}: {show(js)}')
                if frozen and how == 'tuple':
                    ctx.expect(hash(new) == hash(tree) and {new: 1}[tree] == 1, 'hash', where)
                ctx.expect(attempt(Node.parse, d)[1] == tree, 'parse', where)
            else:
                ctx.expect(r[0] == 'err', 'tree', lambda: f'{where()}: {show(r)}')
                depth = depth_of(shape, bad, count())
                if how != 'union':
                    msgs, e = [], r[1]
                    while e is not None:
                        msgs.append(str(e))
                        e = e.__cause__
                    got = ['kids' in m for m in msgs[:depth]], 'v' in msgs[depth] if len(msgs) > depth else None
                    ctx.expect(len(msgs) == depth + 2 and all(got[0]) and got[1], 'errors', lambda: f'{where()}: errors {msgs}, the failing node is at depth {depth}')
                ctx.expect(0 not in log, 'hooks', lambda: f'{where()}: hooks {log}')
    ctx.trace()


def canon_deep(node):
    """iteratively, as canon() stops at some depth"""
    out, todo = [], [node]
    while todo:
        x = todo.pop()
        if isinstance(x, RecordBase):
            out.append((type(x).__name__, type(x.v).__name__, x.v))
            todo.append(x.kids)
        elif isinstance(x, dict):
            out.append(('dict', tuple(x)))
            todo += x.values()
        elif isinstance(x, (list, tuple)):
            out.append((type(x).__name__, len(x)))
            todo += x
        else:
            out.append(repr(x))
    return out


def cases(tier):
    for frozen in (False, True):
        for op in NAMES:
            for kind in ('one', 'both', 'all') + (('deep',) if tier == 'thorough' else ()):
                yield kind, op, frozen, tier
    for how in ('list', 'dict', 'union', 'tuple'):
        for frozen in (False, True):
            for n in (1, 2, 3, 4, 5) + ((6,) if tier == 'thorough' else ()) + (12, 25, 40):
                yield 'trees', how, frozen, n

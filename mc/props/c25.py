"""C25: every interleaving (up to a preemption bound) of operations on shared classes and instances gives the outcomes of running them alone."""
import copy
from fractions import Fraction
import itertools
import json
import pickle
import sys
import threading
import types as _types
from typing import Deque, Dict, List, Literal, Optional, Tuple, Type, Union

from mc.canon import canon
from mc.lib import *  # noqa
from mc.sched import Run, explore
from records import (CallCoercion, CallValidation, AssertCallValidation, Clamp, ClassMethodCoercion, ComposeCoercer, Cyclic, Eval, FullMatch, LiteralEval, Loose, LooseUnpack, LooseUnpackMap,
                     MapCoercion, Truth, Whole, Within, SelectableFactory, parser)  # noqa
from records.select import Select, Exporter

BOUNDS = dict(quick='2 threads: all pairs of 13 operations, and 22 more paired with themselves (with other arguments), on shared, freshly declared classes, every schedule with up to 1 preemption at every line of the library; 13 shorter ones paired with themselves also with 1 preemption at every bytecode',
              thorough='all pairs of 35 with 1 preemption at every line, of 13 at every bytecode; 2 preemptions at every line for the pairs of 6 operations; 3 threads with 1 preemption for triples of 8 operations')
RULE = 'one case = tuple of operations; inside: every schedule within the bound, on fresh classes'
ASSUMPTIONS = ['switches happen between lines (bytecodes where stated) of the library; calls into C code are atomic, as under the interpreter lock']

CASE_LIMIT_S = 500  # a case is up to some thousand executions

MOD = _types.ModuleType('mc_c25_generated')
sys.modules[MOD.__name__] = MOD
TL = threading.local()


def logged(name, f):
    def g(v, *a):
        TL.calls.append((name, canon(v)))
        return f(v, *a)
    return g


def fail_on_9(v):
    if v == 9:
        raise ValueError('nine')
    return v


def fail_on_str(v):
    if isinstance(v, (str, list)):
        raise TypeError('no text')
    return len(v)


class S:
    """the shared classes, instances and handles"""

    def __init__(self, tokens=True):
        class In(RecordBase, frozen=True):
            p: object
            q: object = 0

        class P(RecordBase, frozen=True, ordered=True, unary_parse=True, default_type_check=check):
            i: Annotated[int, Loose, CallValidation(logged('i', fail_on_9))]
            l: List[Annotated[int, CallCoercion(logged('lc', int)), CallValidation(logged('lv', lambda v: v + 1))]] = Factory(list)
            d: Dict[Annotated[str, CallCoercion(logged('dk', str))], Annotated[int, Clamp(0, 9)]] = Factory(dict)
            t: Tuple[int, Annotated[str, CallValidation(logged('tv', str.upper))]] = (0, 'Z')
            v: Tuple[Annotated[int, AssertCallValidation(logged('vv', lambda v: v < 100))], ...] = ()
            u: Union[int, str, None, List[int]] = None
            o: Annotated[Optional[Annotated[int, Loose]], Tag('hidden')] = 3
            lit: Literal['a', 1] = 'a'
            f: object = Factory(logged0('fac', list))
            rec: object = 'rd'

            @parser
            @classmethod
            def from_marker(cls, x):
                TL.calls.append(('parser', canon(x)))
                if not isinstance(x, bytes):
                    raise TypeError('no bytes')
                return cls(i=len(x))

            def post_new(self):
                TL.calls.append(('post', self.i))
                if self.i == 13:
                    raise ValueError('unlucky')

        class Kp(RecordBase, default_type_check=check):
            kl: List[Annotated[int, CallCoercion(int)]] = ()
            kt: Tuple[Annotated[int, CallCoercion(int)], ...] = ()
            kd: Dict[Annotated[int, CallCoercion(int)], Annotated[int, CallCoercion(int)]] = ()
            kp: Tuple[int, int, Annotated[int, CallCoercion(int)], int] = ()
            kc: Annotated[int, CallCoercion(logged('c1', fail_on_str)), CallCoercion(logged('c2', fail_on_9)), CallCoercion(logged('c3', len))] = 0
            km: Annotated[Dict[str, Annotated[int, CallCoercion(int)]], CallCoercion(logged('m1', dict))] = ()

        Tk = None
        if tokens:
            class Tk(RecordBase, default_type_check=check):
                th: Annotated[int, ComposeCoercer(CallCoercion(logged('th3', int)), CallCoercion(logged('th2', lambda v: v + '0')), CallCoercion(logged('th1', str))), Cyclic(0, 50)] = 0
                tm: Annotated[int, MapCoercion({'one': 1, 'two': 2}), Within(0, 8, g_eq=False, l_eq=True)] = 1
                tf: Annotated[str, FullMatch('[a-z]+'), AssertCallValidation(lambda v: v != 'bad', err='bad word'), Truth(err='empty')] = 'a'
                tw: Annotated[int, Whole] = 0
                te: Annotated[list, LiteralEval] = Factory(list)
                tc: Annotated[In, ClassMethodCoercion('from_mapping', q=5)] = In(p=0)
                tu: Annotated[Fraction, LooseUnpack.constrain(int, int)()] = Fraction(1, 7)
                tk: Annotated[In, LooseUnpackMap.constrain(p=str)(q='kept')] = In(p=2)

        class M(RecordBase):
            a: object
            b: list = Factory(list)
            c: Annotated[Deque[Annotated[int, check, CallValidation(lambda v: v * 2)]], check] = Factory(deque)

            @SelectableFactory
            @classmethod
            def make(cls, m, **k):
                return {**m, **k}

            @Exporter
            @staticmethod
            def pairs(v, *a):
                return sorted(v), a

        class Na(RecordBase, frozen=True):
            n: int
            other: object = None

            def post_new(self):
                if self.n > 0:
                    TL.calls.append(('nest', self.n))
                    self.__dict__['other'] = Nb(n=self.n - 1)

        class Nb(RecordBase, frozen=True, unary_parse=True):
            n: Annotated[int, check, CallValidation(logged('nb', lambda v: v))]
            made: object = Factory(lambda: Na(n=0))

            @parser
            @classmethod
            def from_set(cls, v):
                return cls(n=Na(n=len(v & v)).n)

            def post_new(self):
                if self.n > 0:
                    self.__dict__['made'] = Na(n=self.n - 1)

        for c in filter(None, (In, P, M, Kp, Tk, Na, Nb)):
            c.__module__ = MOD.__name__
            c.__qualname__ = c.__name__
            setattr(MOD, c.__name__, c)
        self.In, self.P, self.M, self.Kp, self.Tk, self.N = In, P, M, Kp, Tk, (Na, Nb)
        TL.calls = []
        self.raw = {}
        # per thread (and shared by all): equal pairs of instances, selections, handles
        self.one = [P(i=1 + k, rec=In(p=('x', k)), f=()) for k in range(3)]
        self.two = [P(i=1 + k, rec=In(p=('x', k)), f=()) for k in range(3)]
        self.in1 = [In(p='a' * k, q=('b', k)) for k in range(3)]
        self.in2 = [In(p='a' * k, q=('b', k)) for k in range(3)]
        self.in3 = In(p=In(p=self.in1[1]))
        self.shared = ['s']
        self.m = M(a=[self.shared, In(p=self.shared)], b=self.shared)
        self.sel = Select(keys_to_rename=[('x', 'i')], keys_to_maybe_add={'u': 'added'})
        self.sel2 = Select(keys_to_remove='l')
        self.imp = P.from_mapping.select(self.sel)
        self.exp = P.to_dict.export_with(include_defaults=True, blacklist_tags=Tag('hidden'))
        self.json = self.one[0].to_dict.select(keys_to_maybe_remove=('rec', 'f'))
        self.blob = [pickle.dumps(x) for x in self.one]
        TL.calls = []


def logged0(name, f):
    def g():
        TL.calls.append((name,))
        return f()
    return g


OPS = {
    'construct': lambda s, k: s.P(i=str(5 + k), l=['1', 2 + k, '3'] + [5] * k, d={1: 20 - k, 'k': 3 + k}, t=(1 + k, 'a' * (k + 1)), v=(1, 2 + k), u='s' * k, o=str(7 + k), lit=(1, 'a', 1)[k]),
    'construct2': lambda s, k: s.P(i=16 + k, l=[7 + k], d={'z': -k}, t=(2, 'b%d' % k), v=(), u=(None, 4, 'q')[k], o=None, rec=[k]),
    'construct-list-u': lambda s, k: s.P(i=2.0 + k, l=[], u=[1, k], v=(5,) * k),
    'construct-kept': lambda s, k: (s.Kp(kl=[1, 2, '3', 4, 5] if k else [8, '9']), s.Kp(kt=(1, 2, '3', 4) if k else (8, '9'))),
    'construct-kept2': lambda s, k: (s.Kp(kd={1: 2, 3: '4', '5': 6} if k else {7: '8'}), s.Kp(kp=(1, 2, '3', 4) if k else (8, 9, 8, 9))),
    'construct-coerced': lambda s, k: s.Kp(kc=('ab', [1, 2, 3], 'abc')[k], km=[('a' * k, str(k))]),
    'construct-tokens': lambda s, k: s.Tk(th=str(7 + k), tm=('one', 'two', 3)[k], tf=('ab', 'cd', 'ef')[k], tw=3.0 + k),
    'construct-tokens2': lambda s, k: s.Tk(te='[%d]' % k, tu=(k, 3 + k), tk={'p': 'pq'[k % 2]}, tc={'p': k}, th=str(6 - k)),
    'reject-token': lambda s, k: s.Tk(tf=('bad', 'abc', 'xy')[k], tm=(1, 9, 2)[k], tw=1 + k / 4),
    'reject': lambda s, k: s.P(i=9, l=[str(k)]),
    'reject-element': lambda s, k: s.P(i=1, l=['8', '4' * k, 'x', k]),
    'reject-literal': lambda s, k: s.P(i=1, lit='bcd'[k]),
    'reject-type': lambda s, k: s.P(**({'i': 1, 'lit': 2.5, 'u': 3}, {'i': 1, 'u': b''}, {'i': 1, 'l': ()})[k]),
    'reject-post': lambda s, k: s.P(i=13, u='k' * k),
    'parse-mapping': lambda s, k: s.P({'i': 3 + k, 'l': [str(2 + k)]}),
    'parse-json': lambda s, k: s.P.parse('{"i": %d, "l": [1, %d]}' % (4 + k, k)),
    'parse-custom': lambda s, k: s.P(b'abc' * (k + 1)),
    'parse-fail': lambda s, k: s.P.parse((3.5, 'x', {'nope': 1})[k]),
    'from-instance': lambda s, k: s.P.from_instance(_types.SimpleNamespace(i=8 - k * 3, l=['1'] * k, lit=1)),
    'import-handle': lambda s, k: s.imp({'x': 3 + k, 'l': ['6'] * k, **({'u': 'mine'} if k else {})}),
    'import-derived': lambda s, k: s.P.from_mapping.select(s.sel.merge(s.sel2), keys_to_add=[('o', k)])({'x': str(4 + k), 'l': 3}),
    'hash': lambda s, k: (hash(s.in1[k]) == hash(s.in2[k]), hash(s.in3) == hash(s.In(p=s.In(p=s.in2[1]))), hash(s.In(p=k)) == hash(s.in1[k])),
    'hash-one': lambda s, k: (hash(s.in3), hash(s.in1[k])),
    'equal': lambda s, k: (s.in1[k] == s.in2[k], s.in2[k] == s.in1[1], s.in1[k] == s.In(p='a', q=('b', 1)), s.one[k] == s.two[k], s.one[k] == s.two[1], s.in1[k] in {s.in2[0]: 1}),
    'order': lambda s, k: (s.one[k] < s.P(i=4 - k, f=(), u=7), s.one[k] <= s.two[1], s.one[k] > s.two[1]),
    'copy': lambda s, k: (copy.copy(s.one[k]) is s.one[k], copy.copy(s.m)),
    'deepcopy': lambda s, k: (lambda c: (c, c[0].a[0] is c[0].b, c[0].a[1].p is c[0].b, c[0].b is not s.shared, c[1] is c[2]))(copy.deepcopy([s.m, s.shared, s.shared, s.in1[k]])),
    'export': lambda s, k: (s.one[k].to_dict(), s.exp(s.one[k]), s.one[k].to_dict.select(keys_to_rename=[('i', 'jqw'[k])])(whitelist_keys=('u', 'v', 'o')[k])),
    'export-json': lambda s, k: (s.m.to_json.select(keys_to_remove=('a', 'b', 'c'), keys_to_add=[('z', k)])(), repr(s.one[k]), s.json(include_defaults=bool(k))),
    'pickle': lambda s, k: (lambda r, q: (r, r == s.one[k], q, hash(q) == hash(s.in1[k]), q == s.in1[k]))(pickle.loads(pickle.dumps(s.one[k])), pickle.loads(pickle.dumps(s.in1[k]))),
    'unpickle': lambda s, k: s.P.from_pickle(s.blob[k]),
    'mutable': lambda s, k: (s.M([k]), s.M(a=k, c=deque([1, 2] + [k] * k, 5)), s.M.make({'a': k}, b=[k]), s.m.pairs(1, k)),
    # each thread begins with another class, and each class makes instances of the other one
    'nested': lambda s, k: s.N[k % 2](n=2),
    'nested-more': lambda s, k: (s.N[k % 2 - 1](n=1), s.N[1]({'x', k})),
    'nested-copy': lambda s, k: (copy.deepcopy(s.N[k % 2](n=1)), s.N[k % 2].parse({'n': 1}), hash(s.N[k % 2](n=1)) == hash(s.N[k % 2](n=1))),
}
NAMES = list(OPS)
FEW = ['construct', 'construct-kept', 'construct2', 'reject-element', 'reject-literal', 'parse-mapping', 'parse-custom', 'from-instance', 'import-handle', 'hash', 'equal', 'deepcopy', 'export']
TRI = ['construct', 'reject-element', 'parse-mapping', 'import-handle', 'hash', 'deepcopy', 'export', 'mutable']
TWO = ['reject-literal', 'import-handle', 'hash-one', 'parse-custom', 'reject-type', 'reject-element']
FINE = ['construct-kept', 'construct-coerced', 'construct-list-u', 'reject-element', 'reject-literal', 'reject-type', 'parse-mapping', 'parse-custom', 'from-instance', 'import-handle', 'hash-one', 'equal', 'deepcopy']
PARTS = 4
REF = {}
CONSTANT = []


def body(s, name, k):
    def f():
        TL.calls = []
        r = attempt(OPS[name], s, k)
        s.raw[k] = r[1]
        if r[0] == 'ok':
            out = 'ok', canon(r[1])
        else:
            c = r[1].__cause__
            out = 'err', type(r[1]).__name__, str(r[1]), type(c).__name__ if c is not None else None, str(c)
        return out, tuple(TL.calls)
    return f


def state(s):
    """what the shared objects look like afterwards"""
    TL.calls = []
    return (canon(s.one), canon(s.two), canon(s.in1), canon(s.m), canon(s.shared), hash(s.in3) == hash(s.In(p=s.In(p=s.in2[1]))), [hash(a) == hash(b) for a, b in zip(s.in1, s.in2)], tuple(s.P._fields),
            canon(s.exp(s.two[0])), canon(s.imp({'x': 1})), canon(attempt(s.sel, {'x': 1})[1]), canon(attempt(OPS['construct'], s, 1)[1]), canon(attempt(OPS['construct2'], s, 0)[1]))


def mutables(*roots):
    """the mutable objects that can be reached, by id"""
    seen, out, todo = set(), {}, list(roots)
    while todo:
        x = todo.pop()
        if id(x) in seen or isinstance(x, (str, bytes, int, float, type, type(None))):
            continue
        seen.add(id(x))
        if isinstance(x, RecordBase):
            if not x.is_frozen():
                out[id(x)] = x
            todo += x.__dict__.values()
        elif isinstance(x, (list, set, deque)):
            out[id(x)] = x
            todo += x
        elif isinstance(x, (tuple, frozenset)):
            todo += x
        elif isinstance(x, dict):
            out[id(x)] = x
            todo += [*x, *x.values()]
        elif isinstance(x, BaseException):
            out[id(x)] = x
            todo += [x.__cause__]
    return out


def reference(ctx):
    if not REF:
        for n in NAMES:
            for k in range(3):
                outs = []
                for _ in range(2):
                    s = S()
                    run = Run([body(s, n, k)], 0, ())
                    outs.append(run.go()[0])
                ctx.expect(outs[0] == outs[1], 'deterministic', f'{n} alone gives {outs}')
                REF[n, k] = outs[0]
                ctx.expect((outs[0][0][0] == 'err') == (n.startswith('reject') or n == 'parse-fail' or (n, k) == ('parse-custom', 2)), 'alone', lambda: f'{n} alone: {outs[0]}')
        REF[None] = state(S(False))


def cases(tier):
    if tier == 'thorough':
        for a, b in itertools.combinations_with_replacement(TWO, 2):
            for start in (0, 1):
                for i in range(PARTS):
                    yield (a, b), 2, False, start, (i, PARTS)
        for a, b in itertools.combinations_with_replacement(FEW, 2):
            for start in (0, 1):
                yield (a, b), 1, True, start, (0, 1)
        for t in itertools.combinations_with_replacement(TRI, 3):
            yield t, 1, False, None, (0, 1)
    else:
        for a in FINE:
            for start in (0, 1):
                yield (a, a), 1, True, start, (0, 1)
    for a, b in itertools.combinations_with_replacement(NAMES, 2):
        if tier == 'thorough' or a in FEW and b in FEW or a == b:
            yield (a, b), 1, False, None, (0, 1)


def run(case, ctx):
    names, bound, fine, start, part = case
    reference(ctx)

    def setup():
        s = S(any('token' in n for n in names))
        return [body(s, n, k) for k, n in enumerate(names)], s

    def verify(results, s, sched):
        if results is None:
            ctx.fail('deadlock', f'{names} under schedule {sched}: no thread can go on')
            return
        for k, (n, r) in enumerate(zip(names, results)):
            ctx.expect(r == REF[n, k], 'outcome', lambda: f'{names} under schedule {sched}: {n} in thread {k} gave {r}, alone it gives {REF[n, k]}')
        if sched[1]:
            ctx.count('schedules_with_preemption')
        # what the threads got is not entangled, other than by what they were given
        owner = dict.fromkeys(mutables(s.one, s.two, s.in1, s.in2, s.in3, s.m, s.shared, s.sel, CONSTANT), 'given')
        for k, n in enumerate(names):
            for i, x in mutables(s.raw[k]).items():
                ctx.expect(owner.setdefault(i, k) in (k, 'given'), 'entangled', lambda: f'{names} under schedule {sched}: threads {owner[i]} and {k} got the same {x!r:.200}')
        st = state(s)
        ctx.expect(st == REF[None], 'state', lambda: f'{names} under schedule {sched}: afterwards the shared objects are {st}, expected {REF[None]}')
        ctx.state(names, fine, sched)
        ctx.outcome(tuple(r[0][0] for r in results))
    n = explore(setup, verify, len(names), bound, fine, ctx, None if start is None else (start,), part)
    ctx.count('schedules', n)
    ctx.trace(n)

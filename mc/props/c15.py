"""C15: all sequences of attribute assignments and deletions on instances of frozen and non-frozen classes of one hierarchy."""
import copy
import functools
import itertools
import pickle
import sys

from mc import wide
from mc.lib import *  # noqa

BOUNDS = dict(quick=wide.TEXT + '; ' + 'all 2^3 freezing patterns of a chain of 3 classes and all 2^3 of a two-parent hierarchy, instances created through 8 routes; every sequence of up to 3 operations out of 22 '
                    '(assign, delete, augmented assignment, of fields and new names and special names, on two instances, interleaved with hash, copy, export); every assignment and deletion of 11 names in 216 classes with properties, descriptors, or mixins that assign in their own way', thorough='sequences of up to 4 operations')
RULE = 'one case = hierarchy, freezing pattern, class, creation route; inside: breadth-first over the states reached, every operation from every state, replayed from a fresh instance'

NAMES = ('x', 'y', 'new', 'z')


def family(kind, pat):
    f = [dict(frozen=b == '1', ordered=True) for b in pat]
    if kind == 'chain':
        A = mk('A', {'x': object}, {}, {'cv': 1}, **f[0])
        B = mk('B', {'y': object}, {'y': 0}, bases=(A,), **f[1])
        C = mk('C', {'z': object}, {'z': (1,)}, bases=(B,), **f[2])
    else:
        A = mk('A', {'x': object}, {}, {'cv': 1}, **f[0])
        B = mk('B', {'y': object}, {}, **f[1])
        C = mk('C', {'z': object}, {'z': (1,)}, bases=(A, B), **f[2])
    for c in (A, B, C):
        c.__module__ = __name__
        globals()[c.__name__] = c
    return dict(A=A, B=B, C=C)


def values(K):
    return {k: 'v' + k for k in K._fields}


def create(K, route):
    v = values(K)
    if route == 'keywords':
        return K(**v)
    if route == 'mapping':
        return K.from_mapping(v)
    if route == 'instance':
        return K.from_instance(type('O', (), v)())
    if route == 'json':
        import json
        r = K.from_json(json.dumps(v))
        return r
    if route == 'copy':
        return copy.copy(K(**v))
    if route == 'deepcopy':
        return copy.deepcopy(K(**v))
    if route == 'pickle':
        return pickle.loads(pickle.dumps(K(**v), 4))
    if route == 'parse':
        return K.parse(v)


ROUTES = ('keywords', 'mapping', 'instance', 'json', 'copy', 'deepcopy', 'pickle', 'parse')


def ops(K):
    out = []
    for i in (0, 1):
        for n in list(K._fields) + ['new']:
            out.append(('set', i, n, 'other'))
        out.append(('set', i, list(K._fields)[0], None))
    for n in list(K._fields) + ['new']:
        out.append(('delfield' if n != 'new' else 'del', 0, n, None))
    out += [('del', 1, 'new', None), ('del', 0, 'missing', None), ('set', 0, 'cv', 5), ('del', 0, 'cv', None), ('set', 0, '__dict__', {}), ('set', 0, '__class__', None), ('del', 0, '__dict__', None),
            ('aug', 0, list(K._fields)[0], None), ('hash', 0, None, None), ('use', 0, None, None), ('copy', 0, None, None), ('same', 0, list(K._fields)[0], None)]
    return out


class Loud:
    """a mixin that has its own way of assigning"""
    log = ()

    def __setattr__(self, k, v):
        object.__setattr__(self, k, v)


class Through:
    """a data descriptor"""

    def __get__(self, i, c):
        return 'got'

    def __set__(self, i, v):
        i.__dict__['hidden'] = v

    def __delete__(self, i):
        i.__dict__.pop('x', None)


def put(self, v):
    self.__dict__['x'] = v


def take(self):
    self.__dict__.pop('x', None)


BODIES = {'plain': {}, 'slots': dict(__slots__=('spare', '__dict__')), 'property': dict(p=property(lambda self: self.__dict__.get('x'), put, take)), 'read-only': dict(p=property(lambda self: 1)), 'descriptor': dict(p=Through()), 'class attribute': dict(p=[1]),
          'method': dict(p=lambda self: 1, set=put), 'cached': dict(p=functools.cached_property(lambda self: ('cached', self.x))), 'getattr': dict(__getattr__=lambda self, k: put if k == 'p' else object.__getattribute__(self, k))}
MIXES = {'none': (), 'loud first': ('first', Loud), 'loud last': ('last', Loud), 'inherited': ('parent', Loud)}


def surroundings(ctx, body, mix, frozen, parent):
    """classes with attributes that have their own idea of being assigned"""
    B = BODIES[body]
    where, M = MIXES[mix] or (None, None)
    bases = (RecordBase,)
    if parent is not None:
        bases = (mk('Q', {'w': object}, {'w': 0}, B, (M, RecordBase) if where == 'parent' else (RecordBase,), frozen=parent),)
        B = {}
    elif where == 'parent':
        return
    bases = (M,) + bases if where == 'first' else bases + (M,) if where == 'last' else bases
    r = attempt(mk, 'K', {'x': object, 'y': object}, {'y': 1}, B, bases, frozen=frozen, ordered=True)
    what = f'{body} {mix} frozen={frozen} parent={parent}'
    if r[0] != 'ok':
        ctx.fail('declaration', f'{what}: {show(r)}')
        return
    K = r[1]
    names = ('x', 'y', 'p', 'new', 'spare', 'log', '__dict__', '_hash', '_fields', '__hash__', 'w')
    for name in names:
        for op in ('set', 'del', 'set none', 'both'):
            i, twin = K(x=1), K(x=1)
            if frozen:
                state = dict(vars(i))
                if 'set' in op or op == 'both':
                    r = attempt(setattr, i, name, None if 'none' in op else {'x': 5})
                    ctx.expect(r[0] == 'err' and isinstance(r[1], TypeError) if name != '_hash' else True, 'assignment', lambda: f'{what}: assigning {name}: {show(r)}, expected TypeError')
                if op in ('del', 'both'):
                    r = attempt(delattr, i, name)
                    ctx.expect(r[0] == 'err' and isinstance(r[1], TypeError) if name != '_hash' else True, 'deletion', lambda: f'{what}: deleting {name}: {show(r)}, expected TypeError')
                if name != '_hash':
                    ctx.expect(dict(vars(i)) == state and getattr(i, 'spare', 'no') == 'no' and i == twin and hash(i) == hash(twin) and repr(i) == repr(twin) and i <= twin and not i < twin and i.to_dict() == twin.to_dict(),
                               'attributes', lambda: f'{what}: {op} {name}: {vars(i)}, was {state}')
            elif op.startswith('set') and name in ('x', 'y', 'new', 'p', 'spare', 'log', 'w') and not (body == 'read-only' and name == 'p'):
                v = None if 'none' in op else {'x': 5}
                r = attempt(setattr, i, name, v)
                ctx.expect(r[0] == 'ok', 'assignment-refused', lambda: f'{what}: assigning {name}: {show(r)}')
                got = attempt(getattr, i, name)
                exp = 'got' if body == 'descriptor' and name == 'p' else v
                ctx.expect(got[0] == 'ok' and got[1] == exp, 'attributes', lambda: f'{what}: {name} is {show(got)} after it was set to {v}')
                if body == 'descriptor' and name == 'p':
                    ctx.expect(i.hidden == v, 'attributes', lambda: f'{what}: the descriptor was not asked')
                ctx.expect(twin.x == 1 and twin.y == 1 and vars(twin) == vars(K(x=1)), 'attributes', lambda: f'{what}: assigning {name} changed another instance')
                if name == 'x' or body == 'property' and name == 'p':
                    ctx.expect(i.x == v and i != twin and i.to_dict()['x'] == v, 'attributes', lambda: f'{what}: {i!r} after {name} was set')
            ctx.op()
            ctx.state(what, name, op)
    if body == 'cached':
        i = K(x=1)
        ctx.expect(i.p == ('cached', 1) and i.p is i.p and i == K(x=1) and (not frozen or hash(i) == hash(K(x=1))), 'attributes', lambda: f'{what}: {i.p}')
    ctx.trace()


def cases(tier):
    yield from wide.cases('C15', tier)
    for body in BODIES:
        for mix in MIXES:
            for frozen in (False, True):
                for parent in (None, False, True):
                    yield 'surroundings', body, mix, frozen, parent
    for kind in ('chain', 'two'):
        for pat in itertools.product('01', repeat=3):
            for cls in 'ABC':
                for route in ROUTES:
                    yield kind, ''.join(pat), cls, route, 4 if tier == 'thorough' and route in ('keywords', 'copy', 'pickle') else 3


def visible(i):
    d = {k: getattr(i, k) for k in type(i)._fields}
    d.update((k, v) for k, v in vars(i).items() if k != '_hash')
    return d


def run(case, ctx):
    if case[0] == '__wide__':
        return wide.run('C15', ctx, case[1])
    kind, pat, cls, route, depth = case
    if kind == 'surroundings':
        return surroundings(ctx, *case[1:])
    fam = family(kind, pat)
    K = fam[cls]
    frozen = pat['ABC'.index(cls)] == '1'
    ctx.expect(K.is_frozen() is frozen, 'is-frozen', lambda: f'{case}: is_frozen() {K.is_frozen()}')
    O = ops(K)
    seen = set()
    frontier = [()]
    for d in range(depth):
        nxt = []
        for seq in frontier:
            for o in range(len(O)):
                s = seq + (o,)
                st = play(ctx, case, K, route, O, s, frozen)
                # frozen instances may carry hidden state (a cached hash): sequences are not merged for them
                key = (st, frozenset(s) & {len(O) - 4, len(O) - 3, len(O) - 2} if frozen else ())
                if key not in seen:
                    seen.add(key)
                    ctx.state(case, key)
                    nxt.append(s)
        frontier = nxt
    # the classes of the hierarchy are not affected
    for c in 'ABC':
        fz = pat['ABC'.index(c)] == '1'
        i = fam[c](**values(fam[c]))
        r = attempt(setattr, i, 'x' if c != 'B' else 'y', 0)
        ctx.expect((r[0] == 'err') == fz, 'freezing-of-relatives', lambda: f'{case}: {c}: {show(r)}')
        r = attempt(hash, i)
        ctx.expect((r[0] == 'ok') == fz, 'hash-of-relatives', lambda: f'{case}: hash of {c}: {show(r)}')


def play(ctx, case, K, route, O, seq, frozen):
    insts = [create(K, route), create(K, route)]
    twin = create(K, route)
    model = [visible(i) for i in insts]
    h0 = attempt(hash, create(K, route))
    rep, dic = repr(twin), twin.to_dict()
    for n, o in enumerate(seq):
        op, i, name, val = O[o]
        I, M = insts[i], model[i]
        last = n == len(seq) - 1
        where = lambda: f'{case}: after {[O[j][:3] for j in seq[:n]]}: {O[o][:3]}'
        if op in ('set', 'same'):
            v = val if op == 'set' else getattr(I, name, None)
            if name == '__class__':
                v = type(I)
            if name == '__dict__':
                v = dict(vars(I), added=1)
            r = attempt(setattr, I, name, v)
            if frozen:
                ctx.expect(r[0] == 'err' and isinstance(r[1], TypeError), 'assignment', lambda: where() + f': {show(r)}, expected TypeError')
            else:
                ctx.expect(r[0] == 'ok', 'assignment-refused', lambda: where() + f': {show(r)}')
                if name == '__dict__':
                    M['added'] = 1
                elif name != '__class__':
                    M[name] = v
        elif op == 'aug':
            def aug():
                exec(f'I.{name} += I.{name}', {'I': I})
            r = attempt(aug)
            if frozen:
                ctx.expect(r[0] == 'err' and isinstance(r[1], TypeError), 'assignment', lambda: where() + f': {show(r)}, expected TypeError')
            elif r[0] == 'ok':
                M[name] = M[name] + M[name]
        elif op in ('del', 'delfield'):
            if op == 'delfield' and not frozen or name == '__dict__' and not frozen:
                continue  # deleting the fields of mutable instances is not specified
            r = attempt(delattr, I, name)
            if frozen:
                ctx.expect(r[0] == 'err' and isinstance(r[1], TypeError), 'deletion', lambda: where() + f': {show(r)}, expected TypeError')
            elif name in M:
                ctx.expect(r[0] == 'ok', 'deletion-refused', lambda: where() + f': {show(r)}')
                M.pop(name)
            else:
                ctx.expect(r[0] == 'err', 'deletion-accepted', lambda: where() + f': {show(r)}')
        elif op == 'hash':
            attempt(hash, I)
        elif op == 'use':
            I == twin, I.to_dict(), repr(I), attempt(lambda: I < twin), I.to_json()
        elif op == 'copy':
            c = copy.copy(I)
            if frozen:
                attempt(setattr, c, 'new', 1)
            else:
                setattr(c, 'new', 1)
                setattr(c, list(K._fields)[0], 'changed')
                copy.deepcopy(I).new = 2
        ctx.op()
        if last:
            ctx.trace()
            ctx.outcome((op, 'frozen' if frozen else 'mutable'))
            for j in (0, 1):
                got = visible(insts[j])
                ctx.expect(same(got, model[j]) if list(got) == list(model[j]) else got == model[j], 'attributes', lambda: where() + f': instance {j} has {got}, expected {model[j]}')
            if frozen:
                for j in (0, 1):
                    h = attempt(hash, insts[j])
                    ctx.expect(h[0] == h0[0] and (h[0] == 'err' or h[1] == h0[1]), 'hash', lambda: where() + f': hash {h}, was {h0}')
                    ctx.expect(insts[j] == twin and not insts[j] != twin and repr(insts[j]) == rep and insts[j].to_dict() == dic and insts[j] <= twin and not insts[j] < twin,
                               'observation', lambda: where() + ': equality, ordering, repr or export changed')
    return repr(model)

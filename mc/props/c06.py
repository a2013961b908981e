from mc import wide
from mc.alpha import *
from mc.fieldcheck import *
from mc.specs import *

BOUNDS = dict(quick=wide.TEXT + '; ' + 'all sequences of <=3 coercers over 10 behaviours for int, <=2 over 6-9 behaviours for 15 other types, x check/strict x position '
                    '(field, union alternative, list element, tuple position, mapping key/value, NewType, Optional) x arguments; all coercer '
                    'results of a history repeated twice; 5 surroundings of the field',
              thorough='all sequences of <=4 coercers for int and <=3 for the other types')
RULE = 'one case = target type, style, position and list of coercers; inside: every argument, twice; call logs are compared exactly'
ASSUMPTIONS = ['coercers that raise BaseException subclasses other than Exception are outside the alphabet']


class Custom(Exception):
    pass


class Odd(Exception):
    def __init__(self, a, b, c):
        pass


def rz(e):
    def f(v):
        raise e() if isinstance(e, type) else e
    return f


BIG = 10 ** 20
BEHAV = {
    'good': lambda v: 1234567, 'good2': lambda v: BIG + 1, 'bool': lambda v: True, 'sub': lambda v: lib.MyInt(9), 'wrong': lambda v: 'w',
    'none': lambda v: None, 'type': rz(TypeError), 'value': rz(ValueError), 'key': rz(KeyError), 'custom': rz(Custom), 'same': lambda v: v,
    'zero': lambda v: 0, 'stop': rz(StopIteration), 'odd': lambda v: (_ for _ in ()).throw(Odd(1, 2, 3)), 'assert': rz(AssertionError),
    'ell': lambda v: ..., 'f': lambda v: len, 'list': lambda v: [1], 'empty': lambda v: [], 'mylist': lambda v: lib.MyList([5]), 'str': lambda v: 'good' + '!',
    'estr': lambda v: '', 'mystr': lambda v: lib.MyStr('s'), 'false': lambda v: False, 'A0': lambda v: lib.A0, 'B0': lambda v: lib.B0,
    'a0': lambda v: lib.A0(), 'b0': lambda v: lib.B0(), 'tuple': lambda v: (1, 'a'), 'dict': lambda v: {1: 'a'}, 'flt': lambda v: 0.5, 'lit': lambda v: 'a',
    'attr': rz(AttributeError), 'mem': rz(MemoryError), 'notimpl': lambda v: NotImplemented,
}
INT = ('good', 'wrong', 'type', 'sub', 'bool', 'key', 'none', 'same', 'zero', 'custom')
OTHERS = [
    (('c', 'str'), ('str', 'estr', 'mystr', 'good', 'value', 'none')), (('c', 'bool'), ('bool', 'false', 'zero', 'type', 'none', 'wrong')),
    (('none',), ('none', 'false', 'type', 'ell', 'zero')), (('ell',), ('ell', 'none', 'type', 'zero', 'f')),
    (('callable',), ('f', 'none', 'type', 'good', 'B0')), (('c', 'list'), ('list', 'empty', 'mylist', 'tuple', 'type', 'none')),
    (('c', 'A0'), ('a0', 'b0', 'A0', 'none', 'key')), (('lit', 'a', 1), ('lit', 'none', 'type', 'flt')), (('type', 'A0'), ('A0', 'B0', 'none', 'type', 'a0')),
    (('c', 'Sequence'), ('list', 'tuple', 'none', 'str', 'stop')), (('newtype', ('c', 'int')), ('good', 'bool', 'wrong', 'type')),
    (('seq', 'List', ('c', 'int')), ('list', 'empty', 'mylist', 'tuple', 'type')), (('tup', ('c', 'int'), ('c', 'str')), ('tuple', 'list', 'type')),
    (('vtup', ('any',)), ('tuple', 'list', 'type')), (('map', 'Dict', ('c', 'int'), ('c', 'str')), ('dict', 'list', 'key')),
    (('any',), ('good', 'none')), (('c', 'object'), ('good', 'none')), (('c', 'float'), ('flt', 'good', 'type', 'none', 'attr')),
    (('c', 'int'), ('odd', 'stop', 'assert', 'mem', 'notimpl', 'good2', 'good', 'value')),
]


def positions(spec):
    yield 'field', spec
    if spec != ('ann', ('any',)):
        yield 'list', ('seq', 'List', spec)
    yield 'vtup', ('vtup', spec)
    yield 'tup', ('tup', ('c', 'str'), spec)


def cases(tier):
    yield from wide.cases('C06', tier)
    t = tier == 'thorough'
    for style in ('check', 'strict'):
        for n in range(1, 5 if t else 4):
            for cs in itertools.product(INT, repeat=n):
                yield 'field', ('ann', ('c', 'int'), style) + toks(cs), 'hollow'
                if n <= 2:
                    for c in CONTEXTS[1:]:
                        yield 'field', ('ann', ('c', 'int')) + toks(cs), style, c
                        yield 'list', ('seq', 'List', ('ann', ('c', 'int')) + toks(cs)), style, c
                    yield 'field', ('ann', ('c', 'int')) + toks(cs), style
                    yield 'field', ('ann', ('ann', ('c', 'int')) + toks(cs[:1]), style) + toks(cs[1:]), 'hollow'
                    yield 'opt', ('ann', ('opt', ('ann', ('c', 'int')) + toks(cs)), style), 'hollow'
                    yield 'list', ('seq', 'List', ('ann', ('c', 'int')) + toks(cs)), style
                    yield 'tup', ('tup', ('c', 'str'), ('ann', ('c', 'int')) + toks(cs)), style
                    yield 'vtup', ('vtup', ('ann', ('c', 'int')) + toks(cs)), style
                    yield 'map', ('map', 'Dict', ('c', 'str'), ('ann', ('c', 'int')) + toks(cs)), style
                    yield 'map', ('map', 'Dict', ('ann', ('c', 'int')) + toks(cs), ('c', 'int')), style
                    yield 'val', ('ann', ('c', 'int'), style) + toks(cs) + (('V', 'inc'),), 'hollow'
        for spec, bs in OTHERS:
            for n in range(1, 4 if t or len(bs) < 6 else 3):
                for cs in itertools.product(bs, repeat=n):
                    if style == 'strict' and spec == ('c', 'Sequence'):
                        continue
                    yield 'field', ('ann', spec, style) + toks(cs), style
                    yield 'val', ('ann', spec, style) + toks(cs) + (('V', 'ident'),), style


def toks(cs):
    return tuple(('C', c) for c in cs)


TABLE = dict(BEHAV, inc=lambda v: v + 1, ident=lambda v: v)
ARGS = atoms('1', 'True', 'MyInt1', "'a'", "'1'", "''", 'None', '...', '[1]', '0', 'False', 'len', 'A0', 'B0', 'A0()', 'B0()', '1.5', 'object()', '[]',
             '(1,)', 'MyStr', 'MyList', 'nan', 'iter') + [('(1,a)', lambda: (1, 'a')), ('{1:a}', lambda: {1: 'a'})]
EL = atoms('1', 'True', "'x'", 'None', '[]')


def run(case, ctx):
    if case[0] == '__wide__':
        return wide.run('C06', ctx, case[1])
    kind, spec, default, context = (*case, 'plain')[:4]
    if kind in ('field', 'val', 'opt'):
        vals = ARGS
    elif kind in ('list', 'vtup'):
        vals = list(seqs(EL, ['list' if kind == 'list' else 'tuple'], 0, 2)) + [('5', lambda: (list if kind == 'list' else tuple)(['p', 1, 'q', True, 'r']))]
    elif kind == 'tup':
        vals = [(f"('s',{l})", lambda m=m: ('s', m())) for l, m in ARGS]
    else:
        vals = list(maps(atoms("'a'", '1', "'b'"), atoms('1', "'x'", 'True', 'None'), ['dict'], 0, 2))
    env = Env(TABLE)
    d = declare(ctx, spec, default, env, context=context)
    if d is None:
        return
    cls, node = d
    for rep in range(2):
        for label, make in vals:
            ctx.state(spec, default, label, context)
            check_value(ctx, cls, node, env, label, make, spec, 'projected' if kind == 'map' else 'exact')
            if env.log:
                ctx.fail('calls', 'callbacks called after construction')

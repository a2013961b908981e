"""C27: which names of a class body become fields, and with which default, check and tags.

Class bodies are generated as source text from an alphabet of entries, each with its own expected meaning, and really
executed as modules: plainly, under `from __future__ import annotations`, and inside a function.
"""
import itertools
import sys
import types

from mc.canon import canon
from mc import wide
from mc.lib import *  # noqa

BOUNDS = dict(
    quick=wide.TEXT + '; ' + 'bodies of 1 entry over 93 entries and of 2 entries (93 x 40, both orders), 3 entries over 10, 4 over 5, x {plain, future annotations, local, local with string annotations} x frozen; children of every body over 12 child bodies; rejected declarations',
    thorough='also 2 entries over all 93 x 93, 3 entries over 17, 4 entries over 9')
RULE = 'one case = the class bodies starting with one given entry; every body is executed in every setting and compared with the meaning of its entries'

PRELUDE = '''
import typing
import typing as t
from typing import Any, Callable, ClassVar, Dict, Final, Generic, List, Optional, Set, Tuple, TypeVar, Union
from records import *
from records import Annotated, RecordBase, Factory, Tag, check, check_strict, hollow
class Quiet:
    def __bool__(self): raise RuntimeError('no truth value')
class Desc:
    def __get__(self, i, o): return 'got'
DESC = Desc()
OBJ = object()
QUIET = Quiet()
LST = []
FN = lambda: 5
T1 = Tag(1)
T2 = Tag('two')
class Ref(RecordBase):
    rr: int
REF = Ref(rr=3)
'''

# values that reveal which check a field has: (source of the value in the module, accepted by ...)
PROBES = {'int': '5', 'bool': 'True', 'str': "'x'", 'list': '[1]', 'strlist': "['s']", 'none': 'None', 'obj': 'OBJ', 'ref': 'REF', 'self': 'SELF'}
HOLLOW = frozenset(PROBES)
INT = frozenset({'int', 'bool'})
STRICT = frozenset({'int'})
OPTINT = INT | {'none'}
SELF = frozenset({'self', 'none'})

REQ = object()


def field(accepts=HOLLOW, default=REQ, factory=False, tags=()):
    return dict(kind='field', accepts=accepts, default=default, factory=factory, tags=tags, final=False)


def final(**kw):
    return dict(field(**kw), final=True)


def attr(src=None, call=None):
    """an ordinary class attribute: its value in the class dict, or how to use it through an instance"""
    return dict(kind='attr', src=src, call=call)


def classvar(src=REQ):
    return dict(kind='classvar', src=src)


REJECT = dict(kind='reject')

# name -> (source lines, meaning); {n} is the name of the entry, {K} the class
E = {
    # ordinary attributes
    'plain': ('{n} = OBJ', attr('OBJ')), 'plain-none': ('{n} = None', attr('None')), 'method': ('def {n}(self): return "m"', attr(call=('m', ()))),
    'property': ('@property\ndef {n}(self): return "p"', dict(kind='attr', src=None, call='p')), 'classmethod': ('@classmethod\ndef {n}(cls): return "c"', attr(call=('c', ()))),
    'staticmethod': ('@staticmethod\ndef {n}(a): return a', attr(call=('z', ('z',)))), 'inner': ('class {n}:\n    zz: int = 3', dict(kind='attr', src=None, call=None)), 'lambda': ('{n} = lambda self: "l"', attr(call=('l', ()))),
    'tagged-plain': ('{n} = T1', attr('T1')), 'annotated-value': ('{n} = Annotated[int, check]', attr('Annotated[int, check]')), 'factory-value': ('{n} = Factory(list)', dict(kind='attr', src=None, call=None)),
    # fields
    'hollow': ('{n}: int', field()), 'any': ('{n}: Any', field()), 'obj': ('{n}: object = OBJ', field(default='OBJ')), 'checked': ('{n}: Annotated[int, check]', field(INT)), 'strict': ('{n}: Annotated[int, check_strict]', field(STRICT)),
    'zero': ('{n}: int = 0', field(default='0')), 'none': ('{n}: Annotated[int, check] = None', field(INT, default='None')), 'false': ('{n}: bool = False', field(default='False')), 'empty': ("{n}: str = ''", field(default="''")), 'lst': ('{n}: List[int] = LST', field(default='LST')),
    'ellipsis': ('{n}: int = ...', field(default='...')), 'notimpl': ('{n}: int = NotImplemented', field(default='NotImplemented')), 'quiet': ('{n}: object = QUIET', field(default='QUIET')), 'cls': ('{n}: type = int', field(default='int')),
    'fn': ('{n}: Callable = FN', field(default='FN')), 'tag-default': ('{n}: object = T1', field(default='T1')), 'ref-default': ('{n}: Ref = REF', field(default='REF')), 'factory': ('{n}: list = Factory(list)', field(default='[]', factory=True)),
    'factory-none': ('{n}: Optional[int] = Factory(lambda: None)', field(default='None', factory=True)), 'none-type': ('{n}: Annotated[None, check]', field(frozenset({'none'}))), 'optional': ('{n}: Annotated[Optional[int], check]', field(OPTINT)),
    'desc': ('{n}: object = DESC', field(default='DESC')), 'noteqs': ('{n}: Annotated[int, check] = "wrong"', field(INT, default='"wrong"')),
    # strings
    'str-ann': ('{n}: "int"', field()), 'str-checked': ('{n}: "Annotated[int, check]" = 0', field(INT, default='0')), 'str-inside': ('{n}: Annotated["int", check]', field(INT)), 'str-list': ('{n}: Annotated[List["int"], check]', field(frozenset({'list'} | {'strlist'}))),
    'str-list-checked': ('{n}: Annotated[List["Annotated[int, check]"], check]', field(frozenset({'list'}))), 'str-opt': ('{n}: Annotated[Optional["int"], check] = None', field(OPTINT, default='None')), 'str-any': ('{n}: "typing.Any" = None', field(default='None')), 'str-none': ('{n}: "None" = 5', field(default='5')),
    'str-late': ('{n}: "Annotated[List[Annotated[\'int\', hollow]], check]"', field(frozenset({'list', 'strlist'}))),
    # the class itself
    'self': ('{n}: Annotated["{K}", check] = None', field(SELF - {'none'}, default='None')), 'self-opt': ('{n}: Annotated[Optional["{K}"], check] = None', field(SELF, default='None')), 'self-str': ('{n}: "Annotated[Optional[{K}], check]" = None', field(SELF, default='None')),
    'self-list': ('{n}: Annotated[List["{K}"], check] = LST', field(frozenset({'list', 'strlist'}), default='LST')), 'self-hollow': ('{n}: "{K}" = 0', field(default='0')), 'self-dict': ('{n}: Dict[str, "{K}"] = None', field(default='None')), 'self-type': ('{n}: "typing.Type[{K}]" = int', field(default='int')),
    # class variables
    'cv': ('{n}: ClassVar', classvar()), 'cv-val': ('{n}: ClassVar = OBJ', classvar('OBJ')), 'cv-int': ('{n}: ClassVar[int]', classvar()), 'cv-int-val': ('{n}: ClassVar[int] = 0', classvar('0')), 'cv-none': ('{n}: ClassVar[Optional[int]] = None', classvar('None')), 'cv-t': ('{n}: t.ClassVar[int] = 3', classvar('3')),
    'cv-str': ('{n}: "ClassVar[int]" = 4', classvar('4')), 'cv-str-bare': ('{n}: "ClassVar" = OBJ', classvar('OBJ')), 'cv-str-q': ('{n}: "typing.ClassVar[int]" = 4', classvar('4')), 'cv-inner-str': ('{n}: ClassVar["int"] = 4', classvar('4')), 'cv-self': ('{n}: ClassVar["{K}"] = None', classvar('None')),
    'cv-ann': ('{n}: Annotated[ClassVar[int], check] = "x"', classvar('"x"')), 'cv-ann-bare': ('{n}: Annotated[ClassVar, T1] = "x"', classvar('"x"')), 'cv-ann2': ('{n}: ClassVar[Annotated[int, check]] = "x"', classvar('"x"')), 'cv-ann3': ('{n}: Annotated[Annotated[ClassVar[int], T1], check] = "x"', classvar('"x"')),
    'cv-list': ('{n}: ClassVar[List["{K}"]] = []', classvar('[]')), 'cv-factory': ('{n}: ClassVar[object] = T2', classvar('T2')), 'cv-fn': ('{n}: ClassVar[Callable] = int', classvar('int')),
    # Final
    'fin': ('{n}: Final[int]', final()), 'fin-def': ('{n}: Final[int] = 0', final(default='0')), 'fin-str': ('{n}: "Final[int]" = None', final(default='None')), 'fin-inner-str': ('{n}: Final["int"] = 5', final(default='5')), 'fin-q': ('{n}: t.Final[Annotated[int, check]]', final(accepts=INT)),
    'fin-in': ('{n}: Final[Annotated[int, check, T1]]', final(accepts=INT, tags=('T1',))), 'fin-out': ('{n}: Annotated[Final[int], check, T1]', final(accepts=INT, tags=('T1',))), 'fin-both': ('{n}: Annotated[Final[Annotated[int, T1]], check, T2]', final(accepts=INT, tags=('T1', 'T2'))),
    'fin-both2': ('{n}: Annotated[Final[Annotated[int, check_strict]], T2]', final(accepts=STRICT, tags=('T2',))), 'fin-opt': ('{n}: Final[Annotated[Optional[int], check]] = None', final(accepts=OPTINT, default='None')), 'fin-self': ('{n}: Final[Annotated[Optional["{K}"], check]] = None', final(accepts=SELF, default='None')),
    'fin-bare': ('{n}: Final', REJECT), 'fin-bare-val': ('{n}: Final = 5', REJECT), 'fin-bare-str': ('{n}: "Final" = 5', REJECT), 'fin-bare-ann': ('{n}: Annotated[Final, check]', REJECT), 'fin-bare-ann2': ('{n}: Annotated[Final, T1] = 5', REJECT),
    # tags and nesting
    'tag': ('{n}: Annotated[int, T1]', field(tags=('T1',))), 'tag-check': ('{n}: Annotated[int, T1, check]', field(INT, tags=('T1',))), 'check-tag': ('{n}: Annotated[int, check, T1]', field(INT, tags=('T1',))), 'nest1': ('{n}: Annotated[Annotated[int, T1], check]', field(INT, tags=('T1',))),
    'nest2': ('{n}: Annotated[Annotated[int, check], T1]', field(INT, tags=('T1',))), 'nest3': ('{n}: Annotated[Annotated[Annotated[int, T2], check], T1]', field(INT, tags=('T1', 'T2'))), 'nest-str': ('{n}: Annotated["Annotated[int, check]", T1]', field(INT, tags=('T1',))), 'tags-str': ('{n}: "Annotated[Annotated[int, T1], check, T2]" = 0', field(INT, default='0', tags=('T1', 'T2'))),
    # redeclared names
    'ann-plain': ('{n}: int\n{n} = OBJ', field(default='OBJ')), 'plain-ann': ('{n} = OBJ\n{n}: int', field(default='OBJ')), 'ann-none': ('{n}: Annotated[int, check]\n{n} = None', field(INT, default='None')), 'ann-del': ('{n}: int = 5\ndel {n}', field()), 'ann-ann': ('{n}: Annotated[int, check] = 1\n{n}: Annotated[Optional[int], check]', field(OPTINT, default='1')),
    'ann-cv': ('{n}: int = 5\n{n}: ClassVar[int]', classvar('5')), 'cv-then-ann': ('{n}: ClassVar[int] = 5\n{n}: int', field(default='5')), 'default-default': ('{n}: int = 5\n{n} = 6', field(default='6')),
    # unusual but legal names
    'under': ('_{n}: int = 0', dict(field(default='0'), prefix='_')), 'mangled': ('__{n}: Annotated[int, check] = 0', dict(field(INT, default='0'), prefix='_{K}__')), 'dunder': ('__{n}__: int = 0', dict(field(default='0'), prefix='__', suffix='__')), 'unicode': ('é{n}: int = 0', dict(field(default='0'), prefix='é')),
}
NAMES = list(E)
SECOND = ['plain', 'method', 'inner', 'factory-value', 'hollow', 'checked', 'zero', 'none', 'lst', 'factory', 'quiet', 'str-checked', 'str-inside', 'str-list-checked', 'self-opt', 'self-str', 'self-list', 'cv', 'cv-val', 'cv-int', 'cv-int-val', 'cv-str', 'cv-str-bare', 'cv-self', 'cv-ann',
          'cv-ann2', 'fin', 'fin-def', 'fin-str', 'fin-in', 'fin-both', 'fin-bare', 'fin-bare-val', 'fin-bare-ann', 'tag-check', 'nest3', 'plain-ann', 'ann-cv', 'cv-then-ann', 'under']
THIRD = {'quick': ['plain', 'hollow', 'none', 'self-opt', 'cv-val', 'cv', 'fin-both', 'method', 'fin-bare', 'factory'],
         'thorough': ['plain', 'method', 'hollow', 'checked', 'none', 'str-checked', 'self-opt', 'self-list', 'cv', 'cv-val', 'cv-str', 'fin', 'fin-both', 'fin-bare', 'factory', 'nest3', 'plain-ann']}
FOURTH = {'quick': ['plain', 'hollow', 'none', 'cv-val', 'fin-in'], 'thorough': ['plain', 'method', 'hollow', 'none', 'cv', 'cv-val', 'fin-in', 'self-opt', 'factory']}
CHILDREN = [(), ('plain',), ('method',), ('cv-val',), ('cv',), ('hollow',), ('none',), ('self-opt',), ('fin-bare',), ('fin-in',), ('cv-val', 'checked'), ('str-checked', 'plain')]
SETTINGS = [('plain', False, False), ('future', True, False), ('local', False, True), ('local-future', True, True)]


def cases(tier):
    for a in NAMES:
        yield 'one', a
        yield 'two', a
    for a in THIRD[tier]:
        yield 'three', a
    for a in FOURTH[tier]:
        for b in FOURTH[tier]:
            yield 'four', a, b
    for a in NAMES:
        yield 'child', a
    yield 'forms', 0


def bodies(case, tier='quick'):
    kind, a = case[:2]
    if kind == 'one':
        yield (a,)
    elif kind == 'two':
        for b in SECOND if tier == 'quick' else NAMES:
            yield a, b
            if tier == 'quick' and a not in SECOND:
                yield b, a
    elif kind == 'three':
        for b, c in itertools.product(THIRD[tier], repeat=2):
            yield a, b, c
    elif kind == 'four':
        for c, d in itertools.product(FOURTH[tier], repeat=2):
            yield a, case[2], c, d


class Module:
    """executes source as a module of its own"""
    n = 0

    def __enter__(self):
        Module.n += 1
        self.mod = types.ModuleType(f'mc_decl_{Module.n}')
        sys.modules[self.mod.__name__] = self.mod
        return self

    def __exit__(self, *a):
        sys.modules.pop(self.mod.__name__, None)

    def run(self, src):
        exec(compile(src, self.mod.__name__, 'exec', dont_inherit=True), self.mod.__dict__)


def nameof(i, e, K, stem='nn'):
    m = E[e][1]
    base = f'{stem}{"abcd"[i]}'
    return m.get('prefix', '').replace('{K}', K) + base + m.get('suffix', '')


def source(body, K, stem='nn', bases='RecordBase', frozen=False):
    lines = []
    for i, e in enumerate(body):
        lines += E[e][0].replace('{n}', f'{stem}{"abcd"[i]}').replace('{K}', K).split('\n')
    if not lines:
        lines = ['pass']
    return f'class {K}({bases}, frozen={frozen}):\n' + ''.join(f'    {l}\n' for l in lines)


def wrap(src, future, local, names):
    head = ('from __future__ import annotations\n' if future else '') + PRELUDE
    if not local:
        return head, src
    return head, 'def make():\n' + ''.join(f'    {l}\n' for l in src.splitlines()) + f'    return {", ".join(names)},\nmade = make()\n' + ''.join(f'{n} = made[{i}]\n' for i, n in enumerate(names))


def run(case, ctx, tier='quick'):
    if case[0] == '__wide__':
        return wide.run('C27', ctx, case[1])
    if case[0] == 'forms':
        return forms(ctx)
    if case[0] == 'child':
        for child in CHILDREN:
            for frozen in (False, True):
                for setting in SETTINGS:
                    children(ctx, case[1], child, frozen, setting)
        return
    for body in bodies(case, TIER[0]):
        for frozen in (False, True):
            for setting in SETTINGS:
                single(ctx, body, frozen, setting)


TIER = ['quick']
_cases = cases


def cases(tier):  # noqa: F811  (the size of the space of a case depends on the tier)
    TIER[0] = tier
    yield from wide.cases('C27', tier)
    yield from _cases(tier)


def wrong(body, frozen):
    """whether the declaration must be rejected, ignoring the rule about bodies without fields"""
    return any(E[e][1]['kind'] == 'reject' or (E[e][1].get('final') and not frozen) for e in body)


def single(ctx, body, frozen, setting):
    label, future, local = setting
    head, src = wrap(source(body, 'KK', frozen=frozen), future, local, ['KK'])
    where = lambda: f'{label}: {src}'
    with Module() as m:
        m.run(head)
        ctx.op()
        r = attempt(m.run, src)
        fields = [e for e in body if E[e][1]['kind'] == 'field']
        ctx.state(label, body, frozen)
        if wrong(body, frozen) or not fields:
            ctx.expect(r[0] == 'err' and isinstance(r[1], (TypeError, ValueError)), 'not-rejected', lambda: f'{where()}\nmust be rejected, got {show(r)}')
            ctx.outcome('rejected')
            return
        ctx.expect(r[0] == 'ok', 'rejected', lambda: f'{where()}\nmust be accepted, got {show(r)}')
        verify(ctx, m.mod, m.mod.KK, [(nameof(i, e, 'KK'), E[e][1]) for i, e in enumerate(body)], where)
        ctx.outcome('accepted')
    ctx.trace()


def children(ctx, entry, child, frozen, setting):
    """a parent class with the entry (and a plain field), and a child of it"""
    label, future, local = setting
    parent = ('hollow', entry)
    kname = 'KK'
    psrc = source(parent, 'KK', frozen=frozen)
    csrc = source(child, 'CC', 'mm', 'KK', frozen)
    if local:
        psrc, csrc = source(parent, 'KK', frozen=frozen), csrc
    head, src = wrap(psrc + csrc, future, local, ['KK', 'CC'])
    where = lambda: f'{label}: {src}'
    with Module() as m:
        m.run(head)
        ctx.op()
        r = attempt(m.run, src)
        ctx.state(label, 'child', entry, child, frozen)
        if wrong(parent + child, frozen):
            ctx.expect(r[0] == 'err' and isinstance(r[1], (TypeError, ValueError)), 'not-rejected', lambda: f'{where()}\nmust be rejected, got {show(r)}')
            if not wrong(parent, frozen) and not local:  # the parent was declared and still is what it was
                verify(ctx, m.mod, m.mod.KK, [(nameof(i, e, 'KK'), E[e][1]) for i, e in enumerate(parent)], where)
            return
        ctx.expect(r[0] == 'ok', 'rejected', lambda: f'{where()}\nmust be accepted, got {show(r)}')
        pm = [(nameof(i, e, 'KK'), E[e][1]) for i, e in enumerate(parent)]
        cm = [(nameof(i, e, 'CC', 'mm'), E[e][1]) for i, e in enumerate(child)]
        # a self reference means the class it was written in
        verify(ctx, m.mod, m.mod.CC, pm + cm, where, own=[n for n, _ in cm], owner={n: m.mod.KK for n, _ in pm})
        verify(ctx, m.mod, m.mod.KK, pm, where)
    ctx.trace()


def verify(ctx, mod, cls, members, where, own=None, owner=()):
    ev = lambda src: eval(src, mod.__dict__)
    exp = [(n, m) for n, m in members if m['kind'] == 'field']
    names = [n for n, _ in exp]
    ctx.expect(list(cls._fields) == names, 'fields', lambda: f'{where()}\nfields {list(cls._fields)}, expected {names}')
    defaults = {n: ev(m['default']) for n, m in exp if m['default'] is not REQ}
    required = [n for n in names if n not in defaults]

    # values that are accepted: hollow fields take anything
    good = {}
    for n, m in exp:
        if m['accepts'] == HOLLOW:
            good[n] = ['good', n]
        elif m['accepts'] & {'int'}:
            good[n] = 5
        elif 'list' in m['accepts']:
            good[n] = [1]
        elif 'none' in m['accepts']:
            good[n] = None
        else:
            good[n] = REQ
    minimal = {n: good[n] for n in required}
    r = attempt(lambda: cls(**minimal))
    ctx.op()
    ctx.expect(r[0] == 'ok' and type(r[1]) is cls, 'construct', lambda: f'{where()}\n{cls.__name__}(**{minimal}) gives {show(r)}')
    inst = r[1]
    for n, m in exp:
        v = getattr(inst, n)
        if n in minimal:
            ctx.expect(v == minimal[n], 'value', lambda: f'{where()}\n{n} is {v!r}')
        elif m['factory']:
            ctx.expect(type(v) is type(defaults[n]) and v == defaults[n], 'default', lambda: f'{where()}\n{n} is {v!r}')
        else:
            d = defaults[n]
            ctx.expect(v is d or (type(v) is type(d) and m['default'][0] in '"\'[' and v == d), 'default', lambda: f'{where()}\nthe default of {n} is {type(v)} instead of {m["default"]}')
    full = {n: (v if v is not REQ else inst) for n, v in good.items()}
    r = attempt(lambda: cls(**full))
    ctx.op()
    ctx.expect(r[0] == 'ok', 'construct', lambda: f'{where()}\nall fields given: {show(r)}')
    inst = r[1]
    d = attempt(lambda: inst.to_dict(include_defaults=True))
    ctx.expect(d[0] == 'ok' and list(d[1]) == names and all(d[1][n] is full[n] for n in names), 'order', lambda: f'{where()}\nexports {show(d)}')
    for n in required:  # each one alone
        r = attempt(lambda: cls(**{k: v for k, v in full.items() if k != n}))
        ctx.op()
        ctx.expect(r[0] == 'err' and isinstance(r[1], TypeError), 'required', lambda: f'{where()}\nwithout {n}: {show(r)}')
    for n, m in exp:
        selfcls = owner[n] if owner and n in owner else cls
        for probe, src in PROBES.items():
            if probe == 'self':
                v = inst if selfcls is cls else attempt(lambda: selfcls(**{k: full[k] for k in selfcls._fields}))[1]
            else:
                v = ev(src)
            r = attempt(lambda: cls(**{**full, n: v}))
            ctx.op()
            ok = probe in m['accepts']
            ctx.expect((r[0] == 'ok') == ok, 'check', lambda: f'{where()}\n{n}={v!r} gives {show(r)}, expected to be {"accepted" if ok else "rejected"}')
            if ok:
                got = getattr(r[1], n)
                ctx.expect(got is v, 'value', lambda: f'{where()}\n{n}={v!r} became {got!r}')
    # tags
    for t in ('T1', 'T2'):
        exp_t = [n for n, m in exp if t in m['tags']]
        got = list(cls._fields.filter_by_tag(ev(t)))
        ctx.expect(got == exp_t, 'tags', lambda: f'{where()}\nfields with {t}: {got}, expected {exp_t}')
    # the rest stays what it was
    for n, m in members:
        if m['kind'] == 'field':
            continue
        r = attempt(lambda: cls(**{**full, n: 5}))
        ctx.op()
        ctx.expect(r[0] == 'err' and isinstance(r[1], TypeError), 'not-a-field', lambda: f'{where()}\nthe argument {n} gives {show(r)}')
        ctx.expect(n not in repr(inst) and n not in inst.__dict__, 'not-a-field', lambda: f'{where()}\n{n} shows up in {inst!r}')
        has = hasattr(cls, n)
        if m['kind'] == 'classvar':
            if m['src'] is REQ:
                ctx.expect(not has, 'attribute', lambda: f'{where()}\n{n} has become an attribute: {getattr(cls, n)!r}')
            else:
                v = ev(m['src'])
                got = getattr(cls, n, REQ)
                ctx.expect(got is v or (type(got) is type(v) and got == v), 'attribute', lambda: f'{where()}\n{n} is {got!r}')
                ctx.expect(getattr(inst, n) is got, 'attribute', lambda: f'{where()}\nof the instance, {n} is {getattr(inst, n)!r}')
        elif m['src'] is not None:
            v = ev(m['src'])
            got = getattr(cls, n, REQ)
            ctx.expect(got is v or got == v, 'attribute', lambda: f'{where()}\n{n} is {got!r}')
        else:
            ctx.expect(has, 'attribute', lambda: f'{where()}\n{n} is gone')
            if isinstance(m['call'], tuple):
                res, args = m['call']
                got = attempt(lambda: getattr(inst, n)(*args))
                ctx.expect(got == ('ok', res), 'attribute', lambda: f'{where()}\n{n}{args} gives {show(got)}')
            elif m['call']:
                got = attempt(lambda: getattr(inst, n))
                ctx.expect(got == ('ok', m['call']), 'attribute', lambda: f'{where()}\n{n} is {show(got)}')


def perms(parts):
    """all ways to write an annotation that carries the parts: order, nesting and place of Final and strings"""
    out = []
    for order in itertools.permutations(parts):
        out.append(f'Annotated[int, {", ".join(order)}]')
        for cut in range(1, len(order)):
            out.append(f'Annotated[Annotated[int, {", ".join(order[:cut])}], {", ".join(order[cut:])}]')
        if len(order) == 3:
            out.append(f'Annotated[Annotated[Annotated[int, {order[0]}], {order[1]}], {order[2]}]')
    return out


def forms(ctx):
    """every way to write one annotation means the same"""
    for style, accepts in (('check', INT), ('check_strict', STRICT), ('hollow', HOLLOW)):
        for tags in ((), ('T1',), ('T1', 'T2')):
            parts = (style,) + tags
            plain = perms(parts)
            finals = [f'Final[{p}]' for p in plain]
            for order in itertools.permutations(parts):
                finals.append(f'Annotated[Final[int], {", ".join(order)}]')
                for cut in range(1, len(order)):
                    finals.append(f'Annotated[Final[Annotated[int, {", ".join(order[:cut])}]], {", ".join(order[cut:])}]')
                    finals.append(f'Annotated[Annotated[Final[int], {", ".join(order[:cut])}], {", ".join(order[cut:])}]')
            for form in plain + finals:
                fin = 'Final' in form
                for text in (form, repr(form), form.replace('int', '"int"')):
                    for default in ('', ' = 0', ' = None', ' = Factory(list)'):
                        meaning = field(accepts, tags=tags, default=default[3:] or REQ) if 'Factory' not in default else field(accepts, tags=tags, default='[]', factory=True)
                        for frozen in (False, True):
                            for label, future, local in SETTINGS[:2]:
                                head, src = wrap(f'class KK(RecordBase, frozen={frozen}):\n    aa: {text}{default}\n    bb: Annotated[object, T2] = 1\n', future, local, ['KK'])
                                where = lambda: f'{label}: {src}'
                                with shared(head) as m:
                                    r = attempt(m.run, src)
                                    ctx.op()
                                    ctx.state('form', text, default, frozen, label)
                                    if fin and not frozen:
                                        ctx.expect(r[0] == 'err' and isinstance(r[1], (TypeError, ValueError)), 'not-rejected', lambda: f'{where()}\nmust be rejected, got {show(r)}')
                                        continue
                                    ctx.expect(r[0] == 'ok', 'rejected', lambda: f'{where()}\nmust be accepted, got {show(r)}')
                                    verify(ctx, m.mod, m.mod.KK, [('aa', meaning), ('bb', field(default='1', tags=('T2',)))], where)
    ctx.trace()


_SHARED = {}


def shared(head):
    """a module reused for declarations that replace each other"""
    if head not in _SHARED:
        m = Module()
        m.__enter__()
        m.run(head)
        m.__class__ = type('Kept', (Module,), {'__enter__': lambda self: self, '__exit__': lambda self, *a: None})
        _SHARED[head] = m
    return _SHARED[head]

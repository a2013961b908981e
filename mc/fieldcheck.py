"""One field of one specification against the reference model, over every value of an alphabet."""
from mc.lib import *  # noqa
from mc.model import *  # noqa


def short(s):
    return repr(s)[:300]


# the surroundings a field may be declared in; none of them changes what the field does
CONTEXTS = ('plain', 'derived', 'inherited', 'second', 'twice', 'mixin')
OTHER = {'hollow': 'strict', 'check': 'hollow', 'strict': 'check'}


def inc(v):
    return v + 1


def build(context, name, a, style, extra=None, **kw):
    """a class with a field of that annotation, checked by that default style, within a context"""
    own = {**(extra or {}), name: a}
    st, other = STYLES[style], STYLES[OTHER[style]]
    if context == 'plain':
        return mk('K', own, default_type_check=st, **kw)
    if context == 'derived':  # the parent checks by another style
        base = mk('P', {'zz': Annotated[int, CallValidation(inc)]}, {'zz': 5}, default_type_check=other)
        return mk('K', own, bases=(base,), default_type_check=st, **kw)
    if context == 'inherited':  # the field is that of the grandparent; the classes in between check by other styles
        base = mk('P', own, default_type_check=st, **kw)
        mid = mk('Q', {'zz': Annotated[int, CallValidation(inc)]}, {'zz': 5}, bases=(base,), default_type_check=other)
        return mk('K', {'zy': int}, {'zy': 5}, bases=(mid,), default_type_check=other)
    if context == 'second':  # the same annotation serves three fields
        return mk('K', {'zz': a, name: a, 'zy': a} if not extra else {**own, 'zz': a}, {'zz': 5, 'zy': 5}, default_type_check=st, **kw)
    if context == 'twice':  # the same annotation already served two classes, of other styles where those accept it
        for s in (st, other):
            try:
                mk('P', {'zz': a}, default_type_check=s)
            except (TypeError, ValueError):
                pass
        return mk('K', own, default_type_check=st, **kw)
    if context == 'mixin':  # alongside an unrelated class, and a plain attribute
        class Mix:
            zz: int = 5
        return mk('K', own, body={'attr': 5}, bases=(mk('P', {'zy': str}, {'zy': ''}, default_type_check=other), Mix), default_type_check=st, **kw)
    raise AssertionError(context)


def declare(ctx, spec, default, env, name='x', extra=None, context='plain', **kw):
    """declare the class, comparing the declaration outcome with the model; returns (class, node) or None if rejected"""
    try:
        node = compile(spec, default, env)
        derr = None
    except DeclError as e:
        node, derr = None, e.exc
    r = attempt(lambda: build(context, name, annotation(spec, env), default, extra, **kw))
    ctx.op()
    if derr is not None:
        ctx.outcome(f'declaration rejected {derr.__name__}')
        if r[0] == 'ok':
            ctx.fail('declaration-accepted', f'{short(spec)} default {default}: the declaration has to be rejected')
        elif not isinstance(r[1], (TypeError, ValueError)):
            ctx.fail('declaration-error-type', f'{short(spec)} default {default}: {show(r)}, expected {derr.__name__}')
        return None
    if r[0] != 'ok':
        ctx.fail('declaration-rejected', f'{short(spec)} default {default}: {show(r)}')
        return None
    return r[1], node


def filter_log(log, names):
    return [x for x in log if x[0] in names]


def check_value(ctx, cls, node, env, label, make, spec, log='exact', name='x'):
    v = make()
    before = snapshot(v)
    m = Model(env)
    try:
        expect = m.fill(node, v)
    except Reject as e:
        expect = e
    mlog = env.take()
    r = attempt(cls, **{name: v})
    rlog = env.take()
    ctx.op()
    ctx.trace()
    where = lambda: f'{short(spec)}, value {label}={v!r}'
    if snapshot(v) != before:
        ctx.fail('argument-mutated', f'{where()}: the value supplied was modified')
    if isinstance(expect, Reject):
        ctx.outcome(f'rejected {expect.exc.__name__ if expect.exc else "?"}')
        if r[0] == 'ok':
            ctx.fail('accepted', f'{where()}: stored {getattr(r[1], name, "<nothing>")!r}, has to be rejected')
        elif not exc_ok(expect.exc, r[1]):
            ctx.fail('error-type', f'{where()}: {show(r)}, expected {expect.exc.__name__}')
        return expect
    val, kind = expect
    ctx.outcome(f'kind {kind} {type(val).__name__}')
    if r[0] != 'ok':
        ctx.fail('rejected', f'{where()}: {show(r)} (cause {r[1].__cause__!r}), expected {val!r}')
        return expect
    got = getattr(r[1], name, NODEF)
    if type(r[1]) is not cls or got is NODEF:
        ctx.fail('result', f'{where()}: construction returned {r[1]!r}')
    elif not m.agrees(got, val):
        ctx.fail('stored-value', f'{where()}: stored {got!r} ({type(got).__name__}), expected '
                                 f'{"the very object " if id(val) not in m.fresh else ""}{val!r} ({type(val).__name__})')
    elif log == 'exact' and rlog != mlog:
        ctx.fail('calls', f'{where()}: callbacks called {[x[0] for x in rlog]}, expected {[x[0] for x in mlog]}')
    elif log == 'projected':
        # order only has to agree per callback (keys and values of a mapping may be processed in either order)
        for nm in {x[0] for x in rlog} | {x[0] for x in mlog}:
            if filter_log(rlog, (nm,)) != filter_log(mlog, (nm,)):
                ctx.fail('calls', f'{where()}: {nm} called {len(filter_log(rlog, (nm,)))} times, '
                                  f'expected {len(filter_log(mlog, (nm,)))} (or other arguments/order)')
    return expect


def check_spec(ctx, spec, default, values, table=None, log='exact', extra=None, context='plain', **kw):
    env = Env(table or {})
    d = declare(ctx, spec, default, env, extra=extra, context=context, **kw)
    if d is None:
        return None
    cls, node = d
    for label, make in values:
        ctx.state(spec, default, label, context)
        check_value(ctx, cls, node, env, label, make, spec, log)
    return cls

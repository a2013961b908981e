"""helper process with its own hash seed: 'make' writes pickles of records, 'check' verifies pickles made by its parent"""
import pickle
import sys


def instances():
    from mc import fixtures as f
    out = []
    for x in ('a', 'bb', '', b'q', 1, 1.5, True, None, ('a', 1), frozenset('ab'), 'é' * 9, [1], {'k': 'v'}):
        out += [f.F1(x=x), f.F1(x=x, y='y'), f.F2(x=x, z='zz'), f.FT(x=x), f.FO(x=x, y=('s',)), f.F3(x=x), f.M1(x=x), f.M2(x=x, z='q'), f.F1(x=f.F1(x=x), y=f.FT(x=x)), f.F1(x=(f.F1(x=x),)),
                f.Outer.Inner(x=x)]
    out += [f.Conv(i='5', l=[1, 2]), f.Conv(i=5, o=f.Conv(i=6)), f.Point(x=1, y=2, name='p')]
    return out


def touched(inst, how):
    """use the instance before pickling it"""
    import copy
    try:
        if how == 'hash':
            hash(inst)
        elif how == 'eq':
            inst == type(inst)(**{k: getattr(inst, k) for k in type(inst)._fields})
            hash(inst)
        elif how == 'set':
            {inst}
        elif how == 'copy':
            hash(inst)
            return copy.deepcopy(copy.copy(inst))
        elif how == 'extra':
            hash(inst)
            inst.__dict__['extra'] = 'attr'
    except TypeError:
        pass
    return inst


HOWS = ('none', 'hash', 'eq', 'set', 'copy')
PROTOS = (2, 3, 4, 5)


def make():
    return [(how, p, pickle.dumps([touched(i, how) for i in instances()], p)) for how in HOWS for p in PROTOS]


def verify(pickles):
    """errors found when loading pickles of instances() here"""
    errs = []
    n = 0
    for how, p, blob in pickles:
        got = pickle.loads(blob)
        for i, (a, b) in enumerate(zip(got, instances())):
            n += 1
            where = f'{b!r} used by {how!r}, protocol {p}: '
            if not (a == b and b == a) or a != b:
                errs.append(where + f'unequal to a new one: {a!r}')
            try:
                h = hash(b)
            except TypeError:
                h = None
            try:
                g = hash(a)
            except TypeError:
                g = None
            if g != h:
                errs.append(where + f'hash {g}, a new one has {h}')
            if h is not None and (a not in {b} or b not in {a: 1} or hash(a) != g):
                errs.append(where + 'not found in a set or dictionary')
            if not (a == b and b == a) or a != b:
                errs.append(where + 'unequal after hashing')
            if type(a).is_frozen():
                for op in (lambda: setattr(a, 'x', 1), lambda: delattr(a, 'x')):
                    try:
                        op()
                        errs.append(where + 'not frozen')
                    except TypeError:
                        pass
    return n, errs


if __name__ == '__main__':
    repo, verif, what = sys.argv[1:4]
    sys.path[:0] = [repo, verif]
    from mc import hashproc
    if what == 'make':
        sys.stdout.buffer.write(pickle.dumps(hashproc.make()))
    else:
        sys.stdout.buffer.write(pickle.dumps(hashproc.verify(pickle.loads(sys.stdin.buffer.read()))))

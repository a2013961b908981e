"""Exhaustive-exploration engine.

A check is a module mc.props.<id> that defines
  cases(tier)      -> iterable of case descriptors (any picklable, repr-able value), in a fixed order
  run(case, ctx)   -> drives the real library through every behaviour of that case and compares each with the oracle
Every case of the declared finite space is run (no sampling): the engine only shards the list over processes.
A case that disagrees raises or records a Violation; the descriptor is the replayable artefact.
"""
import hashlib, importlib, json, multiprocessing, os, pathlib, resource, signal, sys, time, traceback, warnings

VERIF = pathlib.Path(__file__).resolve().parent.parent
REPO = os.environ.get('RECORDS_REPO', '/repo')
CASE_LIMIT_S = 120  # of a quick case; ten times as much in thorough
MAX_VIOL = 3
ENOUGH_S = 30  # how long the other processes go on after one has found a violation


class Hang(BaseException):
    pass


class Violation(Exception):
    def __init__(self, key, msg):
        super().__init__(f'{key}: {msg}')
        self.key, self.msg = key, msg


def h(x):
    return int.from_bytes(hashlib.blake2b(repr(x).encode('utf8', 'backslashreplace'), digest_size=8).digest(), 'big')


class Ctx:
    """counters of one shard; every number is measured"""

    def __init__(self, known=()):
        self.states, self.outcomes = set(), {}
        self.transitions = self.traces = self.cases = self.schedules = 0
        self.samples, self.violations, self.known_hit = [], [], {}
        self.known = known
        self.extra = {}
        self.case = None

    def state(self, *key):
        self.states.add(h(key))

    def op(self, n=1):
        self.transitions += n

    def trace(self, n=1):
        self.traces += n

    def outcome(self, o):
        o = str(o)
        self.outcomes[o] = self.outcomes.get(o, 0) + 1

    def count(self, name, n=1):
        self.extra[name] = self.extra.get(name, 0) + n

    def sample(self, s):
        if len(self.samples) < 3:
            self.samples.append(str(s)[:600])

    def fail(self, key, msg):
        if key in self.known:
            self.known_hit.setdefault(key, str(msg)[:300])
            return
        raise Violation(key, msg)

    def expect(self, cond, key, msg):
        if not cond:
            self.fail(key, msg() if callable(msg) else msg)


def attempt(f, *a, **k):
    """('ok', value) or ('err', exception)"""
    try:
        return 'ok', f(*a, **k)
    except Exception as e:
        return 'err', e


def show(r):
    try:
        return f'{r[0]}:{type(r[1]).__name__}:{r[1]!r}'[:300]
    except Exception as e:
        return f'{r[0]}:<unprintable {type(r[1]).__name__}>'


def load_known(prop):
    keys = {}
    f = VERIF / 'KNOWN_FINDINGS.txt'
    if f.exists():
        for line in f.read_text().splitlines():
            if line.startswith('finding: '):
                parts = line.split(' ', 3)
                p = parts[1].split('=', 1)[1]
                k = parts[2].split('=', 1)[1]
                if p == prop:
                    keys[k] = parts[3]
    return keys


def _alarm(*_):
    raise Hang()


def run_one(mod, case, ctx, limit=CASE_LIMIT_S):
    """run one case; returns None or a violation dict"""
    signal.setitimer(signal.ITIMER_REAL, limit)
    try:
        mod.run(case, ctx)
        return None
    except Violation as v:
        return dict(key=v.key, msg=v.msg)
    except Hang:
        return dict(key='hang', msg=f'no answer within {limit} s (the case normally takes well under a second)')
    except (KeyboardInterrupt, SystemExit):
        raise
    except BaseException as e:
        return dict(key='unexpected-exception', msg=f'{type(e).__name__}: {e}\n' + traceback.format_exc()[-3000:])
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def worker(mod, tier, shard, nshards, known, conn, found):
    signal.signal(signal.SIGALRM, _alarm)
    resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))  # runaway allocation becomes a MemoryError of the case
    warnings.simplefilter('ignore')
    ctx = Ctx(known)
    res = []
    try:
        for i, case in enumerate(mod.cases(tier)):
            if i % nshards != shard:
                continue
            if found.value and time.time() > found.value + ENOUGH_S:
                break
            ctx.case = case
            ctx.cases += 1
            ctx.sample(case)
            v = run_one(mod, case, ctx, getattr(mod, 'CASE_LIMIT_S', CASE_LIMIT_S) * (10 if tier == 'thorough' else 1))
            if v is not None:
                v.update(case=repr(case), index=i, shard=shard, nshards=nshards)
                res.append(v)
                found.value = found.value or time.time()
                if len(res) >= MAX_VIOL:
                    break
        conn.send(dict(ok=True, states=ctx.states, outcomes=ctx.outcomes, transitions=ctx.transitions, traces=ctx.traces,
                       cases=ctx.cases, samples=ctx.samples, known_hit=ctx.known_hit, extra=ctx.extra, violations=res))
    except BaseException as e:
        conn.send(dict(ok=False, err=traceback.format_exc()))
    conn.close()
    os._exit(0)


def run_shards(mod, tier, known, nshards):
    mp = multiprocessing.get_context('fork')
    procs = []
    found = mp.Value('d', 0, lock=False)
    for s in range(nshards):
        a, b = mp.Pipe(False)
        p = mp.Process(target=worker, args=(mod, tier, s, nshards, known, b, found))
        p.start()
        b.close()
        procs.append((p, a))
    out = []
    for p, a in procs:
        try:
            out.append(a.recv())
        except EOFError:
            out.append(dict(ok=False, died=True, err='worker died'))
        p.join()
    return out


def prepare():
    """import the library from the working tree under test"""
    sys.dont_write_bytecode = True
    sys.path.insert(0, REPO)
    from mc import locks
    locks.install(os.path.join(REPO, 'records'))
    import records
    assert os.path.realpath(records.__file__).startswith(os.path.realpath(REPO) + os.sep), records.__file__


def write_replay(prop, tier, v):
    d = VERIF / 'replays'
    d.mkdir(exist_ok=True)
    name = f'{prop}-{h((v["case"], v["key"])):016x}'[:24]
    (d / (name + '.json')).write_text(json.dumps(dict(property=prop, tier=tier, **v), indent=1))
    return str((d / (name + '.json')).relative_to(VERIF))


def main(prop, tier, only_case=None):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    known = load_known(prop)
    import_error = None
    try:
        prepare()
        mod = importlib.import_module(f'mc.props.{prop.lower()}')
    except BaseException:
        import_error = traceback.format_exc()
    if import_error is not None:
        v = dict(key='import', msg=import_error, case="'import'", index=-1, shard=0, nshards=1)
        if f'{REPO}/records' not in import_error and 'No module named \'records' not in import_error \
                and 'cannot import name' not in import_error:
            print(import_error, file=sys.stderr)
            return 2
        results = []
        viol = [v]
        nshards = 0
    else:
        nshards = int(os.environ.get('MC_JOBS', '0')) or min(8, os.cpu_count() or 1)
        results = run_shards(mod, tier, known, nshards)
        viol = []
        for r in results:
            if r.get('died'):
                # the code under test took its process down (a crash of the interpreter, os._exit, ...)
                viol.append(dict(key='process-died', msg='the process running this shard died', case="'shard'",
                                 index=-1, shard=results.index(r), nshards=nshards))
            elif not r['ok']:
                print('ENGINE ERROR', r['err'], file=sys.stderr)
                return 2
            else:
                viol += r['violations']
    results = [r for r in results if r['ok']]
    viol.sort(key=lambda v: v['index'])
    states = set().union(*[r['states'] for r in results]) if results else set()
    outcomes, extra, known_hit, samples = {}, {}, {}, []
    for r in results:
        for k, n in r['outcomes'].items():
            outcomes[k] = outcomes.get(k, 0) + n
        for k, n in r['extra'].items():
            extra[k] = extra.get(k, 0) + n
        known_hit.update(r['known_hit'])
        samples += r['samples']
    cov = dict(states=len(states), transitions=sum(r['transitions'] for r in results),
               traces_validated_against_impl=sum(r['traces'] for r in results),
               cases=sum(r['cases'] for r in results),
               samples=samples[:6] or ['(none)'], distinct_outcomes=len(outcomes),
               outcome_counts=dict(sorted(outcomes.items(), key=lambda t: -t[1])[:25]),
               exhaustive=not viol, shards=nshards, **extra)
    if import_error is None:
        cov['bounds'] = mod.BOUNDS.get(tier, mod.BOUNDS) if isinstance(mod.BOUNDS, dict) else mod.BOUNDS
        cov['rule'] = mod.RULE
    ev = dict(property=prop, tier=tier, seed=seed, level='model_checking', coverage=cov,
              assumptions=list(getattr(mod, 'ASSUMPTIONS', [])) if import_error is None else [],
              wall_s=round(time.time() - t0, 2), violations=len(viol))
    (VERIF / 'evidence').mkdir(exist_ok=True)
    (VERIF / 'evidence' / f'{prop}.json').write_text(json.dumps(ev, indent=1))
    for k, m in known_hit.items():
        print(f'KNOWN-FINDING: property={prop} {k}: {known[k]}')
    print(f'{prop} {tier}: cases={cov["cases"]} states={cov["states"]} transitions={cov["transitions"]} '
          f'traces={cov["traces_validated_against_impl"]} outcomes={len(outcomes)} wall={ev["wall_s"]}s')
    if viol:
        for i, v in enumerate(viol[:3]):
            path = write_replay(prop, tier, v)
            print(f'--- {v["key"]}\n    case {v["case"][:400]}\n    ' + v["msg"][:600] + (' ... ' + v["msg"][-600:] if len(v["msg"]) > 1200 else ''))
            print(f'VIOLATION property={prop} replay={path}')
        return 1
    return 0


def replay(path):
    """re-run the recorded case alone; if it does not fail alone, re-run the cases its shard ran before it"""
    v = json.loads(pathlib.Path(path).read_text())
    prepare()
    mod = importlib.import_module(f'mc.props.{v["property"].lower()}')
    signal.signal(signal.SIGALRM, _alarm)
    known = load_known(v['property'])
    for i, case in enumerate(mod.cases(v['tier'])):
        if i == v['index']:
            assert repr(case) == v['case'], 'the case list has changed since this replay was written'
            got = run_one(mod, case, Ctx(known), 10 * CASE_LIMIT_S)
            print('case', v['case'])
            print('alone:', got)
            if got is not None:
                return 1
            break
    ctx = Ctx(known)
    for i, case in enumerate(mod.cases(v['tier'])):
        if i % v['nshards'] == v['shard']:
            got = run_one(mod, case, ctx, 10 * CASE_LIMIT_S)
            if got is not None:
                print('after the preceding cases of its shard:', i, got)
                return 1
        if i >= v['index']:
            break
    print('does not reproduce')
    return 0


if __name__ == '__main__':
    sys.path.insert(0, str(VERIF))
    from mc import engine
    if sys.argv[1] == 'replay':
        sys.exit(engine.replay(sys.argv[2]))
    sys.exit(engine.main(sys.argv[1], sys.argv[2]))

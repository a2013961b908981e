"""Controlled scheduler: real threads, exactly one running, switching only at chosen scheduling points inside the library.

A scheduling point is every line (or every bytecode) executed in a file of the library. A schedule is a start thread and a list of
(step, thread): at the step-th scheduling point of the execution, the running thread is preempted in favour of that thread. A finished
thread is followed by the next unfinished one in cyclic order. explore() enumerates every schedule up to a number of preemptions."""
import os
import sys
import threading

from mc.engine import REPO
from mc.locks import ACTIVE

LIB = os.path.realpath(os.path.join(REPO, 'records')) + os.sep
IN = {}
STALL_S, SHORT_S, DEAD_S = 1.0, 0.02, 8.0  # the first few times that nothing happens, later, and until it counts as a deadlock
STALLS = [0]


class Deadlock(Exception):
    pass


def enable_opcode_events():
    """CPython 3.12 delivers opcode events only after a settrace that follows the first f_trace_opcodes of the process"""
    def tracer(frame, event, arg):
        frame.f_trace_opcodes = True
        return tracer

    def f():
        return 1
    old = sys.gettrace()
    for _ in range(2):
        sys.settrace(tracer)
        f()
        sys.settrace(old)


enable_opcode_events()


def inside(code):
    r = IN.get(code)
    if r is None:
        r = IN[code] = os.path.realpath(code.co_filename).startswith(LIB)
    return r


class Run:
    def __init__(self, bodies, start, plan, fine=False, record=True):
        self.n = len(bodies)
        self.bodies, self.plan, self.fine = bodies, dict(plan), fine
        self.step, self.current = 0, start
        self.sems = [threading.Semaphore(0) for _ in bodies]
        self.done = [False] * self.n
        self.all_done = threading.Event()
        self.results = [None] * self.n
        self.owner = []  # running thread at each step
        self.record = record
        self.aborted = False
        self.start = start
        self.waiting = [None] * self.n
        self.deadlock = False

    def runnable(self, t):
        w = self.waiting[t]
        return not self.done[t] and (w is None or not w.locked())

    def abort(self):
        self.deadlock = self.aborted = True
        for sem in self.sems:
            sem.release()
        self.all_done.set()

    def wait_for(self, me, lock, timeout):
        """me waits for a lock that another thread holds; returns whether to try again"""
        if self.aborted:
            raise SystemExit
        self.waiting[me] = lock
        for d in range(1, self.n):
            t = (me + d) % self.n
            if self.runnable(t):
                self.current = t
                self.sems[t].release()
                self.sems[me].acquire()
                if self.aborted:
                    raise SystemExit
                return True
        if lock.locked():
            if timeout is not None and timeout >= 0:
                return False
            self.abort()
            raise SystemExit
        return True

    def point(self, me):
        if self.aborted:
            raise SystemExit
        if self.current != me:  # was blocked on something real, and somebody else was let run meanwhile
            self.sems[me].acquire()
        s = self.step
        self.step = s + 1
        if self.record:
            self.owner.append(me)
        to = self.plan.get(s)
        if to is not None and to != me and not self.done[to]:
            self.current = to
            self.sems[to].release()
            self.sems[me].acquire()
            if self.aborted:
                raise SystemExit

    def body(self, me):
        self.sems[me].acquire()
        ACTIVE[threading.get_ident()] = self, me
        fine = self.fine
        point = self.point

        def local(frame, event, arg):
            if event == ('opcode' if fine else 'line'):
                point(me)
            return local

        def tracer(frame, event, arg):
            if inside(frame.f_code):
                if fine and not frame.f_trace_opcodes:
                    frame.f_trace_opcodes = True
                return local
            return None
        try:
            if not self.aborted:
                sys.settrace(tracer)
                try:
                    r = self.bodies[me]()
                finally:
                    sys.settrace(None)
                self.results[me] = r
        except BaseException as e:
            self.results[me] = ('crash', type(e).__name__, str(e))
        ACTIVE.pop(threading.get_ident(), None)
        self.done[me] = True
        order = [(me + d) % self.n for d in range(1, self.n)]
        for t in sorted(order, key=lambda t: not self.runnable(t)):
            if not self.done[t]:
                if self.current == me:
                    self.current = t
                    self.sems[t].release()
                return
        self.all_done.set()

    def go(self):
        ts = [threading.Thread(target=self.body, args=(i,), daemon=True) for i in range(self.n)]
        for t in ts:
            t.start()
        self.sems[self.start].release()
        stalled = 0.0
        while True:
            s = self.step
            pause = STALL_S if STALLS[0] < 3 else SHORT_S
            if self.all_done.wait(pause):
                break
            if self.step != s:
                stalled = 0
                continue
            STALLS[0] += 1
            # the running thread waits for something another thread holds: let another one run
            stalled += pause
            cur = self.current
            for d in range(1, self.n):
                t = (cur + d) % self.n
                if not self.done[t]:
                    self.current = t
                    self.sems[t].release()
                    break
            if stalled > DEAD_S:
                self.aborted = True
                for sem in self.sems:
                    sem.release()
                raise Deadlock()
        if self.deadlock:
            raise Deadlock()
        for t in ts:
            t.join(5)
        return self.results


def explore(setup, check, n, bound, fine=False, ctx=None, first=None, part=(0, 1)):
    """setup() -> n bodies, on fresh state; check(results, description) is called after every execution. Returns the number of schedules.
    part = (i, m): only those schedules whose first preemption is at a step congruent to i modulo m (the one without any: i = 0)"""
    count = 0
    starts = range(n) if first is None else first
    for start in starts:
        stack = [()]
        while stack:
            plan = stack.pop()
            bodies, after = setup()
            run = Run(bodies, start, plan, fine)
            try:
                results = run.go()
            except Deadlock:
                results = None
            count += 1
            if ctx is not None:
                ctx.op(run.step)
            if not run.step:
                raise AssertionError('the scheduler saw no line of the library')
            check(results, after, (start, plan))
            if len(plan) >= bound or results is None:
                continue
            lo = plan[-1][0] + 1 if plan else 1
            for s in range(lo, len(run.owner)):
                if not plan and s % part[1] != part[0]:
                    continue
                me = run.owner[s]
                for t in range(n):
                    # switching to a thread that already finished is no schedule of its own
                    if t != me and t in run.owner[s:]:
                        stack.append(plan + ((s, t),))
    return count

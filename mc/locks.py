"""Locks that know about the controlled scheduler.

install() makes the locks that the library creates (threading.Lock, RLock and what is built on them) instances of the classes below. Outside
of a controlled execution they are plain locks. Inside one, a thread that has to wait hands over to another thread of the execution, and an
execution in which every unfinished thread waits is a deadlock, recognised at once."""
import _thread
import os
import sys
import threading

ACTIVE = {}  # thread ident -> (run, index)
REAL = {'Lock': _thread.allocate_lock, 'RLock': _thread.RLock}


class Controlled:
    def __init__(self, reentrant):
        self.reentrant = reentrant
        self.real = REAL['Lock']()
        self.owner, self.count = None, 0

    def acquire(self, blocking=True, timeout=-1):
        me = _thread.get_ident()
        if self.reentrant and self.owner == me:
            self.count += 1
            return True
        where = ACTIVE.get(me)
        if where is None:
            ok = self.real.acquire(blocking, timeout)
        else:
            run, i = where
            while not (ok := self.real.acquire(False)):
                if not blocking or not run.wait_for(i, self, timeout):
                    break
            run.waiting[i] = None
        if ok:
            self.owner, self.count = me, 1
        return ok

    __enter__ = acquire

    def release(self):
        if self.reentrant:
            if self.owner != _thread.get_ident():
                raise RuntimeError('cannot release un-acquired lock')
            self.count -= 1
            if self.count:
                return
        self.owner = None
        self.real.release()

    def __exit__(self, *a):
        self.release()

    def locked(self):
        return self.real.locked()

    # what threading.Condition uses of a reentrant lock

    def _is_owned(self):
        if self.reentrant:
            return self.owner == _thread.get_ident()
        return self.real.locked()

    def _release_save(self):
        count, self.count, self.owner = self.count, 0, None
        self.real.release()
        return count

    def _acquire_restore(self, count):
        self.acquire()
        self.count = count

    def _at_fork_reinit(self):
        self.__init__(self.reentrant)


def install(lib):
    lib = os.path.realpath(lib) + os.sep
    skip = {threading.__file__, __file__}

    def made_by_library():
        f = sys._getframe(2)
        while f is not None and f.f_code.co_filename in skip:
            f = f.f_back
        return f is not None and os.path.realpath(f.f_code.co_filename).startswith(lib)

    def maker(name):
        def make():
            if made_by_library():
                return Controlled(name == 'RLock')
            return REAL[name]()
        make.__name__ = make.__qualname__ = name
        return make
    threading.Lock = threading._allocate_lock = _thread.allocate_lock = maker('Lock')
    threading.RLock = maker('RLock')

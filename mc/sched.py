"""A controlled scheduler for threads of the code under test.

One thread runs at a time. A thread gives way at a point of its execution which the schedule names - the n-th line
executed inside the traced files - or when it waits for a lock another thread holds. Locks made through `threading`
after install() take part; waiting for one with nobody able to release it is reported as a deadlock.
"""

import _thread
import gc
import sys
import threading
import types

REAL = _thread.allocate_lock
STUCK = 20  # seconds without any scheduling event: the thread waits for something outside this scheduler
current = None  # the Run whose threads are being scheduled


class Deadlock(Exception):
    pass


class Lock:
    """A (reentrant) lock which tells the scheduler when its caller has to wait."""

    reentrant = False

    def __init__(self):
        self.shared = made_by(sys._getframe(1))
        self.owner, self.count, self.real = None, 0, threading_rlock() if self.reentrant else REAL()

    def acquire(self, blocking=True, timeout=-1):
        run, me = current, _thread.get_ident()
        if run is None or me not in run.by_ident:
            return self.real.acquire(blocking, timeout)
        while self.owner is not None and not (self.reentrant and self.owner == me):
            if not blocking:
                return False
            run.wait_for(self)
        self.owner = me
        self.count += 1
        run.taken(self)
        return True

    def release(self):
        run = current
        if run is None or _thread.get_ident() not in run.by_ident:
            self.real.release()
            return
        if self.owner is None or self.reentrant and self.owner != _thread.get_ident():
            raise RuntimeError("release of a lock which is not held")
        self.count -= 1
        if self.count == 0:
            self.owner = None
            run.released(self)

    def locked(self):
        return self.owner is not None

    def _at_fork_reinit(self):
        self.owner, self.count, self.real = None, 0, threading_rlock() if self.reentrant else REAL()

    __enter__ = acquire

    def __exit__(self, *exc):
        self.release()


def made_by(frame):
    return WATCHED(frame.f_code.co_filename)


class RLock(Lock):
    reentrant = True

    def _is_owned(self):
        return self.owner == _thread.get_ident()

    def _release_save(self):
        count = self.count
        for _ in range(count):
            self.release()
        return count

    def _acquire_restore(self, count):
        for _ in range(count):
            self.acquire()


threading_rlock = threading.RLock


TOOL = 4


def install(watched):
    """Replace the locks of `threading`; lines of files for which watched(path) holds are scheduling points."""
    global WATCHED
    WATCHED = watched
    threading.Lock, threading.RLock, threading._allocate_lock = Lock, RLock, Lock
    mon = sys.monitoring
    mon.use_tool_id(TOOL, "schedules")
    mon.register_callback(TOOL, mon.events.PY_START, entered)
    mon.register_callback(TOOL, mon.events.LINE, at_line)
    mon.set_events(TOOL, mon.events.PY_START)


def watch_loaded():
    """Watch the functions which are loaded already (others are found when they are entered)."""
    for obj in gc.get_objects():
        if isinstance(obj, types.FunctionType):
            entered(obj.__code__, 0)


def entered(code, offset):
    if WATCHED(code.co_filename) and code not in lined:
        lined.add(code)
        sys.monitoring.set_local_events(TOOL, code, sys.monitoring.events.LINE)
        for const in code.co_consts:
            if isinstance(const, types.CodeType):
                entered(const, 0)
    return sys.monitoring.DISABLE


lined = set()


def at_line(code, line):
    run = current
    if run is not None and _thread.get_ident() in run.by_ident:
        run.point()


class Thread:
    def __init__(self, fn):
        self.fn, self.go, self.done, self.waits, self.steps = fn, REAL(), False, None, 0
        self.holds, self.first_lock = set(), None
        self.go.acquire()
        self.result = self.error = None


class Run:
    """Run the callables under `plan`: [(thread, steps or None), ...], then the rest to the end in order."""

    def __init__(self, fns, plan, record=None):
        self.threads = [Thread(fn) for fn in fns]
        self.plan, self.record = list(plan), record
        self.by_ident, self.events = {}, REAL()
        self.events.acquire()
        self.quota = None
        self.deadlock = False
        self.switches = 0

    # -- in the scheduled threads
    def body(self, i):
        me = self.threads[i]
        self.by_ident[_thread.get_ident()] = i
        self.ready.release()
        me.go.acquire()
        try:
            me.result = me.fn()
        except BaseException as exc:  # noqa: BLE001
            me.error = exc
        finally:
            me.done = True
            self.events.release()

    def point(self):
        me = self.threads[self.by_ident[_thread.get_ident()]]
        me.steps += 1
        if self.record is not None:
            self.record.append(bool(me.holds))
        if self.quota is not None:
            self.quota -= 1
            if self.quota <= 0:
                self.give_way(me)

    def give_way(self, me):
        self.events.release()
        me.go.acquire()

    def wait_for(self, lock):
        me = self.threads[self.by_ident[_thread.get_ident()]]
        me.waits = lock
        self.give_way(me)

    def taken(self, lock):
        me = self.threads[self.by_ident[_thread.get_ident()]]
        if lock.shared:
            me.holds.add(lock)
            if me.first_lock is None:
                me.first_lock = me.steps

    def released(self, lock):
        self.threads[self.by_ident[_thread.get_ident()]].holds.discard(lock)
        for t in self.threads:
            if t.waits is lock:
                t.waits = None

    # -- the controller
    def execute(self):
        global current
        current = self
        self.ready = REAL()
        self.ready.acquire()
        for i in range(len(self.threads)):
            _thread.start_new_thread(self.body, (i,))
            self.ready.acquire()
        try:
            while not all(t.done for t in self.threads):
                i, self.quota = self.plan.pop(0) if self.plan else (None, None)
                if i is None or not self.runnable(i):
                    free = [k for k in range(len(self.threads)) if self.runnable(k)]
                    if not free:
                        self.deadlock = True
                        raise Deadlock()
                    i = free[0] if i is None else next((k for k in free if k != i), free[0])
                    self.quota = None
                self.switches += 1
                self.threads[i].go.release()
                if not self.events.acquire(True, STUCK):
                    self.threads[i].stuck = True
                    raise Deadlock()
        finally:
            current = None
        return self

    def runnable(self, i):
        t = self.threads[i]
        return not t.done and t.waits is None

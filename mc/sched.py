"""Controlled scheduler: runs real threads one at a time, with every use of a
queue, event, lock, thread or (faked) pipe a scheduling point, in virtual time.
explore() enumerates all schedules up to a bound of preemptions."""
import sys, time, threading, queue, _thread

_real_lock = _thread.allocate_lock


class Abort(BaseException):
    """unwinds a controlled thread after a deadlock or an exhausted run"""


class Task:
    def __init__(self, name):
        self.name = name
        self.sem = _real_lock()
        self.sem.acquire()
        self.pred = None
        self.deadline = None
        self.done = False
        self.error = None


class Sched:
    def __init__(self, prefix=(), maxpoints=100000):
        self.prefix = list(prefix)
        self.choices = []
        self.trace = []          # (alternatives, was the current task enabled, preemptions so far)
        self.preemptions = 0
        self.now = 0.0
        self.tasks = []
        self.byident = {}
        self.aborting = False
        self.deadlock = None
        self.points = 0
        self.maxpoints = maxpoints

    def current(self):
        return self.byident.get(_thread.get_ident())

    # ---------------------------------------------------------------- points
    def point(self, pred=None, timeout=None):
        """give the others the chance to run; continue when pred holds (True) or
        the timeout passed (False)"""
        t = self.current()
        if t is None:
            return True if pred is None else bool(pred())
        if self.aborting:
            raise Abort()
        self.points += 1
        if self.points > self.maxpoints:
            self.deadlock = "no end after %d steps" % self.maxpoints
            self.abort()
            raise Abort()
        t.pred = pred
        t.deadline = None if timeout is None else self.now + max(0, timeout)
        nxt = self.pick(t)
        if nxt is None:
            self.abort()
            raise Abort()
        if nxt is not t:
            nxt.sem.release()
            t.sem.acquire()
            if self.aborting:
                raise Abort()
        ok = t.pred is None or bool(t.pred())
        t.pred = t.deadline = None
        return ok

    def pick(self, cur):
        live = [t for t in self.tasks if not t.done]
        enabled = [t for t in live if t.pred is None or t.pred()]
        if cur in enabled:
            enabled.remove(cur)
            enabled.insert(0, cur)
            curok = True
        else:
            curok = False
        if not enabled:
            timed = [t for t in live if t.deadline is not None]
            if not timed:
                self.deadlock = "all threads wait forever: " + ", ".join(t.name for t in live)
                return None
            self.now = min(t.deadline for t in timed)
            enabled = [t for t in timed if t.deadline <= self.now]
        c = 0
        if len(enabled) > 1:
            i = len(self.trace)
            c = self.prefix[i] if i < len(self.prefix) else 0
            self.trace.append((len(enabled), curok, self.preemptions))
            self.choices.append(c)
            if c and curok:
                self.preemptions += 1
        return enabled[c]

    def abort(self):
        self.aborting = True
        me = self.current()
        for t in self.tasks:
            if not t.done and t is not me:
                try:
                    t.sem.release()
                except RuntimeError:
                    pass

    # ---------------------------------------------------------------- threads
    def spawn(self, name, f):
        t = Task(name)
        t.started = False
        self.tasks.append(t)

        def main():
            t.sem.acquire()
            self.byident[_thread.get_ident()] = t
            try:
                if not self.aborting:
                    f()
            except Abort:
                pass
            except BaseException as e:
                t.error = e
            finally:
                t.done = True
                self.byident.pop(_thread.get_ident(), None)
                if not self.aborting:
                    nxt = self.pick(t)
                    if nxt is not None:
                        nxt.sem.release()
                    else:
                        self.aborting = True
                        for o in self.tasks:
                            if not o.done:
                                try:
                                    o.sem.release()
                                except RuntimeError:
                                    pass
                t.ended.release()
        t.ended = _real_lock()
        t.ended.acquire()
        _thread.start_new_thread(main, ())
        return t

    def run(self, f):
        """run f as the first controlled task in this thread; returns when all
        tasks are finished or stuck"""
        me = Task("caller")
        self.tasks.append(me)
        self.byident[_thread.get_ident()] = me
        try:
            f()
        except Abort:
            pass
        finally:
            me.done = True
            # let the rest run to its end
            self.aborting = True
            for t in self.tasks:
                if t is not me:
                    if not t.done:
                        try:
                            t.sem.release()
                        except RuntimeError:
                            pass
                    t.ended.acquire()
            self.byident.pop(_thread.get_ident(), None)


S = None    # the scheduler of the current run


class Lock:
    def __init__(self):
        self._held = False
        self._owner = None

    def acquire(self, blocking=True, timeout=-1):
        if not blocking:
            S.point()
            if self._held:
                return False
        elif not S.point(lambda: not self._held, None if timeout is None or timeout < 0 else timeout):
            return False
        self._held = True
        self._owner = _thread.get_ident()
        return True

    def release(self):
        if not self._held:
            raise RuntimeError("release unlocked lock")
        self._held = False

    def locked(self):
        return self._held

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()


class RLock(Lock):
    def __init__(self):
        Lock.__init__(self)
        self._count = 0

    def acquire(self, blocking=True, timeout=-1):
        if self._held and self._owner == _thread.get_ident():
            self._count += 1
            return True
        if Lock.acquire(self, blocking, timeout):
            self._count = 1
            return True
        return False
    __enter__ = acquire

    def release(self):
        self._count -= 1
        if not self._count:
            Lock.release(self)

    def _is_owned(self):
        return self._held and self._owner == _thread.get_ident()


class Event:
    def __init__(self):
        self._flag = False

    def is_set(self):
        S.point()
        return self._flag
    isSet = is_set

    def set(self):
        S.point()
        self._flag = True

    def clear(self):
        S.point()
        self._flag = False

    def wait(self, timeout=None):
        S.point(lambda: self._flag, timeout)
        return self._flag


class Queue:
    def __init__(self, maxsize=0):
        self.maxsize = maxsize
        self._q = []
        self._open = 0

    def _isfull(self):
        return 0 < self.maxsize <= len(self._q)

    def put(self, item, block=True, timeout=None):
        if block:
            if not S.point(lambda: not self._isfull(), timeout):
                raise queue.Full
        else:
            S.point()
            if self._isfull():
                raise queue.Full
        self._q.append(item)
        self._open += 1

    def get(self, block=True, timeout=None):
        if block:
            if not S.point(lambda: bool(self._q), timeout):
                raise queue.Empty
        else:
            S.point()
            if not self._q:
                raise queue.Empty
        return self._pop()

    def _pop(self):
        return self._q.pop(0)

    def put_nowait(self, item):
        self.put(item, False)

    def get_nowait(self):
        return self.get(False)

    def qsize(self):
        S.point()
        return len(self._q)

    def empty(self):
        S.point()
        return not self._q

    def full(self):
        S.point()
        return self._isfull()

    def task_done(self):
        S.point()
        self._open -= 1

    def join(self):
        S.point(lambda: self._open <= 0)


class LifoQueue(Queue):
    def _pop(self):
        return self._q.pop()


def t_start(self):
    def f():
        ident = _thread.get_ident()
        threading._active[ident] = self
        try:
            self.run()
        finally:
            threading._active.pop(ident, None)
    self._mc_task = S.spawn(self.name, f)
    S.point()


def t_join(self, timeout=None):
    t = self._mc_task
    S.point(lambda: t.done, timeout)


def t_alive(self):
    S.point()
    t = getattr(self, "_mc_task", None)
    return t is not None and not t.done


def v_sleep(x):
    S.point(lambda: False, x)


def v_time():
    return 1000.0 + S.now


PATCHES = [(threading, "Lock", Lock), (threading, "_allocate_lock", Lock), (threading, "RLock", RLock), (threading, "Event", Event),
           (queue, "Queue", Queue), (queue, "SimpleQueue", Queue), (queue, "LifoQueue", LifoQueue),
           (threading.Thread, "start", t_start), (threading.Thread, "join", t_join), (threading.Thread, "is_alive", t_alive),
           (time, "sleep", v_sleep), (time, "monotonic", v_time), (time, "time", v_time)]


def run(f, prefix=(), maxpoints=100000):
    """one schedule; returns the scheduler"""
    global S
    s = Sched(prefix, maxpoints)
    S = s
    saved = [(o, n, getattr(o, n)) for o, n, _ in PATCHES]
    for o, n, v in PATCHES:
        setattr(o, n, v)
    try:
        s.run(lambda: f(s))
    finally:
        for o, n, v in saved:
            setattr(o, n, v)
    return s


def explore(f, bound, visit, maxruns=None):
    """all schedules of f with at most bound preemptions; visit(scheduler) after each"""
    stack = [()]
    runs = 0
    while stack:
        prefix = stack.pop()
        s = run(f, prefix)
        runs += 1
        visit(s)
        if maxruns and runs >= maxruns:
            return runs, False
        for i in range(len(prefix), len(s.trace)):
            n, curok, pre = s.trace[i]
            if pre + (1 if curok else 0) > bound:
                continue
            for alt in range(1, n):
                stack.append(tuple(s.choices[:i]) + (alt,))
    return runs, True

"""A cooperative scheduler for Python threads with a virtual clock.

Code under test is imported while `threading` and `time` are replaced by the modules built here, so every thread, lock, event and
sleep it uses belongs to the scheduler. Exactly one task runs at a time. A task gives way when it blocks, sleeps or ends, and at the
line events of watched files whose number the plan lists as a preemption. Virtual time advances only when no task can run, or by the
cost a plan gives to a call. One plan is one interleaving."""
import _thread
import sys
import threading as real_threading
import time as real_time
import types

SCHED = None          # the scheduler of the current run
NS = 1000000000


class Deadlock(Exception):
    pass


class Killed(BaseException):
    """unwinds a task when the run ends"""


class Task:
    def __init__(self, name, obj=None):
        self.name, self.obj = name, obj
        self.baton = _thread.allocate_lock()
        self.baton.acquire()
        self.wake = None          # virtual time at which it becomes runnable, None: not sleeping
        self.blocked = None       # object it waits for
        self.done = False
        self.error = None
        self.joiners = []


class Sched:
    def __init__(self, ctx, preempts, order=(), watch=(), limit=2000000):
        """preempts: {number of line event: choice}, order: choices taken whenever several tasks could run after a block"""
        global SCHED
        SCHED = self
        self.ctx = ctx
        self.now = 1000 * NS            # monotonic
        self.wall = 1700000000 * NS     # offset of the wall clock against it
        self.preempts = dict(preempts)
        self.order = list(order) or [0]
        self.oi = 0
        self.events = 0
        self.switches = 0
        self.limit = limit
        self.watch = tuple(watch)
        self.main = Task("main")
        self.main.ident = _thread.get_ident()
        self.cur = self.main
        self.tasks = [self.main]
        self.deadlock = False
        self.stalled = 0
        self.late = 0                   # every sleep and timed wait of a task other than main lasts this much longer
        self.clock()
        if self.watch:
            sys.settrace(self.trace)

    # -------------------------------------------------------------- clock
    def clock(self):
        if self.ctx.shim.ok:
            self.ctx.shim.lib.shim_clock_set(self.now + self.wall, 0)

    def set_now(self, t):
        if t > self.now:
            self.now = t
            self.clock()

    def jump(self, ns):
        """the wall clock is adjusted"""
        self.wall += ns
        self.clock()

    # -------------------------------------------------------------- tracing
    def trace(self, frame, event, arg):
        f = frame.f_code.co_filename
        if not f.startswith(self.watch):
            return None
        return self.line

    def line(self, frame, event, arg):
        if event == "line":
            self.events += 1
            if self.events > self.limit:
                raise Killed()
            c = self.preempts.get(self.events)
            if c is not None:
                self.preempt(c)
        return self.line

    # -------------------------------------------------------------- switching
    def runnable(self, but=None):
        return [t for t in self.tasks if t is not but and not t.done and t.blocked is None and (t.wake is None or t.wake <= self.now)]

    def preempt(self, choice):
        """choice below 16: another task goes on; above: the task is not scheduled for so many microseconds"""
        me = self.cur
        if choice >= 16:
            self.ctx.count("stalls")
            self.stalled += choice * 1000
            self.sleep(choice * 1000)
            return
        others = self.runnable(me)
        if others:
            self.ctx.count("preemptions taken")
            self.to(others[choice % len(others)])

    def to(self, t):
        me = self.cur
        if t is me:
            return
        self.switches += 1
        self.cur = t
        t.baton.release()
        if not me.done:
            me.baton.acquire()
            if getattr(me, "kill", False):
                raise Killed()

    def yield_(self):
        """the current task cannot go on: run another one, advance time if there is none"""
        me = self.cur
        while True:
            r = self.runnable()
            if r:
                c = self.order[self.oi % len(self.order)]
                self.oi += 1
                t = r[c % len(r)]
                t.wake = None
                self.to(t)
                if self.deadlock and me is self.main:
                    raise Deadlock(", ".join("%s waits for %s" % (x.name, type(x.blocked).__name__) for x in self.tasks if x.blocked is not None))
                return
            w = [t.wake for t in self.tasks if not t.done and t.wake is not None]
            if not w:
                self.deadlock = True
                self.main.blocked = None
                if me is self.main:
                    raise Deadlock(", ".join("%s waits for %s" % (x.name, type(x.blocked).__name__) for x in self.tasks if x.blocked is not None))
                continue
            self.set_now(min(w))
            for t in self.tasks:      # a timed wait ends
                if t.wake is not None and t.wake <= self.now:
                    t.blocked = None

    def sleep(self, ns):
        me = self.cur
        me.wake = self.now + max(0, int(ns))
        self.yield_()
        me.wake = None

    def wait_for(self, obj, timeout=None):
        """blocks the current task on obj; -> False if the timeout passed"""
        me = self.cur
        me.blocked = obj
        me.woken = False
        me.wake = None if timeout is None else self.now + max(0, int(timeout * NS)) + (self.late if timeout > 0 else 0)
        self.yield_()
        me.blocked = None
        me.wake = None
        return me.woken

    def wake_up(self, obj, n=None):
        for t in self.tasks:
            if t.blocked is obj and not t.done and n != 0:
                t.blocked = None
                t.wake = None
                t.woken = True
                if n is not None:
                    n -= 1

    # -------------------------------------------------------------- tasks
    def spawn(self, obj, fn):
        t = Task(obj.name, obj)
        self.tasks.append(t)

        def body():
            t.baton.acquire()
            t.ident = _thread.get_ident()
            if self.watch:
                sys.settrace(self.trace)
            try:
                if not getattr(t, "kill", False):
                    fn()
            except Killed:
                pass
            except BaseException as ex:
                t.error = ex
            sys.settrace(None)
            t.done = True
            self.wake_up(t)
            if self.cur is t:
                try:
                    self.yield_()
                except BaseException:
                    pass
        _thread.start_new_thread(body, ())
        return t

    def alive(self):
        return [t for t in self.tasks if t is not self.main and not t.done]

    def errors(self):
        return [(t.name, t.error) for t in self.tasks if t.error is not None]

    def finish(self):
        sys.settrace(None)
        self.ctx.count("line events", self.events)
        self.ctx.count("task switches", self.switches)
        self.ctx.simtime += (self.now - 1000 * NS) / 1e9


# ------------------------------------------------------------------ what the code under test sees
class SimThread:
    _n = 0

    def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, *, daemon=None):
        self._task = None
        self._target, self._args, self._kwargs = target, args, kwargs or {}
        if name is None:
            SimThread._n += 1
            name = "Thread-%d" % SimThread._n
        self.name = str(name)
        self.daemon = bool(daemon)
        self._initialized = True

    def start(self):
        if self._task is not None:
            raise RuntimeError("threads can only be started once")
        self._task = SCHED.spawn(self, self.run)
        self.last_task = self._task

    def run(self):
        if self._target:
            self._target(*self._args, **self._kwargs)

    def join(self, timeout=None):
        if self._task is None:
            raise RuntimeError("cannot join thread before it is started")
        if self._task is SCHED.cur:
            raise RuntimeError("cannot join current thread")
        if not self._task.done:
            SCHED.wait_for(self._task, timeout)

    def is_alive(self):
        return self._task is not None and not self._task.done

    @property
    def ident(self):
        return None if self._task is None else id(self._task)

    native_id = ident

    def setDaemon(self, d):
        self.daemon = d

    def isDaemon(self):
        return self.daemon

    def getName(self):
        return self.name

    def setName(self, n):
        self.name = n


class SimLock:
    def __init__(self):
        self._owner = None

    def acquire(self, blocking=True, timeout=-1):
        end = None if timeout is None or timeout < 0 else SCHED.now + int(timeout * NS)
        while self._owner is not None:
            if not blocking:
                return False
            left = None if end is None else (end - SCHED.now) / NS
            if left is not None and left <= 0:
                return False
            SCHED.wait_for(self, left)
        self._owner = SCHED.cur
        return True

    def release(self):
        if self._owner is None:
            raise RuntimeError("release unlocked lock")
        self._owner = None
        SCHED.wake_up(self, 1)

    def locked(self):
        return self._owner is not None

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()


class SimRLock(SimLock):
    def __init__(self):
        SimLock.__init__(self)
        self._count = 0

    def acquire(self, blocking=True, timeout=-1):
        if self._owner is SCHED.cur:
            self._count += 1
            return True
        if SimLock.acquire(self, blocking, timeout):
            self._count = 1
            return True
        return False

    def release(self):
        if self._owner is not SCHED.cur:
            raise RuntimeError("cannot release un-acquired lock")
        self._count -= 1
        if not self._count:
            SimLock.release(self)


class SimCondition:
    def __init__(self, lock=None):
        self._lock = lock or SimRLock()
        self.acquire, self.release = self._lock.acquire, self._lock.release

    def __enter__(self):
        return self._lock.__enter__()

    def __exit__(self, *a):
        return self._lock.__exit__(*a)

    def wait(self, timeout=None):
        n = getattr(self._lock, "_count", 1)
        self._lock._count = 1
        self._lock.release()
        ok = SCHED.wait_for(self, timeout)
        self._lock.acquire()
        self._lock._count = n
        return ok

    def wait_for(self, predicate, timeout=None):
        end = None if timeout is None else SCHED.now + int(timeout * NS)
        while not predicate():
            left = None if end is None else (end - SCHED.now) / NS
            if left is not None and left <= 0:
                return predicate()
            self.wait(left)
        return True

    def notify(self, n=1):
        SCHED.wake_up(self, n)

    def notify_all(self):
        SCHED.wake_up(self)

    notifyAll = notify_all


class SimEvent:
    def __init__(self):
        self._flag = False

    def is_set(self):
        return self._flag

    isSet = is_set

    def set(self):
        self._flag = True
        SCHED.wake_up(self)

    def clear(self):
        self._flag = False

    def wait(self, timeout=None):
        if not self._flag:
            SCHED.wait_for(self, timeout)
        return self._flag


class SimSemaphore:
    def __init__(self, value=1):
        self._value = value

    def acquire(self, blocking=True, timeout=None):
        end = None if timeout is None else SCHED.now + int(timeout * NS)
        while self._value <= 0:
            if not blocking:
                return False
            left = None if end is None else (end - SCHED.now) / NS
            if left is not None and left <= 0:
                return False
            SCHED.wait_for(self, left)
        self._value -= 1
        return True

    __enter__ = acquire

    def release(self, n=1):
        self._value += n
        SCHED.wake_up(self, n)

    def __exit__(self, *a):
        self.release()


class SimTimer(SimThread):
    def __init__(self, interval, function, args=None, kwargs=None):
        SimThread.__init__(self)
        self.interval, self.function, self.args, self.kwargs = interval, function, args or [], kwargs or {}
        self.finished = SimEvent()

    def cancel(self):
        self.finished.set()

    def run(self):
        self.finished.wait(self.interval)
        if not self.finished.is_set():
            self.function(*self.args, **self.kwargs)
        self.finished.set()


MAIN = types.SimpleNamespace(name="MainThread", daemon=False, is_alive=lambda: True, ident=1)


def current_thread():
    return SCHED.cur.obj or MAIN


def fake_modules():
    th = types.ModuleType("threading")
    th.__dict__.update({k: v for k, v in real_threading.__dict__.items() if not k.startswith("__")})
    th.__dict__.update(Thread=SimThread, Lock=SimLock, RLock=SimRLock, Condition=SimCondition, Event=SimEvent, Semaphore=SimSemaphore,
                       BoundedSemaphore=SimSemaphore, Timer=SimTimer, current_thread=current_thread, currentThread=current_thread,
                       main_thread=lambda: MAIN, get_ident=lambda: id(SCHED.cur), active_count=lambda: 1 + len(SCHED.alive()),
                       enumerate=lambda: [MAIN] + [t.obj for t in SCHED.alive()])
    tm = types.ModuleType("time")
    tm.__dict__.update({k: v for k, v in real_time.__dict__.items() if not k.startswith("__")})
    tm.__dict__.update(time=lambda: (SCHED.now + SCHED.wall) / NS, time_ns=lambda: SCHED.now + SCHED.wall, monotonic=lambda: SCHED.now / NS,
                       monotonic_ns=lambda: SCHED.now, perf_counter=lambda: SCHED.now / NS, perf_counter_ns=lambda: SCHED.now, sleep=sim_sleep)
    return {"threading": th, "time": tm}


def sim_sleep(s):
    if s < 0:
        raise ValueError("sleep length must be non-negative")
    SCHED.sleep(int(s * NS) + (SCHED.late if s > 0 else 0))


class imported_with:
    """modules imported inside see the given modules"""

    def __init__(self, mods):
        self.mods = mods

    def __enter__(self):
        self.old = {k: sys.modules.get(k) for k in self.mods}
        sys.modules.update(self.mods)

    def __exit__(self, *a):
        for k, v in self.old.items():
            if v is None:
                sys.modules.pop(k, None)
            else:
                sys.modules[k] = v


def gen_preempts(r, horizon, mean, stalls=0.0):
    """random preemption points over the first `horizon` line events, one in `mean` on average; clustered with some probability;
    a fraction `stalls` of them are stalls of 0.1 to 40 ms"""
    def choice():
        return r.choice([100, 1000, 4000, 12000, 40000]) if stalls and r.random() < stalls else r.randrange(4)
    out = {}
    n = 0
    k = r.random()
    while True:
        n += 1 + int(r.expovariate(1.0 / mean))
        if n > horizon:
            return sorted([a, b] for a, b in out.items())
        out[n] = choice()
        if k < 0.5:      # bursts
            for j in range(r.choice([0, 0, 1, 3])):
                n += r.choice([1, 1, 2, 3])
                out[n] = choice()

"""Controlled scheduler for real Python code, and exhaustive exploration of its schedules.

Tasks are real threads, but exactly one runs at any time; it gives up control only inside the controlled primitives
below (locks, values, queues, events, joins, sleeps).  Which task continues is decided by a Chooser, so that all
schedules up to a bound on preemptions can be enumerated (stateless, depth first, replaying a prefix of choices).
Time is virtual: a timeout fires only when no task can run.
"""
import _thread
import copy
import queue as _queue
import threading as _threading
import time as _time
import multiprocessing as _mp
import pickle

_real_Thread = _threading.Thread
_alloc = _thread.allocate_lock


class Deadlock(Exception):
    pass


class Livelock(Exception):
    pass


class Diverged(Exception):
    """a recorded prefix could not be replayed: uncontrolled nondeterminism in the harness (hard error)"""


class TaskKilled(BaseException):
    pass


class Chooser:
    """Replays `prefix`, then always takes option 0, recording every decision."""

    def __init__(self, prefix=()):
        self.prefix = list(prefix)
        self.log = []  # (options, chosen, cost of any alternative to option 0)

    def choose(self, n, cost=0):
        if n <= 1:
            return 0
        i = len(self.log)
        c = 0
        if i < len(self.prefix):
            c = self.prefix[i]
            if c >= n:
                raise Diverged(f"choice {i}: {c} of {n}")
        self.log.append((n, c, cost))
        return c


def explore(run, bound, limit=None, on_run=None):
    """Depth-first over all choice sequences whose deviations (alternatives with cost 1) number at most `bound`.

    run(chooser) performs one execution.  Returns (executions, complete?)."""
    stack = [[]]
    n = 0
    while stack:
        prefix = stack.pop()
        ch = Chooser(prefix)
        res = run(ch)
        n += 1
        if on_run is not None and on_run(res, [c for _, c, _ in ch.log]) is False:
            return n, False
        cost = 0
        new = []
        for i, (opts, c, dev) in enumerate(ch.log):
            if i >= len(prefix):
                for alt in range(1, opts):
                    if bound is None or cost + dev <= bound:
                        new.append([x[1] for x in ch.log[:i]] + [alt])
            cost += dev if c else 0
        stack.extend(reversed(new))
        if limit is not None and n >= limit and stack:
            return n, False
    return n, True


class _Task:
    __slots__ = ("id", "name", "sem", "cond", "deadline", "timed_out", "done", "exc", "result", "daemon", "kill", "started", "held")

    def __init__(self, tid, name):
        self.id = tid
        self.name = name
        self.sem = _alloc()
        self.sem.acquire()
        self.cond = None
        self.deadline = None
        self.timed_out = False
        self.done = False
        self.exc = None
        self.result = None
        self.daemon = False
        self.kill = False
        self.started = False
        self.held = 0


_current = None  # the scheduler of the execution in progress
_tls = _threading.local()


def current():
    return _current


class Scheduler:
    def __init__(self, chooser, max_steps=4000):
        self.chooser = chooser
        self.tasks = []
        self.back = _alloc()
        self.back.acquire()
        self.now = 1000.0
        self.steps = 0
        self.max_steps = max_steps
        self.cur = None
        self.trace = []
        self.broken = False

    # -- tasks --
    def spawn(self, fn, name=None):
        t = _Task(len(self.tasks), name or f"t{len(self.tasks)}")
        self.tasks.append(t)

        def body():
            t.sem.acquire()
            _tls.task = t
            try:
                if not t.kill:
                    t.result = fn()
            except TaskKilled:
                pass
            except BaseException as e:  # noqa: BLE001
                t.exc = e
            t.done = True
            self.back.release()

        _thread.start_new_thread(body, ())
        return t

    def _resume(self, t):
        self.cur = t
        t.sem.release()
        self.back.acquire()

    # -- called from tasks --
    def point(self, cond=None, timeout=None):
        """Give up control until chosen again (and cond() holds).  Returns False if the timeout fired instead."""
        t = _tls.task
        t.cond = cond
        t.timed_out = False
        t.deadline = None if timeout is None else self.now + max(0.0, timeout)
        self.back.release()
        t.sem.acquire()
        t.cond = None
        t.deadline = None
        if t.kill:
            raise TaskKilled()
        return not t.timed_out

    # -- main loop --
    def run(self, main=None):
        global _current
        _current = self
        try:
            if main is not None:
                self.spawn(main, "main")
            while True:
                alive = [t for t in self.tasks if not t.done]
                if not alive:
                    break
                if all(t.daemon for t in alive):
                    break
                self.steps += 1
                if self.steps > self.max_steps:
                    raise Livelock(f"no end after {self.max_steps} scheduling steps: " + self.where())
                enabled = [t for t in alive if t.cond is None or t.cond()]
                if not enabled:
                    timers = [t for t in alive if t.deadline is not None]
                    if not timers:
                        raise Deadlock(self.where())
                    t = min(timers, key=lambda x: (x.deadline, x.id))
                    self.now = max(self.now, t.deadline)
                    t.timed_out = True
                else:
                    running = self.cur if (self.cur is not None and self.cur in enabled) else None
                    order = ([running] if running else []) + [t for t in enabled if t is not running]
                    t = order[self.chooser.choose(len(order), 1 if running else 0)]
                self.trace.append(t.id)
                self._resume(t)
        except BaseException as e:
            self.broken = not isinstance(e, Exception)  # watchdog: some task may be spinning, leave it alone
            raise
        finally:
            for t in self.tasks if not self.broken else ():
                if not t.done:
                    t.kill = True
                    for _ in range(50):
                        if t.done:
                            break
                        self._resume(t)
            _current = None
        return self

    def where(self):
        return ", ".join(f"{t.name}:{'done' if t.done else ('blocked' if t.cond else 'ready')}" for t in self.tasks)


def _pt(cond=None, timeout=None):
    """scheduling point if inside a controlled task"""
    s = _current
    if s is None or getattr(_tls, "task", None) is None:
        if cond is not None and not cond():
            raise Deadlock("blocking operation outside of a controlled task")
        return True
    return s.point(cond, timeout)


# ---------------------------------------------------------------------------------------------------- primitives ----
class _Shared:
    def __deepcopy__(self, memo):
        return self  # shared between "processes", like the real OS object

    def __copy__(self):
        return self


class CLock(_Shared):
    def __init__(self, *a, **k):
        self.owner = None

    def acquire(self, blocking=True, timeout=-1):
        me = getattr(_tls, "task", None) or object()
        if not blocking:
            _pt()
            if self.owner is not None:
                return False
            self._own(me)
            return True
        if not _pt(lambda: self.owner is None, None if timeout is None or timeout < 0 else timeout):
            return False
        self._own(me)
        return True

    def _own(self, me):
        self.owner = me
        if isinstance(me, _Task):
            me.held += 1

    def release(self):
        if self.owner is None:
            raise ValueError("release of an unlocked lock")
        if isinstance(self.owner, _Task):
            self.owner.held -= 1
        self.owner = None
        _pt()

    def locked(self):
        return self.owner is not None

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()


class CRLock(_Shared):
    def __init__(self, *a, **k):
        self.owner = None
        self.n = 0

    def acquire(self, blocking=True, timeout=-1):
        me = getattr(_tls, "task", None) or "main"
        if self.owner is me:
            self.n += 1
            return True
        if not blocking:
            _pt()
            if self.owner is not None:
                return False
        elif not _pt(lambda: self.owner is None, None if timeout is None or timeout < 0 else timeout):
            return False
        self.owner = me
        self.n = 1
        return True

    def release(self):
        self.n -= 1
        if self.n == 0:
            self.owner = None
            _pt()

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()


class CValue(_Shared):
    """multiprocessing.Value: reads and writes are scheduling points"""

    def __init__(self, typecode="i", value=0, lock=True):
        self._v = value
        self._l = CRLock()

    def get_lock(self):
        return self._l

    def get_obj(self):
        return self

    @property
    def value(self):
        _pt()
        return self._v

    @value.setter
    def value(self, x):
        _pt()
        self._v = x

    def acquire(self, *a, **k):
        return self._l.acquire()

    def release(self):
        self._l.release()

    def __enter__(self):
        self._l.acquire()
        return self

    def __exit__(self, *a):
        self._l.release()


class CEvent(_Shared):
    def __init__(self):
        self.flag = False

    def set(self):
        _pt()
        self.flag = True

    def clear(self):
        _pt()
        self.flag = False

    def is_set(self):
        _pt()
        return self.flag

    isSet = is_set

    def wait(self, timeout=None):
        return _pt(lambda: self.flag, timeout) or self.flag


class CSemaphore(_Shared):
    def __init__(self, value=1):
        self.v = value

    def acquire(self, blocking=True, timeout=None):
        if not blocking:
            _pt()
            if self.v <= 0:
                return False
        elif not _pt(lambda: self.v > 0, timeout):
            return False
        self.v -= 1
        return True

    def release(self, n=1):
        self.v += n
        _pt()

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()


class CCondition(_Shared):
    def __init__(self, lock=None):
        self.lock = lock or CRLock()
        self.waiters = []

    def acquire(self, *a, **k):
        return self.lock.acquire(*a, **k)

    def release(self):
        self.lock.release()

    def __enter__(self):
        self.lock.acquire()
        return self

    def __exit__(self, *a):
        self.lock.release()

    def wait(self, timeout=None):
        tok = [False]
        self.waiters.append(tok)
        self.lock.release()
        ok = _pt(lambda: tok[0], timeout)
        if tok in self.waiters:
            self.waiters.remove(tok)
        self.lock.acquire()
        return ok

    def wait_for(self, pred, timeout=None):
        while not pred():
            if not self.wait(timeout):
                return pred()
        return True

    def notify(self, n=1):
        for t in self.waiters[:n]:
            t[0] = True
        del self.waiters[:n]

    def notify_all(self):
        self.notify(len(self.waiters))


class CQueue(_Shared):
    """queue.Queue"""

    copying = False

    def __init__(self, maxsize=0, **k):
        self.maxsize = maxsize
        self.q = []
        self.closed = False
        self.unfinished = 0

    def _in(self, x):
        return x

    def _full(self):
        return self.maxsize is not None and self.maxsize > 0 and len(self.q) >= self.maxsize

    def put(self, x, block=True, timeout=None):
        x = self._in(x)
        if not block:
            _pt()
            if self._full():
                raise _queue.Full
        elif not _pt(lambda: not self._full(), timeout):
            raise _queue.Full
        self.q.append(x)
        self.unfinished += 1

    def put_nowait(self, x):
        self.put(x, False)

    def get(self, block=True, timeout=None):
        if not block:
            _pt()
            if not self.q:
                raise _queue.Empty
        elif not _pt(lambda: len(self.q) > 0, timeout):
            raise _queue.Empty
        return self.q.pop(0)

    def get_nowait(self):
        return self.get(False)

    def qsize(self):
        _pt()
        return len(self.q)

    def empty(self):
        _pt()
        return not self.q

    def full(self):
        _pt()
        return self._full()

    def task_done(self):
        self.unfinished -= 1

    def join(self):
        _pt(lambda: self.unfinished <= 0)

    def close(self):
        self.closed = True

    def join_thread(self):
        pass

    def cancel_join_thread(self):
        pass

    def shutdown(self, immediate=False):
        self.closed = True


class CMPQueue(CQueue):
    """multiprocessing.Queue: items cross by value"""

    def _in(self, x):
        return pickle.loads(pickle.dumps(x))


class CThread:
    _isproc = False

    def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, daemon=None):
        self._target = target
        self._args = args
        self._kwargs = kwargs or {}
        self.name = name or "thread"
        self.daemon = bool(daemon)
        self._task = None
        self._terminated = False

    def run(self):
        if self._target is not None:
            return self._target(*self._args, **self._kwargs)

    def start(self):
        s = _current
        if s is None:
            raise RuntimeError("thread started outside of the controlled scheduler")
        self._task = s.spawn(self._body, self.name)
        self._task.daemon = self.daemon
        s.last_threads = getattr(s, "last_threads", []) + [self]
        _pt()

    def _body(self):
        return self.run()

    def join(self, timeout=None):
        if self._task is None:
            raise RuntimeError("cannot join thread before it is started")
        _pt(lambda: self._task.done, timeout)

    def is_alive(self):
        _pt()
        return self._task is not None and not self._task.done

    @property
    def ident(self):
        return None if self._task is None else 10000 + self._task.id

    native_id = ident


class CProcess(CThread):
    """multiprocessing.Process with the start method fork: the child works on copies of everything but shared objects"""

    _isproc = True

    @property
    def pid(self):
        return self.ident

    def _body(self):
        return self.run()

    def start(self):
        memo = {}
        self._fork()
        super().start()

    def _fork(self):
        t = self._target
        self._args = tuple(_forkcopy(a) for a in self._args)
        self._kwargs = {k: _forkcopy(v) for k, v in self._kwargs.items()}
        if hasattr(t, "__self__") and not isinstance(t.__self__, type):
            self._target = getattr(_forkcopy(t.__self__), t.__name__)

    @property
    def exitcode(self):
        if self._task is None or not self._task.done:
            return None
        return -15 if self._terminated else (1 if self._task.exc is not None else 0)

    def terminate(self):
        _pt()
        t = self._task
        if t is None or t.done:
            return
        self._terminated = True
        t.kill = True
        t.cond = None

    kill = terminate

    def close(self):
        pass


def _forkcopy(x):
    try:
        return copy.deepcopy(x)
    except Exception:  # noqa: BLE001  not copyable (e.g. generators): shared
        return x


def clone_state(obj):
    """A process-private copy of an object as fork() would give it: private attributes copied, OS objects shared."""
    new = obj.__class__.__new__(obj.__class__)
    memo = {}
    for k, v in obj.__dict__.items():
        new.__dict__[k] = copy.deepcopy(v, memo)
    return new


def csleep(t):
    _pt(lambda: False, t)


def cyield(*_):
    _pt()


def ctime():
    s = _current
    return s.now if s else _time.time()


REPLACE = {
    (_threading, "Thread"): CThread,
    (_threading, "Lock"): CLock,
    (_threading, "RLock"): CRLock,
    (_threading, "Event"): CEvent,
    (_threading, "Semaphore"): CSemaphore,
    (_threading, "BoundedSemaphore"): CSemaphore,
    (_threading, "Condition"): CCondition,
    (_queue, "Queue"): CQueue,
    (_queue, "SimpleQueue"): CQueue,
    (_mp, "Process"): CProcess,
    (_mp, "Queue"): CMPQueue,
    (_mp, "SimpleQueue"): CMPQueue,
    (_mp, "JoinableQueue"): CMPQueue,
    (_mp, "Lock"): CLock,
    (_mp, "RLock"): CRLock,
    (_mp, "Value"): CValue,
    (_mp, "Event"): CEvent,
    (_time, "sleep"): csleep,
    (_time, "time"): ctime,
    (_time, "monotonic"): ctime,
}


class _Ctx:
    """stand-in for multiprocessing.get_context(...)"""

    Process = CProcess
    Queue = CMPQueue
    SimpleQueue = CMPQueue
    Lock = CLock
    RLock = CRLock
    Value = CValue
    Event = CEvent


class patched:
    """Swap the real primitives for the controlled ones: in their home modules and wherever one of the given (repo)
    modules has imported them by name."""

    def __init__(self, modules=(), only=None, extra=()):
        self.modules = modules
        self.only = only
        self.extra = extra  # (object, attribute, replacement)
        self.saved = []

    def __enter__(self):
        table = {k: v for k, v in REPLACE.items() if self.only is None or k[1] in self.only}
        by_id = {id(getattr(m, n)): r for (m, n), r in table.items()}
        for m in self.modules:
            for k, v in list(vars(m).items()):
                r = by_id.get(id(v))
                if r is not None and not k.startswith("__"):
                    self.saved.append((m, k, v))
                    setattr(m, k, r)
        for (m, n), r in table.items():
            self.saved.append((m, n, getattr(m, n)))
            setattr(m, n, r)
        if self.only is None or "Process" in self.only:
            self.saved.append((_mp, "get_context", _mp.get_context))
            _mp.get_context = lambda *a: _Ctx
        for o, a, r in self.extra:
            self.saved.append((o, a, getattr(o, a)))
            setattr(o, a, r)
        return self

    def __exit__(self, *exc):
        for o, a, v in reversed(self.saved):
            setattr(o, a, v)
        self.saved = []


def traced(cls):
    """A subclass of cls in which every write of an instance attribute is a scheduling point, and every read by a
    task that holds no lock (an unlocked access elsewhere still sees every intermediate state a lock holder writes)."""

    class Traced(cls):
        def __getattribute__(self, name):
            v = object.__getattribute__(self, name)
            if not name.startswith("__") and name in object.__getattribute__(self, "__dict__"):
                t = getattr(_tls, "task", None)
                if t is not None and t.held == 0:
                    _pt()
                    v = object.__getattribute__(self, name)
            return v

        def __setattr__(self, name, value):
            _pt()
            object.__setattr__(self, name, value)

    Traced.__name__ = cls.__name__
    Traced.__qualname__ = cls.__qualname__
    return Traced


def attempt(fn, n, err=Exception):
    """what n calls of fn give: ('v', value), ('end',) or ('error', type, args)"""
    out = []
    for _ in range(n):
        try:
            out.append(("v", fn()))
        except StopIteration:
            out.append(("end",))
        except err as e:
            out.append(("error", type(e).__name__, e.args))
    return out

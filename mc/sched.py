"""Controlled scheduler: real Python code of several "processes", one running
at a time, every interleaving at shared-memory operations decided by the
explorer (preemption bounded).

`multiprocessing.Value` and `multiprocessing.Process` are replaced while an
execution runs, so the code under test creates controlled objects itself.
"""
import contextlib
import ctypes
import multiprocessing as mp
import multiprocessing.sharedctypes as sct
import threading

import builtins


class Deadlock(Exception):
    pass


class Kill(BaseException):
    """Unwinds controlled threads when an execution is abandoned."""


class Choice2(object):
    """Choice sequence with per-point cost of leaving the default."""

    def __init__(self, prefix=()):
        self.prefix = list(prefix)
        self.taken = []
        self.arity = []
        self.cost = []

    def choose(self, n, cost):
        i = len(self.taken)
        if i < len(self.prefix):
            c = self.prefix[i]
            if c >= n:
                raise RuntimeError('divergence while replaying a prefix')
        else:
            c = 0
        self.taken.append(c)
        self.arity.append(n)
        self.cost.append(cost)
        return c


def explore_schedules(run, bound):
    """All schedules with at most `bound` preemptions."""
    stack = [[]]
    while stack:
        pre = stack.pop()
        ch = Choice2(pre)
        res = run(ch)
        if len(ch.taken) < len(pre):
            raise RuntimeError('divergence: shorter execution than prefix')
        yield ch, res
        spent = sum(ch.cost[i] for i in range(len(pre)) if ch.taken[i])
        for i in range(len(ch.taken) - 1, len(pre) - 1, -1):
            if ch.arity[i] > 1 and spent + ch.cost[i] <= bound:
                for alt in range(ch.arity[i] - 1, 0, -1):
                    stack.append(ch.taken[:i] + [alt])


class Task(object):
    def __init__(self, sched, tid, fn, name):
        self.sched = sched
        self.tid = tid
        self.fn = fn
        self.name = name
        self.sem = threading.Semaphore(0)
        self.done = False
        self.blocked = None       # callable: True when it may run
        self.error = None
        self.thread = threading.Thread(target=self._main, daemon=True)

    def _main(self):
        self.sem.acquire()
        self.sched.local.task = self
        try:
            if not self.sched.killed:
                self.fn()
        except Kill:
            pass
        except BaseException as e:  # noqa
            self.error = e
        self.done = True
        self.sched._finished(self)


class Scheduler(object):

    def __init__(self, ch, horizon=4000):
        self.ch = ch
        self.tasks = []
        self.local = threading.local()
        self.current = None
        self.killed = False
        self.failure = None
        self.main_sem = threading.Semaphore(0)
        self.points = 0
        self.horizon = horizon
        self.log = []

    # -- called by harness
    def spawn(self, fn, name=None):
        t = Task(self, len(self.tasks), fn, name)
        self.tasks.append(t)
        t.thread.start()
        return t

    def run(self):
        """Run all spawned tasks to completion."""
        self._switch(None)
        self.main_sem.acquire()
        self.killed = True
        for t in self.tasks:
            while not t.done:
                t.sem.release()
                t.thread.join(0.5)
        for t in self.tasks:
            t.thread.join(5)
        if self.failure is not None:
            raise self.failure

    # -- scheduling
    def _enabled(self, cur):
        out = []
        order = self.tasks if cur is None else \
            [cur] + [t for t in self.tasks if t is not cur]
        for t in order:
            if not t.done and (t.blocked is None or t.blocked()):
                out.append(t)
        return out

    def _fail(self, exc):
        if self.failure is None:
            self.failure = exc
        self.killed = True
        self.main_sem.release()

    def _switch(self, cur):
        """Pick the next task; returns when `cur` is scheduled again."""
        try:
            en = self._enabled(cur)
            if not en:
                if all(t.done for t in self.tasks):
                    self.main_sem.release()
                    return
                raise Deadlock('no enabled task: {}'.format(
                    [(t.name or t.tid) for t in self.tasks if not t.done]))
            still = cur is not None and en[0] is cur
            k = self.ch.choose(len(en), 1 if still else 0) \
                if len(en) > 1 else 0
        except BaseException as e:  # noqa
            self._fail(e)
            raise Kill()
        nxt = en[k]
        self.current = nxt
        if nxt is cur:
            return
        nxt.sem.release()
        if cur is not None and not cur.done:
            cur.sem.acquire()
            if self.killed:
                raise Kill()

    def _finished(self, task):
        if self.killed:
            return
        try:
            self._switch(task if False else None)
        except Kill:
            pass

    def task(self):
        return getattr(self.local, 'task', None)

    def point(self, what=None):
        """A scheduling point before a shared operation."""
        t = self.task()
        if t is None:
            return
        if self.killed:
            raise Kill()
        self.points += 1
        if self.points > self.horizon:
            self._fail(RuntimeError(
                'livelock: {} scheduling points'.format(self.points)))
            raise Kill()
        self._switch(t)

    def wait(self, cond, what=None):
        """Block the current task until cond()."""
        t = self.task()
        if t is None:
            if not cond():
                raise Deadlock('main would block on {}'.format(what))
            return
        t.blocked = cond
        try:
            self.points += 1
            self._switch(t)
        finally:
            t.blocked = None


class CLock(object):
    """Recursive lock."""

    def __init__(self, sched):
        self.s = sched
        self.owner = None
        self.depth = 0

    def _me(self):
        return self.s.task() or 'main'

    def acquire(self, block=True, timeout=None):
        me = self._me()
        if self.owner is me:
            self.depth += 1
            return True
        if not block:
            self.s.point('tryacquire')
            if self.owner is not None:
                return False
        else:
            self.s.wait(lambda: self.owner is None, 'lock')
        self.owner = me
        self.depth = 1
        return True

    def release(self):
        if self.owner is not self._me():
            if self.s.killed:
                return
            raise AssertionError('release of a lock not held')
        self.depth -= 1
        if self.depth == 0:
            self.owner = None

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *a):
        self.release()


class CValue(object):
    """Like multiprocessing.Value: ctypes conversions, every access to
    `value` is a scheduling point."""

    def __init__(self, sched, typecode, *args, lock=True):
        self.s = sched
        tp = sct.typecode_to_type.get(typecode, typecode)
        self._c = tp(*args)
        self._lock = CLock(sched)

    def get_lock(self):
        return self._lock

    def get_obj(self):
        return self._c

    def acquire(self, *a, **k):
        return self._lock.acquire(*a, **k)

    def release(self):
        return self._lock.release()

    def __enter__(self):
        return self._lock.__enter__()

    def __exit__(self, *a):
        return self._lock.__exit__(*a)

    @property
    def value(self):
        self.s.point('read')
        return self._c.value

    @value.setter
    def value(self, v):
        self.s.point('write')
        self._c.value = v

    def peek(self):
        return self._c.value


class CProcess(object):
    """multiprocessing.Process as a controlled task; `fork` isolation is the
    harness's business (it gives every process its own objects)."""
    count = 0

    def __init__(self, sched, group=None, target=None, name=None, args=(),
                 kwargs=None, daemon=None):
        self.s = sched
        self.fn = lambda: target(*args, **(kwargs or {}))
        self.name = name
        self.t = None
        self.pid = None
        self.daemon = daemon

    def start(self):
        self.t = self.s.spawn(self.fn, self.name)
        self.pid = 1000 + self.t.tid
        self.s.point('start')

    def join(self, timeout=None):
        self.s.wait(lambda: self.t.done, 'join')

    def is_alive(self):
        return not self.t.done

    @property
    def exitcode(self):
        if not self.t.done:
            return None
        return 0 if self.t.error is None else 1


@contextlib.contextmanager
def patched_mp(sched, watch_dir=None):
    """Replace multiprocessing primitives (and make opening files below
    watch_dir a scheduling point)."""
    saved = (mp.Value, mp.Process, mp.Lock, mp.RLock, builtins.open)
    mp.Value = lambda tc, *a, **k: CValue(sched, tc, *a, **k)
    mp.Process = lambda *a, **k: CProcess(sched, *a, **k)
    mp.Lock = lambda: CLock(sched)
    mp.RLock = lambda: CLock(sched)
    if watch_dir is not None:
        def wopen(path, *a, **k):
            if isinstance(path, str) and path.startswith(watch_dir):
                sched.point('open')
                f = saved[4](path, *a, **k)
                return WFile(sched, f)
            return saved[4](path, *a, **k)
        builtins.open = wopen
    try:
        yield sched
    finally:
        mp.Value, mp.Process, mp.Lock, mp.RLock, builtins.open = saved


class WFile(object):
    """File whose close (when buffered data reach the file) is a scheduling
    point of its own."""

    def __init__(self, sched, f):
        self._s = sched
        self._f = f

    def __enter__(self):
        self._f.__enter__()
        return self

    def __exit__(self, *a):
        if a[0] is None:
            self._s.point('close')
        return self._f.__exit__(*a)

    def close(self):
        self._s.point('close')
        self._f.close()

    def __getattr__(self, k):
        return getattr(self._f, k)

    def __iter__(self):
        return iter(self._f)


assert ctypes

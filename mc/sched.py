"""A controlled scheduler: runs real Python threads one at a time and decides at every synchronisation operation who runs next.

The code under test is executed with stand-ins for the modules ``threading``, ``queue`` and ``time`` whose operations are
scheduling points. ``explore`` enumerates every schedule up to a preemption bound (depth-first, stateless).
"""
import _thread, sys, types, importlib.util, importlib.machinery
import threading as real_threading
import queue as real_queue

MAX_STEPS = 4000
SPIN = 40


class Kill(BaseException):
    """Ends a thread of an execution that is over."""


class Deadlock(Exception):
    pass


class Livelock(Exception):
    pass


class T:
    def __init__(self, tid):
        self.tid = tid
        self.baton = _thread.allocate_lock()
        self.baton.acquire()
        self.pred = None
        self.done = False
        self.error = None


class Sched:
    def __init__(self, prefix=(), bound=None):
        self.prefix = list(prefix)
        self.bound = bound
        self.trace = []            # (number of alternatives, chosen) for each decision with more than one alternative
        self.steps = 0
        self.preempt = 0
        self.threads = [T(0)]
        self.cur = self.threads[0]
        self.over = False
        self.failure = None
        self.spin = 0
        self.live = 0
        self.log = []

    # --- scheduling
    def point(self, pred=None, label="", give_way=False):
        """Scheduling point of the running thread; pred says when it can go on."""
        me = self.cur
        if self.over:
            raise Kill()
        self.steps += 1
        self.log.append((me.tid, label))
        me.pred = pred
        nxt = self.pick(me, give_way)
        if nxt is not me:
            self.switch(me, nxt)
        me.pred = None

    def pick(self, me, give_way=False):
        if self.steps > MAX_STEPS:
            self.abort(Livelock("no end after %d steps" % self.steps))
        en = [t for t in self.threads if not t.done and (t.pred is None or t.pred())]
        if not en:
            self.abort(Deadlock("all threads wait: %s" % self.log[-6:]))
        mine = me in en and not me.done
        if mine and len(en) > 1:
            self.spin += 1
            if give_way or self.spin > SPIN:
                en.remove(me)          # fairness: a polling thread lets the others go on
                mine = False
        if mine:
            en.remove(me)
            en.insert(0, me)
            if self.bound is not None and self.preempt >= self.bound:
                en = [me]
        if len(en) == 1:
            c = 0
        else:
            i = len(self.trace)
            c = self.prefix[i] if i < len(self.prefix) else 0
            if c >= len(en):
                raise RuntimeError("replay diverged")
            self.trace.append((len(en), c))
        if mine and c > 0:
            self.preempt += 1
        if en[c] is not me:
            self.spin = 0
        return en[c]

    def choose(self, n, label=""):
        """A choice that is not a schedule (e.g. a clock answer)."""
        i = len(self.trace)
        c = self.prefix[i] if i < len(self.prefix) else 0
        self.trace.append((n, c))
        return c

    def switch(self, me, nxt):
        self.cur = nxt
        nxt.baton.release()
        me.baton.acquire()
        if self.over and me.tid != 0:
            raise Kill()
        if self.over and self.failure is not None:
            raise self.failure

    def abort(self, exc):
        """Deadlock or livelock: end the execution from the main thread."""
        self.failure = exc
        self.over = True
        main = self.threads[0]
        if self.cur is not main:
            me = self.cur
            self.cur = main
            main.baton.release()
            raise Kill()
        raise exc

    def spawn(self, fn):
        t = T(len(self.threads))
        self.threads.append(t)
        self.live += 1

        def body():
            t.baton.acquire()
            try:
                if self.over:
                    raise Kill()
                fn()
            except Kill:
                pass
            except BaseException as e:
                t.error = e
            t.done = True
            self.live -= 1
            if not self.over:
                try:
                    self.steps += 1
                    nxt = self.pick(t)
                    self.cur = nxt
                    nxt.baton.release()
                except Kill:
                    pass
        _thread.start_new_thread(body, ())
        return t

    def finish(self):
        """Ends all remaining threads."""
        self.over = True
        for t in self.threads[1:]:
            if not t.done:
                # one after the other
                self.cur = t
                t.baton.release()
                while not t.done:
                    pass_()


def pass_():
    import time
    time.sleep(0)


CUR = [None]


def sched():
    return CUR[0]


# --- stand-ins of the module threading
class Lock:
    def __init__(self):
        self.owner = None

    def acquire(self, blocking=True, timeout=-1):
        s = sched()
        if not blocking:
            s.point(label="lock?")
            if self.owner is not None:
                return False
        else:
            s.point(lambda: self.owner is None or timeout > 0, "lock")
            if self.owner is not None:
                return False
        self.owner = s.cur
        return True

    def release(self):
        if self.owner is None:
            if sched() is None or sched().over:
                return              # the execution was ended in the middle of an operation
            raise RuntimeError("release unlocked lock")
        self.owner = None

    def locked(self):
        return self.owner is not None

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *a):
        self.release()


class RLock(Lock):
    def __init__(self):
        self.owner = None
        self.n = 0

    def acquire(self, blocking=True, timeout=-1):
        if self.owner is sched().cur:
            self.n += 1
            return True
        ok = Lock.acquire(self, blocking, timeout)
        if ok:
            self.n = 1
        return ok

    def release(self):
        self.n -= 1
        if self.n == 0:
            self.owner = None


class Condition:
    def __init__(self, lock=None):
        self.lock = lock if lock is not None else RLock()
        self.waiters = []
        self.acquire, self.release = self.lock.acquire, self.lock.release

    def __enter__(self):
        return self.lock.acquire()

    def __exit__(self, *a):
        self.lock.release()

    def wait(self, timeout=None):
        s = sched()
        tok = [False]
        self.waiters.append(tok)
        n = getattr(self.lock, "n", None)
        owner, self.lock.owner = self.lock.owner, None
        # a timed wait may end at any time
        s.point(lambda: (tok[0] or timeout is not None) and self.lock.owner is None, "wait", give_way=timeout is not None)
        self.lock.owner = owner
        if n is not None:
            self.lock.n = n
        if not tok[0] and tok in self.waiters:
            self.waiters.remove(tok)
        return tok[0]

    def wait_for(self, predicate, timeout=None):
        r = predicate()
        while not r:
            ok = self.wait(timeout)
            r = predicate()
            if timeout is not None and not ok:
                break
        return r

    def notify(self, n=1):
        for tok in self.waiters[:n]:
            tok[0] = True
        del self.waiters[:n]

    def notify_all(self):
        self.notify(len(self.waiters))

    notifyAll = notify_all


class Event:
    def __init__(self):
        self.flag = False

    def is_set(self):
        sched().point(label="event?")
        return self.flag

    isSet = is_set

    def set(self):
        sched().point(label="event set")
        self.flag = True

    def clear(self):
        self.flag = False

    def wait(self, timeout=None):
        sched().point(lambda: self.flag or timeout is not None, "event wait", give_way=timeout is not None)
        return self.flag


class Semaphore:
    def __init__(self, value=1):
        self.value = value

    def acquire(self, blocking=True, timeout=None):
        sched().point((lambda: self.value > 0) if blocking and timeout is None else None, "sem")
        if self.value > 0:
            self.value -= 1
            return True
        return False

    __enter__ = acquire

    def release(self, n=1):
        sched().point(label="sem release")
        self.value += n

    def __exit__(self, *a):
        self.release()


class Thread:
    def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, *, daemon=None):
        self._target, self._args, self._kwargs = target, args, kwargs or {}
        self.name = name or "T"
        self.daemon = bool(daemon)
        self._t = None

    def run(self):
        if self._target is not None:
            self._target(*self._args, **self._kwargs)

    def start(self):
        self._t = sched().spawn(self.run)
        sched().point(label="start")

    def join(self, timeout=None):
        sched().point(lambda: self._t.done or timeout is not None, "join", give_way=timeout is not None)

    def is_alive(self):
        sched().point(label="alive?")
        return self._t is not None and not self._t.done

    def setDaemon(self, d):
        self.daemon = d

    @property
    def ident(self):
        return self._t.tid if self._t else None


def make_threading():
    m = types.ModuleType("threading")
    m.__dict__.update({k: v for k, v in real_threading.__dict__.items() if not k.startswith("__")})
    for c in (Lock, RLock, Condition, Event, Semaphore, Thread):
        setattr(m, c.__name__, c)
    m.BoundedSemaphore = Semaphore
    return m


def load_copy(name, path, repl):
    """executes a module's source with some of its imports replaced"""
    spec = importlib.machinery.ModuleSpec(name, None, origin=path)
    m = types.ModuleType(name)
    m.__file__ = path
    m.__package__ = name.rpartition(".")[0]
    m.__spec__ = spec
    src = open(path).read()
    old = {k: sys.modules.get(k) for k in repl}
    sys.modules.update(repl)
    try:
        exec(compile(src, path, "exec"), m.__dict__)
    finally:
        for k, v in old.items():
            if v is None:
                sys.modules.pop(k, None)
            else:
                sys.modules[k] = v
    return m


def make_queue(thr):
    # no C implementation: everything goes through the stand-in locks
    cq = types.ModuleType("_queue")
    cq.Empty = real_queue.Empty
    # a timed wait ends after one wait, whenever the schedule lets it go on
    tick = types.ModuleType("time")
    big = [0.]

    def far():
        big[0] += 1e9
        return big[0]
    tick.monotonic = far
    m = load_copy("queue", real_queue.__file__, {"threading": thr, "_queue": cq, "time": tick})
    m.Full = real_queue.Full
    m.SimpleQueue = m.Queue
    return m


class Clock:
    """the stand-in of the module time: time passes only as the exploration decides"""

    def __init__(self):
        self.reset()

    def reset(self, pattern=(0.,)):
        self.now = 100.
        self.pattern = pattern
        self.i = 0

    def read(self):
        s = sched()
        if s is not None:
            s.point(label="time")
        self.now += self.pattern[self.i % len(self.pattern)]
        self.i += 1
        return self.now

    def sleep(self, x=0):
        s = sched()
        self.now += x
        if s is not None:
            s.point(label="sleep", give_way=True)


def make_time(clock):
    import time as rt
    m = types.ModuleType("time")
    m.__dict__.update({k: v for k, v in rt.__dict__.items() if not k.startswith("__")})
    for k in ("time", "monotonic", "perf_counter", "process_time"):
        setattr(m, k, clock.read)
    m.sleep = clock.sleep
    return m


def run_once(main, prefix, bound):
    s = Sched(prefix, bound)
    CUR[0] = s
    res = exc = None
    try:
        res = main(s)
    except (Deadlock, Livelock) as e:
        s.failure = e
    except Exception as e:
        exc = e
    steps = s.steps
    s.over_main = True
    s.finish()
    CUR[0] = None
    return s, res, exc


def explore(main, bound=None, limit=None):
    """runs main(sched) under every schedule; yields (sched, result, exception)"""
    prefix = []
    n = 0
    while True:
        s, res, exc = run_once(main, prefix, bound)
        n += 1
        yield s, res, exc
        tr = s.trace
        i = len(tr) - 1
        while i >= 0 and tr[i][1] + 1 >= tr[i][0]:
            i -= 1
        if i < 0:
            return
        prefix = [c for _, c in tr[:i]] + [tr[i][1] + 1]
        if limit is not None and n >= limit:
            raise RuntimeError("more than %d schedules" % limit)

"""Deterministic scheduler for real Python threads.

Exactly one simulated thread runs at a time; it hands the baton on at yield points
(every bytecode or line of valori code via sys.settrace, every lock operation, every
simulated file-system call, every sleep).  Which thread continues is decided by the
scenario: a PRNG while searching, an explicit list of preemptions while replaying.
"""
import _thread
import math
import sys
import threading

from .ctx import CTX, SimAbort

_real_allocate = _thread.allocate_lock


class Deadlock(Exception):
    pass


class SThread:
    __slots__ = ("tid", "sem", "state", "wake", "deadline", "fn", "exc", "name", "timed_out", "started")

    def __init__(self, tid, fn, name):
        self.tid = tid
        self.sem = _real_allocate()
        self.sem.acquire()
        self.state = "ready"     # ready, blocked, done
        self.wake = None         # predicate while blocked
        self.deadline = None
        self.fn = fn
        self.exc = None
        self.name = name
        self.timed_out = False
        self.started = False


class Scheduler:
    def __init__(self, rng, log, prob=0.02, replay=None, max_steps=2_000_000,
                 trace_prefix=None, opcodes=True):
        self.rng = rng
        self.log = log
        self.prob = prob              # preemption probability at a yield point
        self.replay = None if replay is None else {int(a): int(b) for a, b in replay}
        self.replay_keys = sorted(self.replay, reverse=True) if self.replay is not None else None
        self.decisions = []           # recorded [decision point, choice]
        self.threads = []
        self.cur = None
        self.n = 0                    # decision points passed
        self.switches = 0
        self.max_steps = max_steps
        self.main_sem = _real_allocate()
        self.main_sem.acquire()
        self.abort = False
        self.uncaught = []            # exceptions that ended a started thread
        self.problem = None           # deadlock / step limit description
        self.trace_prefix = trace_prefix
        self.opcodes = opcodes
        self.states = set()           # distinct (thread, location, next thread) switch points
        self.next_switch = 0
        self._plan()

    def _plan(self):
        """Next decision point at which a voluntary switch is considered."""
        if self.replay is not None:
            k = self.replay_keys
            while k and k[-1] <= self.n:
                k.pop()
            nxt = k[-1] if k else self.max_steps + 1
        elif self.prob <= 0:
            nxt = self.max_steps + 1
        else:
            u = 1.0 - self.rng.random()
            nxt = self.n + 1 + int(math.log(u) / math.log(1.0 - self.prob))
        self.next_switch = min(nxt, self.max_steps + 1)

    # -- set-up -------------------------------------------------------------
    def spawn(self, fn, name=None):
        t = SThread(len(self.threads), fn, name or "t%d" % len(self.threads))
        self.threads.append(t)
        _thread.start_new_thread(self._boot, (t,))
        return t

    def _boot(self, t):
        t.sem.acquire()
        try:
            if not self.abort:
                t.started = True
                if self.trace_prefix:
                    sys.settrace(self._trace)
                t.fn()
        except SimAbort:
            pass
        except BaseException as e:     # recorded, judged by the harness
            t.exc = e
        finally:
            sys.settrace(None)
            t.state = "done"
            self._dispatch_from_done()

    def _trace(self, frame, event, arg):
        if frame.f_code.co_filename.startswith(self.trace_prefix):
            frame.f_trace_lines = not self.opcodes
            frame.f_trace_opcodes = self.opcodes
            return self._local
        return None

    def _local(self, frame, event, arg):
        if event == "opcode" or event == "line":
            self.n += 1
            if self.n >= self.next_switch or self.abort:
                try:
                    self._slow_yield(None, frame)
                except SimAbort:
                    # A trace function that raises is switched off, but CPython 3.12 would go
                    # on calling it for frames with opcode tracing (NULL call)
                    f = frame
                    while f is not None:
                        f.f_trace_opcodes = False
                        f = f.f_back
                    raise
        return self._local

    # -- running ------------------------------------------------------------
    def run(self):
        """Run all threads to completion from the (unsimulated) main thread."""
        Serial._next = 0
        CTX.sched = self
        try:
            nxt = self._pick(None)
            if nxt is not None:
                self._resume(nxt)
                self.main_sem.acquire()
        finally:
            CTX.sched = None

    def me(self):
        return self.cur

    def _expire(self):
        now = CTX.clock.mono if CTX.clock else 0.0
        for t in self.threads:
            if t.state == "blocked" and t.deadline is not None and t.deadline <= now:
                t.timed_out = True
                t.state = "ready"
                t.wake = None
                t.deadline = None

    def _runnable(self):
        out = []
        for t in self.threads:
            if t.state == "ready":
                out.append(t)
            elif t.state == "blocked" and t.wake is not None and t.wake():
                out.append(t)
        return out

    def _candidates(self):
        while True:
            self._expire()
            r = self._runnable()
            if r:
                return r
            waiting = [t.deadline for t in self.threads
                       if t.state == "blocked" and t.deadline is not None]
            if waiting and not self.abort:
                CTX.clock.mono = max(CTX.clock.mono, min(waiting))
                continue
            blocked = [t for t in self.threads if t.state == "blocked"]
            if not blocked:
                return []
            if not self.abort:
                self.problem = "deadlock: " + ", ".join(t.name for t in blocked)
                self.abort = True
            for t in blocked:
                t.state = "ready"
                t.wake = None
                t.deadline = None

    def choice(self, k):
        """A numbered choice among k alternatives, recorded for replay."""
        self.n += 1
        if k <= 1:
            return 0
        if self.replay is not None:
            c = self.replay.get(self.n, 0) % k
        else:
            c = self.rng.randrange(k)
            if c:
                self.decisions.append([self.n, c])
        self.log.add("choice", self.n, c)
        return c

    def _pick(self, cur):
        """Choose who runs at a point where the running thread cannot go on (or the start)."""
        self.n += 1
        r = self._candidates()
        if not r:
            return None
        if self.replay is not None:
            want = self.replay.get(self.n)
            for t in r:
                if t.tid == want:
                    return t
            return r[0]
        t = r[0] if len(r) == 1 else self.rng.choice(r)
        if t is not r[0]:
            self.decisions.append([self.n, t.tid])
        return t

    def yield_point(self, what=None):
        self.n += 1
        if self.n >= self.next_switch or self.abort:
            self._slow_yield(what, None)

    def _slow_yield(self, what, frame):
        if self.abort:
            raise SimAbort()
        t = self.cur
        if self.n > self.max_steps:
            self.problem = "step limit: not finished within %d steps" % self.max_steps
            self.abort = True
            raise SimAbort()
        n = self.n
        self._plan()
        others = [x for x in self._candidates() if x is not t]
        if not others:
            return
        if self.replay is not None:
            want = self.replay.get(n)
            nxt = None
            for x in others:
                if x.tid == want:
                    nxt = x
            if nxt is None:
                return
        else:
            nxt = self.rng.choice(others)
            self.decisions.append([n, nxt.tid])
        if frame is not None:
            self.states.add((t.tid, frame.f_code.co_name, frame.f_lasti, nxt.tid))
        else:
            self.states.add((t.tid, what, 0, nxt.tid))
        self._switch(t, nxt)

    def _resume(self, nxt):
        if nxt.state == "blocked":
            nxt.state = "ready"
            nxt.wake = None
            nxt.deadline = None
        self.log.add("sw", self.n, nxt.tid)
        self.cur = nxt
        nxt.sem.release()

    def _switch(self, t, nxt):
        self.switches += 1
        self._resume(nxt)
        t.sem.acquire()
        if self.abort:
            raise SimAbort()

    def block(self, wake, timeout=None):
        """Park the calling thread until wake() holds or `timeout` simulated seconds pass.
        Returns False on timeout."""
        t = self.cur
        if self.abort:
            raise SimAbort()
        if wake is not None and wake():
            self.yield_point("block")
            return True
        t.state = "blocked"
        t.wake = wake if wake is not None else (lambda: False)
        t.timed_out = False
        t.deadline = None if timeout is None else CTX.clock.mono + max(0.0, timeout)
        nxt = self._pick(t)
        if nxt is t:
            t.state = "ready"
            t.wake = None
            t.deadline = None
            if self.abort:
                raise SimAbort()
        else:
            self._switch(t, nxt)
        r = not t.timed_out
        t.timed_out = False
        return r

    def _dispatch_from_done(self):
        nxt = self._pick(None)
        if nxt is None:
            self.cur = None
            self.main_sem.release()
            return
        self._resume(nxt)


# -- synchronisation primitives ---------------------------------------------
class SimLock:
    """threading.Lock replacement; free-standing (non-simulated) use is single-threaded."""

    def __init__(self):
        self._locked = False
        self._owner = None

    def acquire(self, blocking=True, timeout=-1):
        s = CTX.sched
        if s is None or s.me() is None:
            if self._locked:
                if not blocking or timeout >= 0:
                    return False
                if not CTX.active:
                    raise RuntimeError("simulated lock contended outside the simulation")
                raise RuntimeError("self-deadlock: lock already held")
            self._locked = True
            return True
        s.yield_point("acquire")
        while self._locked:
            if not blocking:
                return False
            ok = s.block(lambda: not self._locked, None if timeout is None or timeout < 0 else timeout)
            if not ok and self._locked:
                return False
        self._locked = True
        return True

    def release(self):
        if not self._locked:
            raise RuntimeError("release unlocked lock")
        self._locked = False
        s = CTX.sched
        if s is not None and s.me() is not None and not s.abort:
            s.yield_point("release")

    def locked(self):
        return self._locked

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()

    def _at_fork_reinit(self):
        self._locked = False


class SimRLock:
    def __init__(self):
        self._owner = None
        self._count = 0

    @staticmethod
    def _me():
        s = CTX.sched
        t = s.me() if s is not None else None
        return t if t is not None else "main"

    def acquire(self, blocking=True, timeout=-1):
        me = self._me()
        if self._owner is me or (me == "main" and self._owner == "main"):
            self._count += 1
            return True
        if me == "main":
            if self._owner is not None:
                # the owner was a simulated thread that was aborted
                self._owner = None
            self._owner = me
            self._count = 1
            return True
        s = CTX.sched
        s.yield_point("acquire")
        while self._owner is not None:
            if not blocking:
                return False
            ok = s.block(lambda: self._owner is None, None if timeout is None or timeout < 0 else timeout)
            if not ok and self._owner is not None:
                return False
        self._owner = me
        self._count = 1
        return True

    def release(self):
        me = self._me()
        if self._owner is not me and self._owner != me:
            raise RuntimeError("cannot release un-acquired lock")
        self._count -= 1
        if self._count == 0:
            self._owner = None
            s = CTX.sched
            if s is not None and s.me() is not None and not s.abort:
                s.yield_point("release")

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()

    # used by threading.Condition
    def _is_owned(self):
        return self._owner is self._me() or self._owner == self._me()

    def _release_save(self):
        c = self._count
        self._count = 0
        self._owner = None
        return c

    def _acquire_restore(self, c):
        self.acquire()
        self._count = c

    def _at_fork_reinit(self):
        self._owner = None
        self._count = 0

    # deepcopy/pickle of a lock fails as for the real one
    def __reduce__(self):
        raise TypeError("cannot pickle '_thread.RLock' object")


def _no_reduce(self):
    raise TypeError("cannot pickle '_thread.lock' object")


SimLock.__reduce__ = _no_reduce


def sim_sleep(sec):
    s = CTX.sched
    if s is not None and s.me() is not None:
        s.block(None, sec)
    elif CTX.clock is not None:
        CTX.clock.mono += max(0.0, sec)


class Serial:
    """Objects hashed by creation order, so that sets of them iterate in the same order in
    every process (the default hash is an address)."""
    _next = 0

    def __new__(cls, *a, **k):
        o = super().__new__(cls)
        Serial._next += 1
        o._serial = Serial._next
        return o

    def __hash__(self):
        return self._serial

    def __eq__(self, o):
        return self is o


class SimThread(Serial, threading.Thread):
    """threading.Thread whose body runs as a simulated thread while a scheduler is active."""

    def start(self):
        s = CTX.sched
        if s is None:
            if CTX.active:
                raise RuntimeError("thread started outside a simulated schedule")
            return super().start()
        if getattr(self, "_sim_t", None) is not None:
            raise RuntimeError("threads can only be started once")
        self._sim_done = False

        def body():
            try:
                self.run()
            except Exception as e:      # like threading.excepthook: the thread just ends
                s.uncaught.append(e)
            finally:
                self._sim_done = True

        self._sim_t = s.spawn(body, self.name)
        if s.me() is not None:
            s.yield_point("spawn")

    def join(self, timeout=None):
        t = getattr(self, "_sim_t", None)
        if t is None:
            return super().join(timeout)
        s = CTX.sched
        if s is not None and s.me() is not None:
            s.block(lambda: t.state == "done", timeout)

    def is_alive(self):
        t = getattr(self, "_sim_t", None)
        if t is None:
            return super().is_alive()
        return t.state != "done"

    @property
    def ident(self):
        t = getattr(self, "_sim_t", None)
        return t.tid + 1 if t is not None else super().ident

"""Installs the seams.  Must run before valori (and anything that captures the
patched names) is imported.  With CTX.active False every patched function is the
real one, so importing numpy, sklearn, ... is unaffected."""
import builtins
import datetime as _dt
import io
import os
import sys
import time

from .ctx import CTX
from .simfs import FD_BASE, is_sim_path

REPO = os.environ.get("VERIF_REPO", "/repo")
REAL = {}


def _path_fn(real, name, two=False):
    def f(path, *a, **k):
        if CTX.active and CTX.fs is not None:
            if is_sim_path(path):
                return getattr(CTX.fs, "os_" + name)(path, *a, **k)
            if two and a and is_sim_path(a[0]):
                return getattr(CTX.fs, "os_" + name)(path, *a, **k)
        return real(path, *a, **k)
    f.__name__ = name
    return f


def _fd_fn(real, name):
    def f(fd, *a, **k):
        if isinstance(fd, int) and fd >= FD_BASE and CTX.fs is not None:
            return getattr(CTX.fs, "os_" + name)(fd, *a, **k)
        return real(fd, *a, **k)
    f.__name__ = name
    return f


def _path_or_fd(real, pname, fname):
    def f(path=".", *a, **k):
        if isinstance(path, int) and path >= FD_BASE and CTX.fs is not None:
            return getattr(CTX.fs, "os_" + fname)(path, *a)
        if CTX.active and CTX.fs is not None and is_sim_path(path):
            return getattr(CTX.fs, "os_" + pname)(path, *a, **k)
        return real(path, *a, **k)
    f.__name__ = pname
    return f


def install():
    if REAL:
        return
    REAL["io.open"] = io.open
    REAL["time"] = time.time
    REAL["monotonic"] = time.monotonic
    CTX.real = REAL
    real_open = io.open

    def sim_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None,
                 closefd=True, opener=None):
        if CTX.active and CTX.fs is not None:
            if (isinstance(file, int) and not isinstance(file, bool) and file >= FD_BASE) or \
                    is_sim_path(file):
                return CTX.fs.open(file, mode, buffering, encoding, errors, newline, closefd, opener)
            if opener is not None and not isinstance(file, int) and is_sim_path(file):
                return CTX.fs.open(file, mode, buffering, encoding, errors, newline, closefd, opener)
        return real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)

    builtins.open = sim_open
    io.open = sim_open
    for n in ("mkdir", "rmdir", "unlink", "utime", "access"):
        setattr(os, n, _path_fn(getattr(os, n), n))
    os.remove = _path_fn(os.remove, "unlink")
    os.lstat = _path_fn(os.lstat, "stat")
    os.open = _path_fn(os.open, "open")
    for n in ("rename", "link"):
        setattr(os, n, _path_fn(getattr(os, n), n, True))
    os.replace = _path_fn(os.replace, "rename", True)
    for n in ("write", "read", "close", "fsync", "lseek", "ftruncate", "fstat"):
        setattr(os, n, _fd_fn(getattr(os, n), n))
    os.fdatasync = _fd_fn(os.fdatasync, "fsync")
    os.stat = _path_or_fd(os.stat, "stat", "fstat")
    os.listdir = _path_or_fd(os.listdir, "listdir", "listdir")
    os.scandir = _path_or_fd(os.scandir, "scandir", "scandir")
    os.truncate = _path_or_fd(os.truncate, "truncate", "ftruncate")
    real_chmod = os.chmod

    def chmod(path, *a, **k):
        if CTX.active and is_sim_path(path):
            return None
        return real_chmod(path, *a, **k)
    os.chmod = chmod
    real_fdopen = os.fdopen

    def fdopen(fd, *a, **k):
        if isinstance(fd, int) and fd >= FD_BASE:
            return sim_open(fd, *a, **k)
        return real_fdopen(fd, *a, **k)
    os.fdopen = fdopen
    real_sync = os.sync

    def sync():
        if CTX.active and CTX.fs is not None:
            CTX.fs.call("fsync", "*")
            CTX.fs._sync_all(CTX.fs.root)
            return
        real_sync()
    os.sync = sync

    real_urandom = os.urandom

    def urandom(n):
        if CTX.active and CTX.rng_urandom is not None:
            return CTX.rng_urandom.randbytes(n)
        return real_urandom(n)
    os.urandom = urandom

    # -- time ---------------------------------------------------------------
    rt, rm, rs, rp = time.time, time.monotonic, time.sleep, time.perf_counter
    time.time = lambda: CTX.clock.time() if CTX.active else rt()
    time.monotonic = lambda: CTX.clock.monotonic() if CTX.active else rm()
    time.perf_counter = lambda: CTX.clock.monotonic() if CTX.active else rp()
    rtn = time.time_ns
    time.time_ns = lambda: int(CTX.clock.time() * 1e9) if CTX.active else rtn()
    rmn = time.monotonic_ns
    time.monotonic_ns = lambda: int(CTX.clock.monotonic() * 1e9) if CTX.active else rmn()

    from . import sched as S

    def sleep(sec):
        if CTX.active:
            return S.sim_sleep(sec)
        return rs(sec)
    time.sleep = sleep

    sys.path.insert(0, os.path.join(REPO, "src"))


def install_threads():
    """After the heavy third-party imports (C code relies on the real datetime type),
    before valori: datetime and threading seams."""
    real_dt = _dt.datetime

    class Meta(type(real_dt)):
        def __instancecheck__(cls, o):
            return isinstance(o, real_dt)

    class SimDatetime(real_dt, metaclass=Meta):
        @classmethod
        def now(cls, tz=None):
            if CTX.active:
                if tz is None:
                    return cls.utcfromtimestamp(CTX.clock.time())
                return cls.fromtimestamp(CTX.clock.time(), tz)
            return super().now(tz)

        @classmethod
        def utcnow(cls):
            if CTX.active:
                return cls.utcfromtimestamp(CTX.clock.time())
            return super().utcnow()

        @classmethod
        def today(cls):
            return cls.now()
    SimDatetime.__name__ = "datetime"
    SimDatetime.__qualname__ = "datetime"
    SimDatetime.__module__ = "datetime"         # so that it can be pickled
    _dt.datetime = SimDatetime

    import _thread
    import queue
    import threading
    import concurrent.futures as cf
    import concurrent.futures.thread as cft
    import concurrent.futures._base as cfb
    from . import sched as S

    def Lock():
        return S.SimLock()

    def RLock():
        return S.SimRLock()

    threading.Lock = Lock
    threading.RLock = RLock
    threading._allocate_lock = Lock
    threading._CRLock = None
    threading.Thread = S.SimThread
    queue.SimpleQueue = queue._PySimpleQueue
    queue.time = lambda: time.monotonic()
    threading._time = lambda: time.monotonic()
    cft._global_shutdown_lock = S.SimLock()
    class SimTimer(S.SimThread):
        def __init__(self, interval, function, args=None, kwargs=None):
            super().__init__()
            self.interval, self.function = interval, function
            self.args, self.kwargs = args or [], kwargs or {}
            self.finished = threading.Event()

        def cancel(self):
            self.finished.set()

        def run(self):
            self.finished.wait(self.interval)
            if not self.finished.is_set():
                self.function(*self.args, **self.kwargs)
            self.finished.set()
    threading.Timer = SimTimer

    FIN = (cfb.CANCELLED, cfb.CANCELLED_AND_NOTIFIED, cfb.FINISHED)

    def fin(f):
        # read without the future's lock: the scheduler evaluates this between two threads
        return f._state in FIN

    def sim_as_completed(fs, timeout=None):
        fs = list(dict.fromkeys(fs))
        s = CTX.sched
        if s is None or s.me() is None:
            for f in fs:
                yield f
            return
        pending = list(fs)
        end = None if timeout is None else CTX.clock.mono + timeout
        while pending:
            left = None if end is None else end - CTX.clock.mono
            ok = s.block(lambda: any(fin(f) for f in pending), left)
            done = [f for f in pending if fin(f)]
            if not done and not ok:
                raise cf.TimeoutError("%d (of %d) futures unfinished" % (len(pending), len(fs)))
            # which of the finished ones is seen first is the scheduler's choice
            order = CTX.sched.choice(len(done))
            f = done[order]
            pending.remove(f)
            yield f

    def sim_wait(fs, timeout=None, return_when=cf.ALL_COMPLETED):
        fs = list(dict.fromkeys(fs))
        s = CTX.sched

        def ready():
            d = [f for f in fs if fin(f)]
            if return_when == cf.FIRST_COMPLETED:
                return bool(d)
            if return_when == cf.FIRST_EXCEPTION and any(
                    f._state == cfb.FINISHED and f._exception for f in fs):
                return True
            return len(d) == len(fs)
        if s is not None and s.me() is not None:
            s.block(ready, timeout)
        done = [f for f in fs if fin(f)]
        return cfb.DoneAndNotDoneFutures(OrderedSet(done), OrderedSet([f for f in fs if f not in done]))

    class SimFuture(S.Serial, cfb.Future):
        pass
    cfb.Future = SimFuture
    cf.Future = SimFuture

    cf.as_completed = sim_as_completed
    cfb.as_completed = sim_as_completed
    cf.wait = sim_wait
    cfb.wait = sim_wait


class OrderedSet(list):
    def add(self, x):
        if x not in self:
            self.append(x)

    def __sub__(self, o):
        return OrderedSet([x for x in self if x not in o])


def load():
    """Heavy imports, thread seams, valori, property checks; returns {id: check}."""
    import warnings
    warnings.filterwarnings("ignore")
    import uuid  # noqa: F401  (captures os.urandom at call time)
    import random  # noqa: F401
    import numpy as np  # noqa: F401
    import numpy.random  # noqa: F401
    import sklearn.cluster  # noqa: F401
    import sklearn.metrics.pairwise  # noqa: F401
    import annoy  # noqa: F401
    import psutil  # noqa: F401
    import chardet, openpyxl, docx, pptx, PyPDF2  # noqa: F401,E401
    import PyPDF2.generic  # noqa: F401
    import logging
    install_threads()
    from . import models
    models.install()
    models.install_meter()
    import valori
    want = os.path.realpath(os.path.join(REPO, "src", "valori"))
    if os.path.realpath(os.path.dirname(valori.__file__)) != want:
        raise RuntimeError("valori imported from %s, not %s" % (valori.__file__, want))
    import valori.factory  # noqa: F401
    logging.disable(logging.CRITICAL)
    # CPython 3.12 delivers opcode events only after some frame asked for them once
    def tr(frame, event, arg):
        frame.f_trace_opcodes = True
        return None
    for _ in range(2):
        sys.settrace(tr)
        (lambda: None)()
        sys.settrace(None)
    from . import props
    return props.load()

"""Process-wide simulation context.  Everything the patched standard library
functions consult lives here; when `active` is False they behave as the real ones."""
import hashlib


class SimCrash(BaseException):
    """The simulated process was killed (or lost power) at this point."""


class SimAbort(BaseException):
    """The simulator stops a simulated thread (run over)."""


class Ctx:
    def __init__(self):
        self.active = False
        self.fs = None          # SimFS
        self.sched = None       # Scheduler (only during multi-threaded phases)
        self.clock = None       # Clock
        self.rng_urandom = None  # random.Random feeding os.urandom


CTX = Ctx()


class Clock:
    """Simulated clock: `mono` never goes back, wall time may jump by `skew`."""

    BASE = 1_700_000_000.0

    def __init__(self):
        self.mono = 1000.0
        self.skew = 0.0

    def time(self):
        self.mono += 1e-6
        return self.BASE + self.mono + self.skew

    def monotonic(self):
        self.mono += 1e-6
        return self.mono


class EventLog:
    """Rolling digest (and optional text) of everything that happened in a run."""

    def __init__(self, keep=False):
        self.h = hashlib.sha256()
        self.n = 0
        self.lines = [] if keep else None

    def add(self, *parts):
        s = "|".join(str(p) for p in parts)
        self.h.update(s.encode("utf-8", "surrogatepass"))
        self.h.update(b"\n")
        self.n += 1
        if self.lines is not None:
            self.lines.append(s)

    def digest(self):
        return self.h.hexdigest()[:24]

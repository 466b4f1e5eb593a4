"""Run environment, scenario helpers, outcome type."""
import gc
import io
import json
import os
import random
import sys
import warnings

from .ctx import CTX, Clock, EventLog, SimCrash
from .simfs import SimFS


class Env:
    """One simulated execution: file system, clock, seeded randomness, event log."""

    def __init__(self, scn, keep_log=False):
        self.scn = scn
        seed = scn["seed"]
        self.log = EventLog(keep_log)
        self.log.add("seed", seed)
        self.clock = Clock()
        self.rng = random.Random("env:%s" % seed)
        self.fs = SimFS(random.Random("fs:%s" % seed), self.log, scn.get("buf", 8192))
        for f in scn.get("faults", []):
            self.fs.faults[(f["op"], f["n"])] = f
        self.findings = []       # [{sig, msg, op}]
        self.probes = {}
        self.opno = -1

    def __enter__(self):
        import numpy as np
        seed = self.scn["seed"]
        random.seed("global:%s" % seed)
        np.random.seed(random.Random("np:%s" % seed).randrange(2 ** 32))
        CTX.clock = self.clock
        CTX.fs = self.fs
        CTX.rng_urandom = random.Random("ur:%s" % seed)
        import tempfile
        names = random.Random("tmp:%s" % seed)
        tempfile._name_sequence = iter(lambda: "%08x" % names.getrandbits(32), None)
        random._urandom = os.urandom
        self._out, self._err = sys.stdout, sys.stderr
        sys.stdout = io.StringIO()
        sys.stderr = io.StringIO()
        gc.disable()
        CTX.active = True
        return self

    def __exit__(self, *a):
        CTX.active = False
        CTX.sched = None
        sys.stdout, sys.stderr = self._out, self._err
        CTX.fs = None
        CTX.rng_urandom = None
        return False

    def open_op(self, i):
        """Start of operation i; fault(s) fired before it are remembered for fired_in_op()."""
        self._fired0 = sum(self.fs.fired.values()) - self.fs.fired.get("short_read", 0) - \
            self.fs.fired.get("short_write", 0)

    def fired_in_op(self):
        """Did an injected error (not merely a short transfer) hit the current operation?"""
        now = sum(self.fs.fired.values()) - self.fs.fired.get("short_read", 0) - \
            self.fs.fired.get("short_write", 0)
        return now > self._fired0

    def quiet(self):
        return Quiet(self)

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def fail(self, sig, msg):
        self.findings.append({"sig": sig, "msg": str(msg)[:600], "op": self.opno})
        self.log.add("FINDING", sig, self.opno)

    def step(self, i, name, *detail):
        self.opno = i
        self.fs.begin_op(i)
        self.open_op(i)
        self.log.add("op", i, name, *detail)


class Quiet:
    """Oracle reads: no faults, no yield points, no events, no fault counters."""

    def __init__(self, env):
        self.fs = env.fs

    def __enter__(self):
        self.fs.quiet += 1

    def __exit__(self, *a):
        self.fs.quiet -= 1
        return False


class Outcome:
    def __init__(self, env, extra=None):
        self.findings = env.findings
        self.digest = env.log.digest()
        self.lines = env.log.lines
        self.fired = dict(env.fs.fired)
        self.probes = dict(env.probes)
        self.fs_calls = env.fs.total
        self.counts = dict(env.fs.counts)
        self.kinds = env.fs.kinds
        self.sim_time = env.clock.mono - 1000.0
        self.decisions = None
        self.switches = 0
        self.states = set()
        if extra:
            self.__dict__.update(extra)


# -- values ------------------------------------------------------------------
class Poison:
    """A metadata value that can be neither copied nor pickled."""

    def __reduce_ex__(self, proto):
        raise TypeError("poison cannot be copied or pickled")

    def __repr__(self):
        return "poison"


def scribble(o, depth=0):
    """What a careless caller may do to objects it owns: change everything in place."""
    import numpy as np
    if isinstance(o, np.ndarray):
        if o.flags.writeable and o.size and o.dtype.kind in "iufb":
            o[...] = 77
        return
    if isinstance(o, set):
        o.add("scribbled")
        return
    if depth > 6:
        return
    if isinstance(o, dict):
        for k in list(o):
            scribble(o[k], depth + 1)
        for k in list(o):
            if not isinstance(o[k], (dict, list, set, np.ndarray)):
                o[k] = "scribbled"
        o["zz"] = "scribbled"
    elif isinstance(o, list):
        for x in o:
            scribble(x, depth + 1)
        o.append("scribbled")
    elif isinstance(o, tuple):
        for x in o:
            scribble(x, depth + 1)


def dec(o):
    """JSON scenario value -> Python value."""
    if isinstance(o, dict):
        if "__p" in o:
            return Poison()
        if "__b" in o:
            return bytes.fromhex(o["__b"])
        if "__t" in o:
            return tuple(dec(x) for x in o["__t"])
        if "__a" in o:       # numpy array, or scalar
            import numpy as np
            a = np.array(o["__a"][1], dtype=o["__a"][0])
            return a if a.ndim else a[()]
        if "__d" in o:
            import datetime
            return datetime.datetime.fromisoformat(o["__d"])
        if "__s" in o:
            return set(dec(x) for x in o["__s"])
        if "__k" in o:       # keys that are not strings
            return {dec(k): dec(v) for k, v in o["__k"]}
        return {k: dec(v) for k, v in o.items()}
    if isinstance(o, list):
        return [dec(x) for x in o]
    return o


def canon(o):
    """Type-strict canonical text of a metadata value."""
    import numpy as np
    if o is None or isinstance(o, (bool, str, bytes)):
        return "%s:%r" % (type(o).__name__, o)
    if isinstance(o, (int, float)):
        return "%s:%r" % (type(o).__name__, o)
    if isinstance(o, dict):
        return "{" + ",".join(sorted(canon(k) + "=" + canon(v) for k, v in o.items())) + "}"
    if isinstance(o, list):
        return "[" + ",".join(canon(x) for x in o) + "]"
    if isinstance(o, tuple):
        return "(" + ",".join(canon(x) for x in o) + ")"
    if isinstance(o, np.ndarray):
        return "nd:%s:%s:%s" % (o.dtype.str, o.shape, o.tobytes().hex())
    if isinstance(o, (set, frozenset)):
        return "%s:{%s}" % (type(o).__name__, ",".join(sorted(canon(x) for x in o)))
    return "%s:%r" % (type(o).__name__, o)


def mkvec(spec):
    """JSON scenario value -> vector; "lay" gives it another memory layout."""
    import numpy as np
    if "hex" in spec:
        return np.frombuffer(bytes.fromhex(spec["hex"]), dtype=spec["dt"]).reshape(spec["sh"]).copy()
    if "n" in spec:
        return ((np.arange(spec["n"]) % 251) / 4 - spec["a"]).astype(spec["dt"])
    v = np.array(spec["x"], dtype=spec.get("dt", "<f4"))
    lay = spec.get("lay")
    if lay == "step" and v.ndim:
        w = np.zeros((2 * v.shape[0],) + v.shape[1:], dtype=v.dtype)
        w[::2] = v
        return w[::2]
    if lay == "rev" and v.ndim:
        return np.ascontiguousarray(v[::-1])[::-1]
    if lay == "F":
        return np.asfortranarray(v)
    if lay == "ro":
        v.flags.writeable = False
    return v


def vkey(v):
    import numpy as np
    if not isinstance(v, np.ndarray):
        return "notarray:%s" % type(v).__name__
    return "%s:%s:%s" % (v.dtype.str, v.shape, np.ascontiguousarray(v).tobytes().hex())


def run_op(env, fn):
    """Execute one call into the code under test.
    Returns ('ok', value) | ('err', exception) | ('crash', None)."""
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            r = fn()
        if env.fs.frozen:
            return "crash", None
        return "ok", r
    except SimCrash:
        return "crash", None
    except Exception as e:
        if env.fs.frozen:
            return "crash", None
        return "err", e


def place_faults(rng, counts, kinds_of, wanted, ops=None):
    """Pick concrete (operation, call number) positions from a fault-free run's call counts."""
    ops = [o for o in (ops if ops is not None else counts) if counts.get(o, 0) > 0 and o >= 0]
    out = []
    used = set()
    if not ops:
        return out
    for w in wanted:
        o = rng.choice(ops)
        ks = kinds_of.get(o)
        c = counts[o]
        if ks and w.get("prefer") and rng.random() < 0.75:
            cand = [i for i, k in enumerate(ks) if k in w["prefer"]]
            n = rng.choice(cand) if cand else rng.randrange(c)
        else:
            n = rng.randrange(c)
        if (o, n) in used:
            continue
        used.add((o, n))
        f = {k: v for k, v in w.items() if k != "prefer"}
        f["op"], f["n"] = o, n
        out.append(f)
    return out


MUTATING = ("write", "create", "fsync", "rename", "unlink", "truncate")


def crash_fault(rng, power=None):
    return {"kind": "crash", "where": rng.choice(["before", "after", "torn", "after"]),
            "frac": round(rng.random(), 3),
            "power": (rng.random() < 0.4) if power is None else power,
            "prefer": MUTATING}


def error_fault(rng):
    k = rng.choice(["enospc", "eio", "eio_read", "eio_write", "emfile", "short", "enospc", "eio_write"])
    prefer = MUTATING if k in ("enospc", "eio_write") else (("read", "write") if k == "short" else None)
    f = {"kind": k, "dur": rng.choice([1, 1, 1, 2, 4, 30]), "frac": round(rng.random(), 3)}
    if prefer:
        f["prefer"] = prefer
    return f

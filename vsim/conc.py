"""Running simulated threads and checking their histories."""
import random

from .core import Outcome, run_op
from .ctx import CTX
from .sched import Scheduler


class Hist:
    """Invocation/response history with a global order."""

    def __init__(self, env):
        self.env = env
        self.t = 0
        self.events = []        # dicts: thr, op, s, e, r, v

    def call(self, thr, op, fn):
        self.t += 1
        ev = {"thr": thr, "op": op, "s": self.t, "e": None, "r": None, "v": None}
        self.events.append(ev)
        r, v = run_op(self.env, fn)
        self.t += 1
        ev["e"], ev["r"], ev["v"] = self.t, r, v
        self.env.log.add("resp", thr, op[0], r)
        return r, v


def run_threads(env, scn, bodies, names=None, max_steps=3_000_000):
    """Run the callables as simulated threads under the scenario's schedule."""
    from .boot import REPO
    sc = scn.get("sched") or {}
    rng = random.Random("sched:%s:%s" % (scn["seed"], sc.get("salt", 0)))
    s = Scheduler(rng, env.log, sc.get("prob", 0.02), sc.get("replay"), max_steps,
                  trace_prefix=REPO + "/src/valori/", opcodes=sc.get("opcodes", True))
    for i, b in enumerate(bodies):
        s.spawn(b, names[i] if names else "thread%d" % i)
    s.run()
    for t in s.threads:
        if t.exc is not None:
            raise t.exc
    return s


def rsched(rng):
    return {"prob": rng.choice([0.3, 0.1, 0.05, 0.02, 0.01, 0.003]), "opcodes": rng.random() < 0.85}


def linearizable(events, init, step):
    """Wing & Gong search.  events: [(s, e, op)]; step(state, op) -> list of next states."""
    evs = sorted(events, key=lambda x: x[0])
    n = len(evs)
    full = (1 << n) - 1
    seen = set()
    stack = [(0, init)]
    while stack:
        done, st = stack.pop()
        if done == full:
            return True
        if (done, st) in seen:
            continue
        seen.add((done, st))
        first_end = min(evs[i][1] for i in range(n) if not done >> i & 1)
        for i in range(n):
            if done >> i & 1:
                continue
            if evs[i][0] > first_end:
                break
            for ns in step(st, evs[i][2]):
                stack.append((done | 1 << i, ns))
    return False


def conc_outcome(env, sched):
    extra = {}
    if sched is not None:
        extra = {"decisions": sched.decisions if sched.replay is None else None,
                 "switches": sched.switches, "states": sched.states}
    return Outcome(env, extra)

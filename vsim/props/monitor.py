"""C19: the resource monitor in simulated time, with a failing and stalling sampler."""
import math

from ..conc import conc_outcome, rsched, run_threads
from ..core import Env, run_op
from ..models import METER
from ..prop import Prop

MB = 1024 * 1024


class MonitorWorld:
    def __init__(self, env, scn):
        self.env, self.scn = env, scn
        from valori.utils.batch_manager import ResourceMonitor
        self.m = ResourceMonitor()
        self.seq = 0
        self.ctl = []           # control calls: {k, interval, s, e (sequence), ts, te (time), r}
        self.snaps = []         # (sequence, time, [entries])
        self.entries = {}       # (rss, cpu) -> entry, everything ever seen recorded
        self.slow = max([f.get("sleep", 0) for f in scn["plan"].values() if isinstance(f, dict)] + [0])
        self.nslow = sum(f.get("sleep", 0) for f in scn["plan"].values() if isinstance(f, dict))

    def fail(self, sig, msg):
        self.env.fail(sig, msg)

    def tick(self):
        self.seq += 1
        return self.seq

    def now(self):
        return self.env.clock.mono

    def snap(self):
        data = [dict(d) for d in list(self.m.resource_data)]
        self.snaps.append((self.tick(), self.now(), data))
        for d in data:
            self.entries[(d["memory_mb"], d["cpu_percent"])] = d
        return data

    def control(self, op):
        self.snap()
        c = {"k": op[0], "interval": op[1] if len(op) > 1 else None, "s": self.tick(), "ts": self.now(),
             "e": None, "te": None, "at": None}
        self.ctl.append(c)
        fn = (lambda: self.m.start_monitoring(op[1])) if op[0] == "start" else self.m.stop_monitoring
        r, v = run_op(self.env, fn)
        c["te"], c["e"] = self.now(), self.tick()
        if r != "ok":
            self.fail("raise", "%s_monitoring raised %s: %s" % (op[0], type(v).__name__, v))
            return
        self.snap()
        self.env.probe(op[0])

    def summary(self):
        a = self.snap()
        r, v = run_op(self.env, self.m.get_summary)
        b = self.snap()
        if r != "ok":
            self.fail("raise", "get_summary raised %s: %s" % (type(v).__name__, v))
            return
        if len(b) < len(a) or b[:len(a)] != a:
            return      # restarted meanwhile
        if not v:
            if a:
                self.fail("summary", "get_summary is empty although %d samples are recorded" % len(a))
            return
        if not b:
            self.fail("summary", "get_summary %r without any sample" % v)
            return
        ns = range(max(1, len(a)), len(b) + 1)

        def stats(key, n):
            x = [d[key] for d in b[:n]]
            return {"min": min(x), "max": max(x), "avg": sum(x) / len(x)}

        def close(p, q):
            return all(k in p and abs(p[k] - q[k]) < 1e-6 for k in q)
        for part, key in (("memory", "memory_mb"), ("cpu", "cpu_percent")):
            if not any(close(v[part], stats(key, n)) for n in ns):
                self.fail("summary", "get_summary reports %s %r, the samples give %r" % (
                    part, v[part], stats(key, len(b))))
        if not any(abs(v["duration"] - (b[n - 1]["timestamp"] - b[0]["timestamp"])) < 1e-6 for n in ns):
            self.fail("summary", "get_summary reports a duration of %r for the samples %r" % (
                v["duration"], [d["timestamp"] for d in b]))
        self.env.probe("summary")

    def body(self, ops):
        import time
        for i, op in ops:
            if self.env.findings:
                break
            self.env.log.add("mop", i, op[0])
            if op[0] in ("start", "stop"):
                self.control(op)
            elif op[0] == "sleep":
                time.sleep(op[1])
            elif op[0] == "jump":
                self.env.clock.skew += op[1]
                self.env.probe("clock_jump")
            elif op[0] == "summary":
                self.summary()
            elif op[0] == "read":
                self.snap()
        self.left -= 1
        if self.left == 0:
            # end of the run: everything is stopped, then nothing may happen any more
            self.control(["stop"])
            time.sleep(3 * self.scn["maxint"] + self.slow)
            self.snap()
            METER.fail_all = True

    # -- judgement -------------------------------------------------------------
    def judge(self):
        reads = [r for r in METER.readings if r[1] is not None]
        by = {(r[2] / MB, r[3]): (n, r) for n, r in enumerate(reads)}
        for seq, t, data in self.snaps:
            last = -1
            for d, nx in zip(data, data[1:]):
                if nx["timestamp"] < d["timestamp"]:
                    self.fail("timestamps", "sample timestamps go back: %r then %r" % (d, nx))
                    return
            for d in data:
                hit = by.get((d["memory_mb"], d["cpu_percent"]))
                if hit is None or hit[0] in (last,):
                    self.fail("sample", "the recorded sample %r is no reading of the process" % d)
                    return
                if self.single and hit[0] < last:
                    self.fail("sample", "samples are recorded out of order: %r" % data)
                    return
                last = hit[0]
            keys = [(d["memory_mb"], d["cpu_percent"]) for d in data]
            if len(set(keys)) != len(keys):
                self.fail("sample", "a sample is recorded twice: %r" % keys)
                return
        times = sorted(by[k][1][0] for k in self.entries)
        for c in self.ctl:
            if c["e"] is None:
                self.fail("stuck", "%s_monitoring did not return" % c["k"])
                return
            if c["k"] == "stop":
                n = 1 + sum(1 for d in self.ctl if d is not c and d["s"] < c["e"] and d["e"] > c["s"])
                lim = n * (self.scn["maxint"] + self.slow) + 0.01
                if c["te"] - c["ts"] > lim:
                    self.fail("slow-stop", "stop_monitoring took %.3f s of simulated time with an interval of %s s" % (
                        c["te"] - c["ts"], self.scn["maxint"]))
                    return
        self.windows(times)

    def windows(self, times):
        """States of the monitor between control calls that are certain."""
        ctl = sorted(self.ctl, key=lambda c: c["s"])
        marks = sorted([(c["e"], c["te"], c) for c in ctl], key=lambda x: x[0])
        for e, te, c in marks:
            # certain state after call c: no pending control call, no later-starting opposite call overlapped it
            if any(d["s"] < e < d["e"] for d in ctl):
                continue
            before = [d for d in ctl if d["e"] <= e]
            nxt = min([d["s"] for d in ctl if d["s"] > e], default=None)
            tn = next((d["ts"] for d in ctl if d["s"] == nxt), None) if nxt is not None else self.end
            starts = [d for d in before if d["k"] == "start"]
            stops = [d for d in before if d["k"] == "stop"]
            lastb = max([d["e"] for d in stops], default=0)
            lasts = max([d["e"] for d in starts], default=0)
            on = any(d["s"] > lastb for d in starts)
            off = any(d["s"] > lasts for d in stops) or not starts
            if on and not off:
                self.on_window(te, tn, [d for d in starts if d["e"] > lastb], times)
            elif off:
                inside = [s for s in self.snaps if s[0] > e and (nxt is None or s[0] < nxt)]
                # snapshots taken by a call pending elsewhere do not exist here: nothing is pending
                if inside:
                    first = inside[0][2]
                    for s in inside[1:]:
                        if s[2] != first:
                            self.fail("after-stop", "%d samples right after stop_monitoring returned, %d at %.3f s later" % (
                                len(first), len(s[2]), s[1] - inside[0][1]))
                            return
                    for s in inside[:1]:
                        self.env.probe("off_window")

    def on_window(self, t0, t1, starts, times):
        ivs = {d["interval"] for d in starts}
        lo_i, hi_i = min(ivs), max(ivs)
        D = t1 - t0
        n = sum(1 for t in times if t0 < t <= t1)
        if n > math.floor(D / lo_i) + 2 + math.ceil(self.nslow / lo_i):
            self.fail("too-many", "%d samples were taken in %.3f s with an interval of %s s" % (n, D, lo_i))
            return
        # a failed reading ends sampling until the next start
        errs = [x for x in METER.errors if x <= t1]
        begin = min(d["ts"] for d in starts)
        alive = max(d["ts"] for d in starts)
        if any(x >= begin - 0.001 for x in errs):
            if not all(x < alive - 0.001 for x in errs):
                return
            t0 = max(d["te"] for d in starts if d["ts"] == alive)
            D = t1 - t0
            n = sum(1 for t in times if t0 - 0.001 < t <= t1)
            self.env.probe("restart_after_failure")
        want = math.floor(D / (hi_i + self.slow + 0.001)) - 1
        if n < want:
            self.fail("too-few", "%d samples were recorded in %.3f s with an interval of %s s (errors at %r)" % (
                n, D, hi_i, errs))
            return
        self.env.probe("on_window")

    def run(self):
        env, scn = self.env, self.scn
        METER.reset(env, scn["plan"])
        try:
            env.step(0, "monitor")
            thr = {}
            for i, op in enumerate(scn["ops"]):
                thr.setdefault(op[-1], []).append((i, op[:-1]))
            thr = thr or {0: []}
            self.single = len(thr) == 1
            self.left = len(thr)
            s = run_threads(env, scn, [lambda o=o: self.body(o) for _, o in sorted(thr.items())], max_steps=600_000)
            self.end = self.now()
            if s.problem:
                env.fail("stuck", s.problem)
            elif not env.findings:
                self.judge()
            return s
        finally:
            METER.reset(None, {})


class C19(Prop):
    id = "C19"
    rule = ("seeded start, stop, sleep, read and summary calls of 1-3 threads on one monitor, with intervals of 0.01-4000 s, "
            "slow and failing readings and forward clock jumps in simulated time; non-trivial: a reading failed or the "
            "monitor ran for several intervals or was restarted")
    assumptions = ["the wall clock does not go back; the sampler may end after a failed reading until the next start; "
                   "concurrent callers use the same interval"]
    real = ["valori.utils.batch_manager.ResourceMonitor", "threading.Thread semantics (simulated scheduling)"]
    stubs = ["psutil.Process (unique, slow or failing readings)", "clock and sleep", "thread scheduler"]
    quick = (60000, 25)
    thorough = (3000000, 600)

    def gen(self, rng, tier, seed):
        nthr = rng.choice([1, 1, 1, 2, 3])
        iv = rng.choice([0.01, 0.1, 0.5, 1.0, 1.0, 5.0]) if rng.random() < 0.9 else rng.choice([30.0, 120.0, 4000.0])
        ops = []
        w = {"start": 4, "stop": rng.choice([2, 4]), "sleep": 4, "summary": rng.choice([0, 1, 2]),
             "read": rng.choice([0, 1]), "jump": rng.choice([0, 0, 0.5])}
        big = 14 if tier == "quick" else 40
        ivs = [iv]
        for _ in range(rng.randint(2, big)):
            k = rng.choices(list(w), list(w.values()))[0]
            t = rng.randrange(nthr)
            if k == "start":
                i = iv if nthr > 1 or rng.random() < 0.6 else rng.choice([iv / 2, iv * 2, iv])
                ivs.append(i)
                ops.append([k, i, t])
            elif k == "sleep":
                m = rng.choice([0, 0.3, 0.5, 1, 1.5, 2, 5, 10.5, 20])
                if rng.random() < 0.02:
                    m = rng.choice([120, 300, 1200])
                ops.append([k, round(iv * m, 4), t])
            elif k == "jump":
                ops.append([k, rng.choice([0.5, 10.0, 3600.0, 1e7]), t])
            else:
                ops.append([k, t])
        plan = {}
        if rng.random() < 0.5:
            for _ in range(rng.randint(1, 3)):
                plan[str(rng.choice([0, 1, 2, 3, 5, 8, 13]))] = (
                    {"fail": rng.choice(["memory", "cpu"])} if rng.random() < 0.6 else
                    {"sleep": round(iv * rng.choice([0.1, 0.5, 1, 3]), 4)})
        if rng.random() < 0.1:
            plan["open"] = [rng.choice([0, 0, 1])]
        return {"seed": seed, "ops": ops, "plan": plan, "maxint": max(ivs), "sched": rsched(rng), "faults": []}

    def run(self, scn, keep_log=False, kinds=False):
        env = Env(scn, keep_log)
        with env:
            s = MonitorWorld(env, scn).run()
        return conc_outcome(env, s)

    def nontrivial(self, scn, out):
        return bool(out.fired) or out.probes.get("on_window", 0) > 0

    def shrink_values(self, scn):
        import copy
        for k in list(scn["plan"]):
            c = copy.deepcopy(scn)
            del c["plan"][k]
            yield c


PROPS = [C19()]

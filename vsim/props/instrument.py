"""C26: profiling, timing, debugging, progress and inspection tools change nothing they observe."""
import copy
import functools
import json
import sys

import numpy as np

from .. import gens
from ..conc import conc_outcome, rsched, run_threads
from ..core import Env, canon, error_fault, place_faults, run_op, scribble
from ..ctx import SimCrash
from ..models import METER
from ..prop import Prop

MB = 1024 * 1024


class Stop(BaseException):
    """Stands for KeyboardInterrupt: an exception outside Exception."""


def excs():
    from valori.exceptions import StorageError
    return [ValueError, ImportError, ModuleNotFoundError, KeyError, MemoryError, StopIteration, OSError, StorageError, Stop,
            ZeroDivisionError, TypeError, AttributeError, TimeoutError, RuntimeError, AssertionError]


class InstrWorld:
    def __init__(self, env, scn):
        from valori.utils.debugging import PerformanceProfiler, QueryAnalyzer
        self.env, self.scn = env, scn
        self.prof = [PerformanceProfiler() for _ in range(2)]
        self.blocks = [{}, {}]          # name -> [(outer start, inner start, inner end, outer end, memory delta)]
        self.queries = QueryAnalyzer()
        self.qs = []
        self.ix = None
        self.mt = scn["conc"]

    def fail(self, sig, msg):
        self.env.fail(sig, msg)

    def now(self):
        return self.env.clock.mono

    # -- the function under observation ---------------------------------------
    def target(self, spec):
        import time
        world = self
        box = {"calls": 0, "args": None}
        val = {"array": np.arange(3.0), "none": None, "dict": {"a": [1]}, "big": np.zeros((5, 2)), "func": len,
               "false": False}[spec["ret"]]
        exc = excs()[spec["exc"]]("injected %d" % spec["exc"]) if spec["exc"] is not None else None

        def f(*a, **k):
            box["calls"] += 1
            box["args"] = (a, k)
            box["t0"] = world.now()
            if spec["sleep"]:
                time.sleep(spec["sleep"])
            box["t1"] = world.now()
            if exc is not None:
                raise exc
            return val
        if spec["kind"] == "partial":
            g = functools.partial(f)
        elif spec["kind"] == "object":
            class C:
                def __call__(self, *a, **k):
                    return f(*a, **k)
            g = C()
        else:
            g = f
        return g, box, val, exc

    def guard(self, fn):
        """The outcome of a call, exceptions outside Exception included."""
        try:
            return "ok", fn()
        except SimCrash:
            raise
        except (Exception, Stop) as e:
            return "err", e

    def judge(self, what, box, val, exc, got, n=1):
        r, v = got
        if box["calls"] != n:
            self.fail("calls", "%s ran the function %d times" % (what, box["calls"]))
        elif exc is None and (r != "ok" or v is not val):
            self.fail("outcome", "%s: %s instead of the function's result" % (
                what, "raised %s: %s" % (type(v).__name__, v) if r == "err" else "returned %r" % (v,)))
        elif exc is not None and v is not exc:
            self.fail("outcome", "%s: %s %r instead of the function's own exception %r" % (
                what, "raised" if r == "err" else "returned", v, exc))

    def op_call(self, op):
        from valori.utils.debugging import debug_function
        from valori.utils.helpers import memory_usage_decorator, timing_decorator
        dec = {"time": timing_decorator, "memory": memory_usage_decorator, "debug": debug_function}
        g, box, val, exc = self.target(op[1])
        for d in op[2]:
            g = dec[d](g)
        args, kw = [((np.ones(2),), {"key": {"z": [1]}}), ((np.ones(2), "x"), {}), ((), {}), ((), {"n": 1})][op[3]]
        got = self.guard(lambda: g(*args, **kw))
        self.judge("+".join(op[2]) + " over a %s" % op[1]["kind"], box, val, exc, got)
        if box["calls"] == 1 and not (len(box["args"][0]) == len(args) and set(box["args"][1]) == set(kw) and all(
                x is y for x, y in zip(box["args"][0], args)) and all(box["args"][1][x] is kw[x] for x in kw)):
            self.fail("arguments", "the function got other arguments")

    def op_measure(self, op):
        g, box, val, exc = self.target(op[1])
        k, name = op[2], op[3]
        t0, n0 = self.now(), len(METER.readings)

        def fn():
            with self.prof[k].measure(name):
                return g()
        got = self.guard(fn)
        self.judge("measure", box, val, exc, got)
        if box["calls"] == 1:
            mem = None
            if not self.mt and self.scn["psutil"] == "ok":
                rs = [x[2] for x in METER.readings[n0:] if x[2] is not None]
                if len(rs) >= 2:
                    mem = (rs[-1] - rs[0]) / MB
            self.blocks[k].setdefault(name, []).append((t0, box["t0"], box["t1"], self.now(), mem))
            self.env.probe("measured")

    def op_summary(self, op, quiet=True):
        k = op[1]
        r, v = run_op(self.env, self.prof[k].get_summary)
        if r != "ok":
            self.fail("raise", "get_summary raised %s: %s" % (type(v).__name__, v))
            return None
        if not self.mt or quiet == "final":
            self.check_summary(k, v)
            if self.scn["careless"]:
                scribble(v)
        return v

    def check_summary(self, k, v):
        B = self.blocks[k]
        if set(v) != set(B):
            self.fail("summary", "the summary covers %s, measured were %s" % (sorted(v), sorted(B)))
            return
        for name, b in B.items():
            s = v[name]
            if s["count"] != len(b):
                self.fail("summary", "%r: count %r after %d measured blocks" % (name, s["count"], len(b)))
                return
            d = s["duration"]
            lo, hi = [x[2] - x[1] for x in b], [x[3] - x[0] for x in b]
            for what, a, z in (("min", min(lo), min(hi)), ("max", max(lo), max(hi)), ("total", sum(lo), sum(hi)),
                               ("avg", sum(lo) / len(b), sum(hi) / len(b))):
                if not a - 1e-4 <= d[what] <= z + 1e-4:
                    self.fail("summary", "%r: %s duration %r, the blocks took between %r and %r" % (name, what, d[what], a, z))
                    return
            m = s["memory"]
            if all(x[4] is not None for x in b):
                w = [x[4] for x in b]
                for what, y in (("min", min(w)), ("max", max(w)), ("total", sum(w)), ("avg", sum(w) / len(w))):
                    if abs(m[what] - y) > 1e-6 * (1 + abs(y)):
                        self.fail("summary", "%r: %s memory %r, the readings give %r" % (name, what, m[what], y))
                        return

    def op_print(self, op):
        r, v = run_op(self.env, self.prof[op[1]].print_summary)
        if r != "ok":
            self.fail("raise", "print_summary raised %s: %s" % (type(v).__name__, v))

    def op_report(self, op):
        env = self.env
        path = "/simfs/report%d.json" % op[1]
        a = copy.deepcopy(self.prof[op[1]].get_summary()) if not self.mt else None
        r, v = run_op(env, lambda: self.prof[op[1]].save_report(path))
        if r != "ok":
            if not env.fired_in_op():
                self.fail("raise", "save_report raised %s: %s" % (type(v).__name__, v))
            return
        if self.mt:
            return
        with env.quiet():
            try:
                with open(path) as f:
                    got = json.load(f)
            except Exception as e:
                self.fail("report", "the saved report cannot be read: %s" % e)
                return
        if canon(got.get("summary")) != canon(json.loads(json.dumps(a))):
            self.fail("report", "the saved report says %r, the summary is %r" % (got.get("summary"), a))
        env.probe("report")

    # -- query analyzer ------------------------------------------------------
    def op_query(self, op):
        q, dists, k, t = np.array(op[1], "<f4"), op[2], op[3], op[4]
        res = [{"id": str(i), "distance": d, "metadata": {}} for i, d in enumerate(dists)]
        was = canon(res)
        r, v = run_op(self.env, lambda: self.queries.analyze_query(q, res, k, t))
        if r != "ok":
            self.fail("raise", "analyze_query raised %s: %s" % (type(v).__name__, v))
            return
        self.qs.append((len(dists), t))
        if canon(res) != was:
            self.fail("argument", "analyze_query changed the results")
        s = v["result_stats"]
        if s["count"] != len(dists) or s["expected_count"] != k or (
                dists and (abs(s["distance_min"] - min(dists)) > 1e-9 or abs(s["distance_max"] - max(dists)) > 1e-9)):
            self.fail("query", "analyze_query of distances %s, k=%d says %r" % (dists, k, s))

    def op_patterns(self, op, final=False):
        r, v = run_op(self.env, self.queries.analyze_query_patterns)
        if r != "ok":
            self.fail("raise", "analyze_query_patterns raised %s: %s" % (type(v).__name__, v))
            return
        if (self.mt and not final) or not self.qs:
            return
        n, t = [x[0] for x in self.qs], [x[1] for x in self.qs]
        if v["total_queries"] != len(n) or v["result_count"]["min"] != min(n) or v["result_count"]["max"] != max(n) or \
                abs(v["search_time"]["mean"] - sum(t) / len(t)) > 1e-6 or abs(v["search_time"]["max"] - max(t)) > 1e-9 or \
                abs(v["search_time"]["min"] - min(t)) > 1e-9 or abs(v["result_count"]["mean"] - sum(n) / len(n)) > 1e-6:
            self.fail("patterns", "analyze_query_patterns after %s says %r" % (self.qs, v))

    def op_progress(self, op):
        """A progress bar over any amount of work."""
        import time
        from valori.utils.batch_manager import ProgressTracker

        def fn():
            p = ProgressTracker(op[1], "w")
            for n, s in op[2]:
                if s:
                    time.sleep(s)
                p.update(n)
            p.finish()
        r, v = run_op(self.env, fn)
        if r != "ok":
            self.fail("raise", "a progress tracker over %d items raised %s: %s" % (op[1], type(v).__name__, v))

    # -- inspector -----------------------------------------------------------
    def mkindex(self, kind):
        from valori.indices import AnnoyIndex, FlatIndex, HNSWIndex, IVFIndex, LSHIndex
        cfg = {"flat": {"metric": "euclidean"}, "hnsw": {"metric": "euclidean"}, "ivf": {"n_clusters": 2, "n_probes": 2},
               "lsh": {"metric": "cosine", "num_hash_tables": 3, "hash_size": 2, "threshold": 0.0},
               "annoy": {"metric": "angular", "num_trees": 3}}[kind]
        return {"flat": FlatIndex, "hnsw": HNSWIndex, "ivf": IVFIndex, "lsh": LSHIndex, "annoy": AnnoyIndex}[kind](cfg)

    def op_index(self, op):
        from valori.storage import MemoryStorage
        env = self.env
        k = op[1]
        if k == "new":
            self.ix = self.mkindex(op[2])
            self.live, self.on, self.kind, self.sealed = [], False, op[2], False
        elif self.ix is None:
            return
        elif k == "init" and not self.on:
            st = MemoryStorage({})
            st.initialize()
            r, v = run_op(env, lambda: self.ix.initialize(st))
            if r == "ok":
                self.live, self.on, self.sealed = [], True, False
        elif k == "insert":
            r, v = run_op(env, lambda: self.ix.insert(np.array(op[2], "<f4"), [{"n": j} for j in range(len(op[2]))]))
            if r == "ok":
                self.live += list(v)
        elif k == "delete" and self.live:
            i = self.live[op[2] % len(self.live)]
            r, v = run_op(env, lambda: self.ix.delete([i]))
            if r == "ok":
                self.live = [x for x in self.live if x != i]
        elif k == "build" and self.kind == "annoy":
            run_op(env, self.ix.build)
        elif k == "close":
            r, v = run_op(env, self.ix.close)
            self.on, self.live = False, []

    def found(self):
        out = []
        for q in ([1.0, 0.0], [-1.0, 2.0]):
            r, v = run_op(self.env, lambda: self.ix.search(np.array(q, "<f4"), k=5))
            out.append(canon([(h["id"], h["metadata"], float(h["distance"])) for h in v]) if r == "ok" else "err")
        return out

    def op_inspect(self, op):
        from valori.utils.debugging import IndexInspector
        if self.ix is None:
            return
        a = self.found()
        r, v = run_op(self.env, IndexInspector(self.ix).inspect_index)
        if r != "ok":
            self.fail("raise", "inspecting a %s index of %d vectors raised %s: %s" % (
                self.kind, len(self.live), type(v).__name__, v))
            return
        r2, v2 = run_op(self.env, IndexInspector(self.ix).print_inspection)
        if r2 != "ok":
            self.fail("raise", "print_inspection raised %s: %s" % (type(v2).__name__, v2))
            return
        if v["type"] != type(self.ix).__name__ or bool(v["initialized"]) != self.on:
            self.fail("inspect", "a %s index (%s) is described as %r, initialized=%r" % (
                type(self.ix).__name__, "open" if self.on else "not initialized", v["type"], v["initialized"]))
        if "vector_info" in v and self.on and v["vector_info"]["count"] != len(self.live):
            self.fail("inspect", "a %s index of %d vectors is described with %r" % (
                self.kind, len(self.live), v["vector_info"]))
        b = self.found()
        if a != b:
            self.fail("inspect", "inspecting the %s index changed its answers" % self.kind)
        self.env.probe("inspected_%s" % self.kind if self.live else "inspected_empty")

    def body(self, ops):
        for i, op in ops:
            if self.env.findings:
                return
            self.env.log.add("iop", i, op[0])
            getattr(self, "op_" + op[0])(op)

    def run(self):
        env, scn = self.env, self.scn
        METER.reset(env, scn["plan"])
        saved = sys.modules["psutil"]
        sched = None
        if scn["psutil"] == "missing":
            sys.modules["psutil"] = None
        try:
            if self.mt:
                env.step(0, "conc")
                threads = {}
                for i, op in enumerate(scn["ops"]):
                    threads.setdefault(op[0], []).append((i, op[1:]))
                sched = run_threads(env, scn, [lambda t=t: self.body(threads[t]) for t in sorted(threads)])
                if sched.problem:
                    env.fail("stuck", sched.problem)
                env.probe("concurrent")
            else:
                for i, op in enumerate(scn["ops"]):
                    env.step(i, op[1])
                    self.body([(i, op[1:])])
                    env.fs.clear_errors()
                    if env.findings:
                        return sched
            if not env.findings:
                env.step(len(scn["ops"]), "audit")
                for k in (0, 1):
                    self.op_summary(["summary", k], "final")
                self.op_patterns(None, True)
                self.mt = False
                for k in (0, 1):
                    if not env.findings:
                        self.op_report(["report", k])
        finally:
            sys.modules["psutil"] = saved
            METER.reset(None, {})
        return sched


class C26(Prop):
    id = "C26"
    real = ["valori.utils.debugging", "decorators of valori.utils.helpers", "ProgressTracker", "the five indices below the inspector"]
    stubs = ["psutil readings (unique values, stalls, failures, library missing)", "clock", "file system (in-memory)"]
    assumptions = ["standard output accepts everything; no clock jumps inside a measured block; memory figures are judged only when "
                   "every reading succeeded and no other thread measured"]
    rule = ("seeded sequences and 2-3 threads of decorated functions, measured blocks, summaries, reports, query analyses, progress bars "
            "and index inspections with functions that return, raise or sleep and psutil missing, stalling or failing; non-trivial: "
            "a reading or file call failed, psutil is missing, a function raised, or threads ran")
    quick = (60000, 25)
    thorough = (2000000, 600)

    def gen(self, rng, tier, seed):
        conc = rng.random() < 0.4
        nthr = rng.choice([2, 3]) if conc else 1

        def spec():
            return {"ret": rng.choice(["array", "none", "dict", "big", "func", "false"]),
                    "exc": rng.randrange(15) if rng.random() < 0.4 else None,
                    "sleep": rng.choice([0, 0, 0.001, 0.5, 20.0]), "kind": rng.choice(["plain", "plain", "plain", "partial", "object"])}
        names = ["insert", "search", "a b", "é", ""]
        names = rng.sample(names, rng.choice([1, 2, 3]))
        ops = []
        focus = rng.choice(["call", "measure", "index", "query", "mix"])
        w = {"call": [5, 1, .5, .2, .2, 0, 0, .5, 0, 0], "measure": [1, 6, 2, .5, 1, 0, 0, 0, 0, 0],
             "index": [.3, .3, 0, 0, 0, 0, 0, 0, 6, 3], "query": [0, .3, 0, 0, 0, 5, 2, 1, 0, 0],
             "mix": [2, 3, 1, .5, .5, 1, .5, 1, 2, 1]}[focus]
        kinds = ["call", "measure", "summary", "print", "report", "query", "patterns", "progress", "index", "inspect"]
        if focus in ("index", "mix"):
            ik = rng.choice(["flat", "hnsw", "ivf", "lsh", "annoy"])
            ops.append([0, "index", "new", ik])
            if rng.random() < 0.8:
                ops.append([0, "index", "init"])
        todo = [None] * rng.choice([3, 6, 10, 16])
        if not conc and rng.random() < 0.008:
            at = rng.randrange(len(todo))
            todo[at:at] = [rng.choice(["measure", "measure", "query"])] * rng.choice([30, 70, 110, 280])
        for k in todo:
            k = k or rng.choices(kinds, w)[0]
            if conc and k in ("index", "inspect"):
                k = "measure"
            op = [rng.randrange(nthr), k]
            if k == "call":
                op += [spec(), [rng.choice(["time", "memory", "debug"]) for _ in range(rng.choice([1, 1, 2, 3]))],
                       rng.choice([0, 0, 1, 1, 2, 3])]
            elif k == "measure":
                op += [spec(), rng.choice([0, 0, 0, 1]), rng.choice(names)]
            elif k in ("summary", "print", "report"):
                op += [rng.choice([0, 0, 0, 1])]
            elif k == "query":
                op += [[gens.rcoord(rng), gens.rcoord(rng)], [round(rng.random() * 3, 3) for _ in range(rng.choice([0, 1, 2, 5]))],
                       rng.choice([1, 5, 10]), round(rng.random(), 4)]
            elif k == "progress":
                op += [rng.choice([0, 1, 3, 10]), [[rng.choice([1, 1, 2, 0]), rng.choice([0, 0.3, 1.5])]
                                                   for _ in range(rng.choice([0, 1, 3, 6]))]]
            elif k == "index":
                a = rng.choices(["insert", "delete", "build", "init", "close", "new"], [5, 2, 1, .5, .5, .3])[0]
                op += [a]
                if a == "insert":
                    op += [[[gens.rcoord(rng), gens.rcoord(rng)] for _ in range(rng.choice([1, 2, 5]))]]
                elif a == "delete":
                    op += [rng.randrange(5)]
                elif a == "new":
                    op += [rng.choice(["flat", "hnsw", "ivf", "lsh", "annoy"])]
            ops.append(op)
        r = rng.random()
        scn = {"seed": seed, "ops": ops, "conc": conc, "faults": [], "psutil": "ok" if r < .5 else "missing" if r < .65 else "failing",
               "plan": {}, "careless": rng.random() < 0.3, "buf": 8192}
        if scn["psutil"] == "failing":
            for _ in range(rng.choice([1, 2, 4])):
                scn["plan"][str(rng.randrange(12))] = rng.choice([{"fail": "memory"}, {"fail": "memory"}, {"sleep": 3.0}])
            scn["plan"]["open"] = [rng.randrange(8)] if rng.random() < 0.5 else []
        if conc:
            scn["sched"] = rsched(rng)
        elif rng.random() < 0.5:
            dry = self.run(scn, kinds=True)
            scn["faults"] = place_faults(rng, dry.counts, dry.kinds, [error_fault(rng)],
                                         [o for o in range(len(ops)) if ops[o][1] == "report"])
        return scn

    def run(self, scn, keep_log=False, kinds=False):
        env = Env(scn, keep_log)
        env.fs.record_kinds = kinds
        with env:
            sched = InstrWorld(env, scn).run()
        return conc_outcome(env, sched)

    def nontrivial(self, scn, out):
        return bool(out.fired or scn["conc"] or scn["psutil"] != "ok" or
                    any(op[1] in ("call", "measure") and op[2]["exc"] is not None for op in scn["ops"]))

    def shrink_values(self, scn):
        for j in [k for k in scn["plan"] if k != "open"]:
            c = copy.deepcopy(scn)
            del c["plan"][j]
            yield c
        for i, op in enumerate(scn["ops"]):
            if op[1] in ("call", "measure"):
                for k, v in (("sleep", 0), ("ret", "none"), ("kind", "plain"), ("exc", None)):
                    if op[2][k] != v:
                        c = copy.deepcopy(scn)
                        c["ops"][i][2][k] = v
                        yield c
        if scn["careless"]:
            yield dict(copy.deepcopy(scn), careless=False)


PROPS = [C26()]

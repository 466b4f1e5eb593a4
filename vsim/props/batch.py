"""C14, C15: batch operations over a client that fails, stalls and answers late."""
import numpy as np

from .. import gens
from ..conc import conc_outcome, rsched, run_threads
from ..core import Env, Outcome, canon, error_fault, place_faults, run_op, vkey
from ..prop import Prop
from .client import make_client

REAL = ["valori.utils.batch_manager", "valori.client", "valori.storage.*", "valori.indices.*",
        "concurrent.futures.ThreadPoolExecutor"]


class Oops(Exception):
    """An error of a class the library does not know."""


class Tap:
    """The client as the batch manager sees it: some calls fail (before or after taking
    effect), some take long; every call is recorded."""

    def __init__(self, env, client, plan):
        self.env, self.client = env, client
        self.plan = plan            # first coordinate -> {"when", "sleep"}
        self.calls = []             # insert: [rows, metas, "ok"/"err", ids/exception]
        self.searches = []

    def _fault(self, f, when):
        import time
        if f is None:
            return
        if f.get("sleep"):
            time.sleep(f["sleep"])
        if f.get("when") == when:
            self.env.fs.fired["client_error"] = self.env.fs.fired.get("client_error", 0) + 1
            raise [Oops, ValueError, KeyError, RuntimeError][f.get("cls", 0)]("injected client failure")

    def insert(self, vectors, metadata=None):
        rows = [float(r[0]) for r in vectors]
        rec = [rows, metadata, None, None]
        self.calls.append(rec)
        f = self.plan.get(rows[0]) if rows else None
        try:
            self._fault(f, "before")
            ids = self.client.insert(vectors, metadata)
            self._fault(f, "after")
        except Exception as e:
            rec[2], rec[3] = "err", e
            raise
        rec[2], rec[3] = "ok", list(ids)
        return ids

    def search(self, query_vector, k=10):
        rec = [np.array(query_vector), None, None]
        self.searches.append(rec)
        f = self.plan.get(float(np.ravel(query_vector)[0]))
        try:
            self._fault(f, "before")
            r = self.client.search(query_vector, k)
            self._fault(f, "after")
        except Exception as e:
            rec[1], rec[2] = "err", e
            raise
        rec[1], rec[2] = "ok", r
        return r

    def __getattr__(self, name):
        return getattr(self.client, name)


class BatchWorld:
    def __init__(self, env, scn):
        self.env, self.scn = env, scn
        self.client = make_client(env, scn)
        self.accepted = {}      # id -> (row vector, metadata)
        self.given = {}         # first coordinate -> (vector, metadata) of everything ever passed in
        self.lost = False

    def fail(self, sig, msg):
        self.env.fail(sig, msg)

    def rows(self, spec):
        X = np.array(spec["x"], dtype="<f4")
        for j in spec.get("bad", []):
            X[j, 1] = np.nan
        return X

    def data_of(self, d):
        """The vectors in what the error callback got (array, single query or batch record)."""
        if isinstance(d, dict):
            d = d.get("vectors")
        if isinstance(d, (tuple, list)) and len(d) == 2 and isinstance(d[0], np.ndarray) and d[0].ndim == 2:
            d = d[0]
        return np.asarray(d)

    def one(self, i, op, mgr):
        """One call into a batch manager and everything there is to say about it."""
        from valori.utils.batch_manager import BatchManager
        env, scn = self.env, self.scn
        kind, spec = op[0], op[1]
        bs = spec["bs"]
        if mgr is None:
            mgr = BatchManager(batch_size=bs, max_workers=spec.get("workers", 4))
        tap = Tap(env, self.client, {float(f["row"]): f for f in spec.get("plan", [])})
        prog, errs = [], []
        if spec.get("pcb", True):
            mgr.set_progress_callback(lambda a, b: prog.append((a, b)))
        if spec.get("ecb", True):
            mgr.set_error_callback(lambda e, d: errs.append((e, d)))
        X = self.rows(spec)
        n = len(X)
        show = spec.get("show", False)
        if kind == "search":
            k = spec["k"]
            r, v = run_op(env, lambda: mgr.batch_search(tap, X, k, show))
        else:
            metas = [m for m in spec["meta"]]
            for x, m in zip(X, metas + [None] * n):
                self.given[float(x[0])] = (x.copy(), m)
            fn = mgr.batch_insert if kind == "insert" else mgr.parallel_batch_insert
            r, v = run_op(env, lambda: fn(tap, X, metas, show))
        env.log.add("batch", kind, r, len(tap.calls), len(prog), len(errs))
        if r == "crash":
            return mgr
        if r == "err":
            self.fail("raise", "batch %s raised %s: %s" % (kind, type(v).__name__, v))
            return mgr
        if kind == "search":
            self.judge_search(op, tap, X, v, errs)
            okn = sum(1 for s in tap.searches if s[1] == "ok")
        else:
            okn = self.judge_insert(op, tap, X, metas, v, errs)
        self.judge_counts(kind, mgr, n, okn, prog, spec)
        return mgr

    # -- oracles -------------------------------------------------------------
    def judge_insert(self, op, tap, X, metas, ids, errs):
        kind, spec = op[0], op[1]
        bs, n = spec["bs"], len(X)
        want = [float(x[0]) for x in X]
        calls = tap.calls
        if kind != "insert":
            order = {c[0][0]: c for c in calls if c[0]}
            calls = [order[x] for x in want if x in order]
        got = [x for c in calls for x in c[0]]
        if got != want or len(calls) != len(tap.calls) or any(len(c[0]) > bs for c in calls):
            self.fail("batches", "rows %s with batch size %d were passed to the client as %s" % (
                want, bs, [c[0] for c in tap.calls]))
            return 0
        pos = 0
        exp, okn = [], 0
        bad = []
        for c in calls:
            m = metas[pos:pos + len(c[0])]
            if canon(list(c[1] or [])) != canon(m):
                self.fail("metadata", "rows %s were passed with metadata %r instead of %r" % (c[0], c[1], m))
            if c[2] == "ok":
                exp += list(zip(c[3], range(pos, pos + len(c[0]))))
                okn += len(c[0])
            else:
                bad.append(c)
            pos += len(c[0])
        try:
            lst = list(ids)
        except TypeError:
            lst = None
        if lst is None or [str(a) for a in lst] != [str(a) for a, _ in exp]:
            self.fail("ids", "%s returned %r, the accepted batches got %r" % (kind, ids, [a for a, _ in exp]))
        for id, j in exp:
            if id in self.accepted:
                self.fail("duplicate-id", "id %r was returned twice" % (id,))
            self.accepted[id] = (X[j].copy(), metas[j] if j < len(metas) else None)
        if spec.get("ecb", True):
            self.judge_errors(errs, [(c[3], np.array(c[0])) for c in bad], "insert")
        return okn

    def judge_errors(self, errs, bad, what):
        got = []
        for e, d in errs:
            try:
                a = self.data_of(d)
                if what == "insert":
                    a = np.atleast_2d(a)[:, 0]
                got.append((e, np.array(a, float)))
            except Exception as x:
                self.fail("error-data", "the error callback got %r (%s)" % (d, x))
                return
        left = list(bad)
        for e, a in got:
            for t in left:
                b = np.array(t[1], float)
                if a.shape == b.shape and np.array_equal(a, b, equal_nan=True) and (
                        e is t[0] or getattr(e, "__cause__", None) is t[0]):
                    left.remove(t)
                    break
            else:
                self.fail("error-callback", "the error callback was called with %r and rows %s, but the failures were %s"
                          % (e, a.tolist(), [(repr(x), np.asarray(y).tolist()) for x, y in bad]))
                return
        if left:
            self.fail("error-callback", "no error callback for the failed %s %s" % (
                what, [np.asarray(y).tolist() for _, y in left]))

    def judge_search(self, op, tap, X, v, errs):
        spec = op[1]
        n = len(X)
        if not isinstance(v, list) or len(v) != n:
            self.fail("result-count", "batch_search of %d queries returned %r" % (n, v if not isinstance(v, list) else len(v)))
            return
        if len(tap.searches) != n or any(not np.array_equal(s[0], x, equal_nan=True)
                                         for s, x in zip(tap.searches, X)):
            self.fail("batches", "the queries passed to the client are not the given ones in order")
            return
        for j, s in enumerate(tap.searches):
            want = self.show(s[2]) if s[1] == "ok" else "[]"
            if self.show(v[j]) != want:
                self.fail("result", "query %d got %s, the client answered %s" % (j, self.show(v[j]), want))
        if spec.get("ecb", True):
            self.judge_errors(errs, [(s[2], s[0]) for s in tap.searches if s[1] == "err"], "query")

    def show(self, r):
        try:
            return canon([{k: x[k] for k in sorted(x)} for x in r]) if r else "[]"
        except Exception:
            return repr(r)

    def judge_counts(self, kind, mgr, n, okn, prog, spec):
        for a, b in zip(prog, prog[1:]):
            if b[0] < a[0]:
                self.fail("progress", "progress went back from %s to %s" % (a, b))
        if not spec.get("fresh"):
            return
        if any(a > b or a < 0 or b != n for a, b in prog):
            self.fail("progress", "progress reports %s for %d items" % (prog, n))
        r, st = run_op(self.env, mgr.get_stats)
        if r != "ok":
            self.fail("raise", "get_stats raised %s" % st)
            return
        if (st.get("total_items"), st.get("processed_items"), st.get("failed_items")) != (n, okn, n - okn):
            self.fail("counts", "%s: %d items, %d accepted, but statistics say total=%s processed=%s failed=%s" % (
                kind, n, okn, st.get("total_items"), st.get("processed_items"), st.get("failed_items")))
        if prog and okn and kind != "search" and prog[-1][0] != okn:
            self.fail("progress", "the last progress report is %s, %d items were processed" % (prog[-1], okn))

    def audit(self):
        env = self.env
        env.fs.clear_errors()
        st = self.client.storage_backend
        with env.quiet():
            r, ids = run_op(env, lambda: list(st.list_vectors()))
            if r != "ok":
                self.fail("raise", "listing failed: %s" % ids)
                return
            seen = {}
            for id in ids:
                r, v = run_op(env, lambda: st.retrieve_vector(id))
                if r != "ok" or v is None:
                    self.fail("stored", "id %r cannot be read: %r" % (id, v))
                    continue
                x = float(v[0][0])
                seen.setdefault(x, []).append(id)
                g = self.given.get(x)
                if g is None or vkey(g[0]) != vkey(np.asarray(v[0], "<f4")) or canon(g[1] or {}) != canon(v[1] or {}):
                    self.fail("stored", "id %r holds %r, which was never passed in" % (id, v))
            acc = {}
            for id, (x, m) in self.accepted.items():
                acc.setdefault(float(x[0]), []).append(id)
            # an LSH index keeps its vectors itself and does not use the storage
            for x, want in acc.items() if self.scn["index"]["type"] != "lsh" else ():
                if sorted(map(str, seen.get(x, []))) != sorted(map(str, want)):
                    self.fail("stored", "vector %s was accepted as %s and is stored as %s" % (x, want, seen.get(x)))
            for id, (x, m) in list(self.accepted.items())[:12]:
                r, R = run_op(env, lambda: self.client.search(x, len(self.given) + 2))
                if r != "ok":
                    self.fail("raise", "search raised %s" % R)
                    return
                hit = [e for e in R if str(e["id"]) == str(id)]
                if len(hit) != 1:
                    self.fail("searchable", "accepted id %r is in %d results of a search for its vector" % (id, len(hit)))
                for e in hit:
                    if canon(e.get("metadata") or {}) != canon(m or {}):
                        self.fail("searchable", "id %r is found with metadata %r instead of %r" % (id, e.get("metadata"), m))

            for op in self.scn["ops"]:
                if op[0] == "search" and not env.findings:
                    self.helper(op[1])

    def helper(self, spec):
        """helpers.batch_search over the index below the client."""
        from valori.utils.helpers import batch_search
        X, k, index = self.rows(spec), spec["k"], self.client.index
        r, want = run_op(self.env, lambda: [index.search(x, k=k) for x in X])
        s, got = run_op(self.env, lambda: batch_search(index, X, k, spec["bs"]))
        if r != s:
            self.fail("helper", "batch_search of %d queries: %r; one by one: %r" % (len(X), got, want))
        elif r == "ok" and (not isinstance(got, list) or [self.show(x) for x in got] != [self.show(x) for x in want]):
            self.fail("helper", "batch_search of %d queries with batch size %d answers %r, one by one they answer %r" % (
                len(X), spec["bs"], got, want))
        else:
            self.env.probe("helper_batch_search")

    def run(self):
        env, scn = self.env, self.scn
        env.step(900, "open")
        r, v = run_op(env, self.client.initialize)
        if r != "ok":
            if r == "err" and not env.fired_in_op():
                env.fail("raise", "initialize raised %s" % v)
            return None
        threads = {}
        for i, op in enumerate(scn["ops"]):
            threads.setdefault(op[1].get("thr", 0), []).append((i, op))

        def body(ops, step):
            mgr = None
            for i, op in ops:
                if step:
                    env.step(i, op[0])
                if op[1].get("fresh"):
                    if mgr is not None and op[1].get("reset"):
                        mgr.reset_stats()
                        mgr.batch_size = op[1]["bs"]
                        mgr.max_workers = op[1].get("workers", 4)
                    else:
                        mgr = None
                elif mgr is not None:
                    mgr.batch_size = op[1]["bs"]
                mgr = self.one(i, op, mgr)
                env.probe(op[0])
                if env.findings:
                    return
        sched = None
        if scn.get("sched") is not None:
            env.step(0, "conc")
            sched = run_threads(env, scn, [lambda ops=o: body(ops, False) for _, o in sorted(threads.items())],
                                max_steps=6_000_000)
            if sched.problem:
                env.fail("stuck", sched.problem)
                return sched
        else:
            for _, o in sorted(threads.items()):
                body(o, True)
        env.step(901, "audit")
        if not env.findings:
            self.audit()
        return sched


def rindex(rng):
    t = rng.choice(["flat", "flat", "flat", "hnsw", "ivf", "lsh"])
    c = {"type": t, "metric": "euclidean"}
    if t == "hnsw":
        c.update(m=200, ef_search=200, ef_construction=200)
    elif t == "ivf":
        c.update(n_clusters=2, n_probes=2)
    elif t == "lsh":
        c.update(metric="cosine", hash_size=2, num_projections=4, num_hash_tables=2, threshold=-2.0, random_seed=1)
    return c


def gen(rng, tier, seed, par):
    dim = rng.choice([2, 2, 3])
    c = [0]
    ops = []
    nthr = 2 if par and rng.random() < 0.25 else 1
    big = 24 if tier == "quick" else 60

    def spec(kind):
        n = rng.choice([0, 1, 2, 3, 5, 8, 13, big] if kind != "pinsert" else [0, 1, 2, 3, 4, 6, 9, 14])
        bs = rng.choice([1, 1, 2, 3, 4, 7, 100])
        if rng.random() < 0.015:
            n = rng.choice([20, 35, 60] if kind == "pinsert" else [40, 70, 105, 130])
            bs = rng.choice([1, 3, 10, 32, 64, 1000])
        x = []
        for _ in range(n):
            c[0] += 1
            x.append([float(c[0])] + [gens.rcoord(rng) for _ in range(dim - 1)])
        s = {"bs": bs, "x": x, "thr": rng.randrange(nthr), "fresh": rng.random() < 0.75,
             "reset": rng.random() < 0.5, "show": rng.random() < 0.4, "pcb": rng.random() < 0.9,
             "ecb": rng.random() < 0.85}
        firsts = [x[j][0] for j in range(0, n, bs)] if kind != "search" else [r[0] for r in x]
        pf = rng.choice([0, 0.2, 0.5, 1])
        ps = rng.choice([0, 0.3, 0.8]) if par else 0
        plan = []
        for a in firsts:
            f = {}
            if rng.random() < pf:
                f["when"] = rng.choice(["before", "before", "after"])
                f["cls"] = rng.randrange(4)
            if rng.random() < ps:
                f["sleep"] = rng.choice([0.001, 0.5, 0.5, 3.0, 50.0, 1000.0, 30000.0])
            if f:
                plan.append(dict(f, row=a))
        s["plan"] = plan
        if n and rng.random() < 0.3:
            s["bad"] = sorted(rng.sample(range(n), rng.choice([1, 1, min(3, n)])))
        if kind == "search":
            s["k"] = rng.choice([1, 3, 10, 100])
            if x and rng.random() < 0.3:
                x[-1] = list(x[0])
        else:
            m = [{"t": r[0], "n": {"u": [r[0]]}} if rng.random() < 0.9 else {} for r in x]
            s["meta"] = m
        if kind == "pinsert":
            s["workers"] = rng.choice([1, 2, 2, 3, 4, 8])
        return s

    kinds = ["pinsert", "pinsert", "pinsert", "insert", "search"] if par else ["insert", "insert", "search"]
    for _ in range(rng.choice([1, 1, 2, 3]) if par else rng.choice([1, 2, 3, 5])):
        k = rng.choice(kinds)
        ops.append([k, spec(k)])
    kind = rng.choice(["memory", "memory", "disk", "hybrid"])
    scn = {"seed": seed, "kind": kind, "limit": 2, "index": rindex(rng), "ops": ops, "faults": [], "sfaults": [],
           "buf": 8192}
    if par:
        scn["sched"] = rsched(rng)
    return scn


class BatchProp(Prop):
    par = False
    real = REAL
    stubs = ["file system (in-memory)", "clock", "client calls that fail or stall are decided by a wrapper"]
    assumptions = ["callbacks do not raise; a client call fails with an Exception; vectors are told apart by their "
                   "first coordinate, which is unique"]
    rule = ("seeded sequences of batch calls of 0-24 vectors in batches of 1-100 over real clients, with calls that "
            "fail before or after taking effect, rejected vectors, I/O errors; non-trivial: some batch or query "
            "failed and some succeeded, or several batches ran")
    quick = (40000, 25)
    thorough = (2000000, 600)

    def gen(self, rng, tier, seed):
        scn = gen(rng, tier, seed, self.par)
        if scn["kind"] != "memory" and rng.random() < 0.5:
            want = [error_fault(rng) for _ in range(rng.choice([1, 2]))]
            dry = self.run(scn, kinds=True)
            scn["faults"] = place_faults(rng, dry.counts, dry.kinds, want, [o for o in dry.counts if 0 <= o < 900])
        return scn

    def run(self, scn, keep_log=False, kinds=False):
        env = Env(scn, keep_log)
        env.fs.record_kinds = kinds
        with env:
            sched = BatchWorld(env, scn).run()
        return conc_outcome(env, sched)

    def nontrivial(self, scn, out):
        return bool(out.fired) or sum(len(o[1]["x"]) > o[1]["bs"] for o in scn["ops"]) > 0

    def shrink_values(self, scn):
        import copy
        for i, op in enumerate(scn["ops"]):
            if op[1].get("plan"):
                for j in range(len(op[1]["plan"])):
                    c = copy.deepcopy(scn)
                    del c["ops"][i][1]["plan"][j]
                    yield c
            if len(op[1]["x"]) > 1 and not op[1].get("bad"):
                c = copy.deepcopy(scn)
                c["ops"][i][1]["x"].pop()
                if "meta" in c["ops"][i][1]:
                    del c["ops"][i][1]["meta"][len(c["ops"][i][1]["x"]):]
                yield c


class C14(BatchProp):
    id = "C14"


class C15(BatchProp):
    id = "C15"
    par = True
    rule = BatchProp.rule + "; 1-8 workers under a seeded scheduler, stalls in simulated time, up to two callers"


PROPS = [C14(), C15()]

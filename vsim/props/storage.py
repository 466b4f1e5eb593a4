"""C01-C04: storage backends against a map model, with crashes and I/O errors."""
import numpy as np

from .. import gens
from ..core import Env, Outcome, canon, crash_fault, dec, error_fault, mkvec, place_faults, run_op, scribble, vkey
from ..model import ABSENT, MapModel
from ..prop import Prop

ROOT = "/simfs/db"


def make_storage(scn):
    from valori.storage.disk import DiskStorage
    from valori.storage.hybrid import HybridStorage
    from valori.storage.memory import MemoryStorage
    k = scn["kind"]
    if k == "memory":
        return MemoryStorage({})
    if k == "disk":
        return DiskStorage({"data_dir": ROOT})
    return HybridStorage({"memory": {}, "disk": {"data_dir": ROOT}, "memory_limit": scn["limit"]})


class StorageWorld:
    def __init__(self, env, scn, checks):
        self.env, self.scn, self.checks = env, scn, checks
        self.model = MapModel()
        self.st = None
        self.dead = False
        self.faulted = False      # an injected error hit some operation of this incarnation

    # -- helpers ------------------------------------------------------------
    def fail(self, sig, msg):
        self.env.fail(sig, msg)

    def storage_error(self, e, what):
        from valori.exceptions import StorageError
        if not self.env.fired_in_op():
            self.fail("raise", "%s raised without any injected fault: %s: %s" % (what, type(e).__name__, e))
        elif not isinstance(e, StorageError):
            self.fail("error-type", "%s raised %s instead of StorageError: %s" % (what, type(e).__name__, e))
        self.faulted = True

    def legacy(self):
        """Entries as earlier versions wrote them: metadata in a file of its own."""
        import io
        import pickle
        fs = self.env.fs
        for id, vs, ms in self.scn.get("legacy", []):
            vec, meta = mkvec(vs), dec(ms)
            b = io.BytesIO()
            np.save(b, vec)
            fs.makedirs_sim(ROOT + "/vectors")
            fs.makedirs_sim(ROOT + "/metadata")
            fs.put_file("%s/vectors/%s.npy" % (ROOT, id), b.getvalue())
            if meta is not None:
                fs.put_file("%s/metadata/%s.pkl" % (ROOT, id), pickle.dumps(meta))
            self.model.ack(id, self.alt(vec, meta))
            self.env.probe("legacy_entry")

    def start(self):
        """Open the storage; retried until it succeeds (crashes may hit recovery)."""
        for attempt in range(6):
            st = make_storage(self.scn)
            r, v = run_op(self.env, st.initialize)
            if r == "crash":
                self.reboot()
                continue
            if r == "err":
                self.storage_error(v, "initialize")
                self.env.fs.clear_errors()
                self.env.open_op(0)
                r, v = run_op(self.env, st.initialize)
                if r == "crash":
                    self.reboot()
                    continue
                if r == "err":
                    if self.env.fired_in_op():
                        continue
                    self.fail("reopen", "initialize fails after the fault is gone: %s" % v)
                    self.dead = True
                    return
            self.st = st
            return
        self.dead = True

    def reboot(self):
        power = bool((self.env.fs.crash_info or {}).get("power"))
        self.env.probe("reboot_power" if power else "reboot_kill")
        self.env.fs.reboot()
        self.model.crashed(power)
        if self.scn["kind"] == "memory":
            self.model = MapModel()
        self.st = None

    def restart(self, i):
        self.reboot()
        self.env.step(1000 + i, "recover")
        self.start()

    # -- operations ---------------------------------------------------------
    def careless(self, *objs):
        """The caller goes on to change objects it passed in or got back."""
        if self.scn.get("mutate"):
            for o in objs:
                scribble(o)

    def alt(self, vec, meta):
        return (vkey(vec), canon(meta))

    def do(self, i, op):
        env = self.env
        env.step(i, op[0], op[1] if len(op) > 1 else "")
        r = getattr(self, "op_" + op[0])(i, op)
        if r == "crash":
            if self.scn["kind"] == "memory":
                return
            self.restart(i)
        if not self.dead and "tier" in self.checks:
            self.check_tiers()

    def op_store(self, i, op, retry=False):
        _, id, vs, ms = op
        vec, meta = mkvec(vs), dec(ms)
        alt = self.alt(vec, meta)
        r, v = run_op(self.env, lambda: self.st.store_vector(id, vec, meta))
        self.careless(vec, meta)
        if not id:
            # no id: refused, one way or the other
            if r == "ok" and v is not False:
                self.fail("store-result", "store_vector(%r) returned %r" % (id, v))
            return r if r == "crash" else None
        if r == "ok":
            if v is not True:
                self.fail("store-result", "store_vector(%r) returned %r" % (id, v))
                self.model.maybe(id, alt)
            else:
                self.model.ack(id, alt)
        else:
            self.model.maybe(id, alt)
            if r == "crash":
                return r
            self.storage_error(v, "store_vector")
            if not retry and self.scn.get("retry"):
                return self.again(i, op)

    def op_bulk(self, i, op):
        """Many stores, to get past any page or batch size."""
        self.env.probe("bulk")
        for j in range(op[2]):
            r = self.op_store(i, ["store", "%s%d" % (op[1], j), {"x": [j / 4, 1.0], "dt": "<f4"}, {"n": j}])
            if r == "crash":
                return r

    def again(self, i, op):
        self.env.fs.clear_errors()
        self.env.open_op(i)
        self.env.probe("retry_after_error")
        return getattr(self, "op_" + op[0])(i, op, True)

    def op_update(self, i, op, retry=False):
        _, id, vs, ms = op
        vec, meta = mkvec(vs), dec(ms)
        alt = self.alt(vec, meta)
        cur = self.model.get(id)
        r, v = run_op(self.env, lambda: self.st.update_vector(id, vec, meta))
        self.careless(vec, meta)
        if r == "ok":
            if v is True:
                if cur == {ABSENT}:
                    self.fail("update-result", "update_vector(%r) returned True for an absent id" % id)
                self.model.ack(id, alt)
            elif v is False:
                if ABSENT not in cur:
                    self.fail("update-result", "update_vector(%r) returned False for a stored id" % id)
                else:
                    self.model.observe(id, ABSENT)
            else:
                self.fail("update-result", "update_vector returned %r" % (v,))
        else:
            if cur != {ABSENT}:
                self.model.maybe(id, alt)
            if r == "crash":
                return r
            self.storage_error(v, "update_vector")
            if not retry and self.scn.get("retry"):
                return self.again(i, op)

    def op_delete(self, i, op, retry=False):
        id = op[1]
        cur = self.model.get(id)
        r, v = run_op(self.env, lambda: self.st.delete_vector(id))
        if r == "ok":
            if v is True:
                if cur == {ABSENT}:
                    self.fail("delete-result", "delete_vector(%r) returned True for an absent id" % id)
                self.model.ack(id, ABSENT)
            elif v is False:
                if ABSENT not in cur:
                    self.fail("delete-result", "delete_vector(%r) returned False for a stored id" % id)
                else:
                    self.model.observe(id, ABSENT)
            else:
                self.fail("delete-result", "delete_vector returned %r" % (v,))
        else:
            self.model.maybe(id, ABSENT)
            if r == "crash":
                return r
            self.storage_error(v, "delete_vector")
            if not retry and self.scn.get("retry"):
                return self.again(i, op)

    def judge_read(self, id, v, what="retrieve_vector"):
        cur = self.model.get(id)
        if v is None:
            got = ABSENT
        else:
            try:
                vec, meta = v
                got = self.alt(vec, meta)
                self.careless(vec, meta)
            except Exception as e:
                self.fail("read-shape", "%s(%r) returned %r (%s)" % (what, id, v, e))
                return
        if got in cur:
            self.model.observe(id, got)
            return
        if got is ABSENT:
            self.fail("lost", "%s(%r) finds nothing, expected %s" % (what, id, brief(cur)))
        elif cur == {ABSENT}:
            self.fail("ghost", "%s(%r) returned %s for an id that is not stored" % (what, id, brief({got})))
        else:
            vs = {a[0] for a in cur if a}
            ms = {a[1] for a in cur if a}
            kind = "mixed" if got[0] in vs and got[1] in ms else (
                "wrong-metadata" if got[0] in vs else "wrong-vector")
            self.fail(kind, "%s(%r) returned %s, expected one of %s" % (what, id, brief({got}), brief(cur)))

    def op_get(self, i, op, retry=False):
        r, v = run_op(self.env, lambda: self.st.retrieve_vector(op[1]))
        if r == "crash":
            return r
        if r == "err":
            self.storage_error(v, "retrieve_vector")
            if not retry and self.scn.get("retry"):
                return self.again(i, op)
            return
        self.judge_read(op[1], v)

    def op_list(self, i, op, retry=False):
        limit = op[1]
        r, v = run_op(self.env, lambda: self.st.list_vectors(limit) if limit is not None else self.st.list_vectors())
        if r == "crash":
            return r
        if r == "err":
            self.storage_error(v, "list_vectors")
            if not retry and self.scn.get("retry"):
                return self.again(i, op)
            return
        self.judge_list(v, limit)
        self.careless(v)

    def judge_list(self, v, limit):
        v = list(v)
        must, may = self.model.must(), self.model.may()
        if len(set(v)) != len(v):
            self.fail("list-dup", "list_vectors has duplicates: %r" % sorted(v))
        extra = set(v) - may
        if extra:
            self.fail("list-ghost", "list_vectors names ids that are not stored: %r" % sorted(extra))
        if limit is None:
            missing = must - set(v)
            if missing:
                self.fail("list-missing", "list_vectors misses stored ids: %r" % sorted(missing))
            for id in self.model.ids():
                self.model.narrow(id, id in v)
        else:
            if not (min(limit, len(must)) <= len(v) <= limit):
                self.fail("list-limit", "list_vectors(%d) returned %d of %d ids" % (limit, len(v), len(must)))

    def op_stats(self, i, op):
        r, v = run_op(self.env, lambda: self.st.get_stats())
        if r == "crash":
            return r
        if r == "err":
            if not self.env.fired_in_op():
                self.fail("raise", "get_stats raised: %s" % v)
            return
        if "count" in self.checks:
            d = v["disk"] if self.scn["kind"] == "hybrid" else v
            if "error" in d:
                if not self.env.fired_in_op():
                    self.fail("raise", "get_stats reports %s" % d["error"])
                return
            n = d["vector_count"]
            lo, hi = len(self.model.must()), len(self.model.may())
            if not lo <= n <= hi:
                self.fail("count", "statistics report %r vectors, %d..%d are stored" % (n, lo, hi))
            if self.scn["kind"] == "memory":
                self.usage(v)
        self.careless(v)

    def usage(self, stats):
        """Memory statistics depend on what is stored, not on how it came to be stored."""
        new = make_storage(self.scn)
        new.initialize()
        for id in self.st.list_vectors():
            new.store_vector(id, *self.st.retrieve_vector(id))
        want = new.get_stats()
        for k in ("vector_count", "memory_usage_bytes", "memory_usage_mb"):
            if k in want and stats.get(k) != want[k]:
                self.fail("usage", "%s is %r, %r for a new storage with the same content" % (k, stats.get(k), want[k]))
        if "memory_usage_bytes" in stats and "memory_usage_mb" in stats and abs(
                stats["memory_usage_mb"] * 1048576 - stats["memory_usage_bytes"]) > 1:
            self.fail("usage", "%(memory_usage_mb)r MB are not %(memory_usage_bytes)r bytes" % stats)

    def op_reopen(self, i, op):
        if self.scn["kind"] == "memory":
            return
        r, v = run_op(self.env, self.st.close)
        if r == "crash":
            return r
        if r == "err":
            self.storage_error(v, "close")
        self.env.probe("reopen")
        self.start()
        self.faulted = False

    def op_audit(self, i, op):
        """Everything readable, with faults over."""
        self.env.fs.clear_errors()
        for id in sorted(self.model.ids()):
            r = self.op_get(i, ["get", id])
            if r == "crash":
                return r
        r = self.op_list(i, ["list", None])
        if r == "crash":
            return r
        return self.op_stats(i, op)

    # -- hybrid tiers --------------------------------------------------------
    def check_tiers(self):
        st, env = self.st, self.env
        if self.scn["kind"] != "hybrid":
            return
        with env.quiet():
            n = st.get_stats()["memory"]["vector_count"]
        if n > self.scn["limit"]:
            self.fail("limit", "memory tier holds %d vectors, limit %d" % (n, self.scn["limit"]))

    def op_tiers(self, i, op):
        """Compare a read through the hybrid storage with a fresh reader of the disk tier."""
        from valori.storage.disk import DiskStorage
        self.env.fs.clear_errors()
        for id in sorted(self.model.ids()):
            d = DiskStorage({"data_dir": ROOT})
            with self.env.quiet():
                d.initialize()
                try:
                    want = d.retrieve_vector(id)
                except Exception as e:
                    self.fail("unreadable", "the disk tier cannot read %r: %s" % (id, e))
                    continue
            r, v = run_op(self.env, lambda: self.st.retrieve_vector(id))
            if r == "crash":
                return r
            if r == "err":
                self.storage_error(v, "retrieve_vector")
                continue
            a = ABSENT if v is None else self.alt(*v)
            b = ABSENT if want is None else self.alt(*want)
            if a != b:
                self.fail("tier-differs", "retrieve_vector(%r) gives %s, the disk tier holds %s" % (
                    id, brief({a}), brief({b})))
            self.judge_read(id, v)

    def run(self):
        self.env.step(900, "open")
        self.legacy()
        self.start()
        ops = self.scn["ops"]
        for i, op in enumerate(ops):
            if self.dead:
                return
            self.do(i, op)
        n = len(ops)
        self.env.fs.clear_errors()
        if not self.dead:
            self.do(n, ["audit"])
        if not self.dead and self.scn["kind"] != "memory":
            self.do(n + 1, ["reopen"])
            if not self.dead:
                self.do(n + 2, ["audit"])
            # the storage stays writable
            for j, id in enumerate(sorted(self.model.ids())[:2]):
                if not self.dead:
                    self.do(n + 3 + 2 * j, ["store", id, {"x": [1.0, float(j)], "dt": "<f4"}, {"end": j}])
                if not self.dead:
                    self.do(n + 4 + 2 * j, ["get", id])


def brief(alts):
    out = []
    for a in sorted(alts, key=str):
        out.append("nothing" if a is None else "(%s.., %s)" % (a[0][-24:], a[1][:60]))
    return " | ".join(out)


def gen_ops(rng, ids, n, hybrid=False, extra=()):
    ops = []
    w = {"store": rng.choice([1, 3, 5]), "update": rng.choice([0, 1, 3]), "delete": rng.choice([0, 1, 3]),
         "get": rng.choice([1, 3]), "list": rng.choice([0, 1]), "stats": rng.choice([0, 1]),
         "reopen": rng.choice([0, 0.3, 1]), "audit": rng.choice([0, 0.3])}
    for k, v in extra:
        w[k] = v
    names = list(w)
    last = {}
    for _ in range(n):
        k = rng.choices(names, [w[x] for x in names])[0]
        id = rng.choice(ids)
        if k in ("store", "update"):
            v, m = gens.rvec_any(rng), gens.rmeta(rng)
            if id in last and rng.random() < 0.2:
                v, m = gens.twin(rng, *last[id])
            last[id] = (v, m)
            ops.append([k, id, v, m])
        elif k in ("get", "delete"):
            ops.append([k, id])
        elif k == "list":
            ops.append([k, rng.choice([None, None, 0, 1, 2, 5])])
        else:
            ops.append([k])
    return ops


REAL = ["valori.storage.disk / memory / hybrid", "numpy save/load", "pickle", "pathlib"]
STUBS = ["file system (in-memory, power-loss model)", "clock", "os.urandom"]


class StorageProp(Prop):
    checks = ()
    bulk = 0.004
    kinds = ("disk", "hybrid")
    limits = (1, 2, 3, 100)
    real = REAL
    stubs = STUBS
    assumptions = ["fsync makes file data and its directory entry durable, directory fsync its entry changes; "
                   "rename is atomic; unsynced data may be lost or torn",
                   "ids are valid unicode and at most about 40 characters"]

    def wanted_faults(self, rng):
        return []

    def gen(self, rng, tier, seed):
        kind = rng.choice(self.kinds)
        ids = gens.rid(rng, rng.choice([1, 2, 3, 4, 6]))
        n = rng.choice([3, 6, 10, 16, 25] if tier == "quick" else [3, 6, 10, 16, 25, 40, 80])
        scn = {"seed": seed, "kind": kind, "limit": rng.choice(self.limits),
               "ops": gen_ops(rng, ids, n, extra=self.extra_ops(rng)), "faults": [],
               "buf": rng.choice([16, 64, 512, 8192]), "retry": rng.random() < 0.5}
        if kind != "memory" and rng.random() < 0.15:
            old = [i for i in ids if all(c.isalnum() or c in "._-" for c in i)]
            scn["legacy"] = [[i, gens.rvec_any(rng), gens.rmeta(rng)] for i in old if rng.random() < 0.7]
        if self.bulk and rng.random() < self.bulk:
            m = rng.choice([15, 15, 40, 40, 70, 70, 130, 130, 270, 1100 if kind == "disk" else 270])
            scn["ops"].insert(rng.randint(0, n), ["bulk", rng.choice(["k", "n-"]), m])
            scn["limit"] = rng.choice([scn["limit"], 10, 60, 1000])
            for j in range(rng.randint(2, 8)):
                o = rng.choice(["delete", "get", "get", "update", "list", "stats"])
                id = "%s%d" % (rng.choice(["k", "n-"]), rng.randrange(m))
                scn["ops"].append({"list": ["list", rng.choice([None, m // 2, m - 1, m + 5])], "stats": ["stats"],
                                   "update": ["update", id, gens.rvec(rng), gens.rmeta(rng)]}.get(o, [o, id]))
        if rng.random() < 0.1:
            scn["ops"].insert(rng.randint(0, n), ["store", "", gens.rvec(rng), gens.rmeta(rng)])
        want = self.wanted_faults(rng)
        if want:
            dry = self.run(scn, kinds=True)
            scn["faults"] = place_faults(rng, dry.counts, dry.kinds, want)
            if any(f["kind"] == "crash" for f in scn["faults"]) and rng.random() < 0.5:
                # another crash or error while recovering
                o = [f for f in scn["faults"] if f["kind"] == "crash"][0]["op"]
                c = crash_fault(rng)
                c.pop("prefer")
                scn["faults"].append(dict(c, op=1000 + o, n=rng.randint(0, 8)))
        return scn

    def extra_ops(self, rng):
        return ()

    def run(self, scn, keep_log=False, kinds=False):
        env = Env(scn, keep_log)
        env.fs.record_kinds = kinds
        with env:
            w = StorageWorld(env, scn, self.checks)
            w.run()
        return Outcome(env)

    def nontrivial(self, scn, out):
        return out.fs_calls > 0 or scn["kind"] == "memory"


class C01(StorageProp):
    id = "C01"
    kinds = ("memory", "disk", "disk", "hybrid")
    checks = ("count", "tier")
    bulk = 0.015
    quick = (20000, 25)
    thorough = (2000000, 900)
    rule = ("seeded random histories of store/update/delete/retrieve/list/stats/reopen over 1-6 ids (odd and "
            "colliding-looking ids included), random listing order, short reads and writes; non-trivial: at "
            "least one store and one later read of the same id")

    def wanted_faults(self, rng):
        if rng.random() < 0.3:
            return [{"kind": "short", "frac": round(rng.random(), 3), "prefer": ("read", "write")}
                    for _ in range(rng.randint(1, 4))]
        return []

    def nontrivial(self, scn, out):
        return any(o[0] == "store" for o in scn["ops"])


class C02(StorageProp):
    id = "C02"
    quick = (20000, 25)
    thorough = (2000000, 900)
    rule = ("random histories with 1-3 process kills or power losses at random file-system calls (before, after or "
            "inside a torn write), also during recovery; non-trivial: a crash fired")

    def wanted_faults(self, rng):
        w = [crash_fault(rng) for _ in range(rng.choice([1, 1, 1, 2, 3]))]
        if rng.random() < 0.15:
            w.append(error_fault(rng))
        return w

    def nontrivial(self, scn, out):
        return bool(out.fired.get("kill") or out.fired.get("power_loss"))


class C03(StorageProp):
    id = "C03"
    checks = ("count",)
    quick = (20000, 25)
    thorough = (2000000, 900)
    rule = ("random histories with 1-5 injected file-system errors (ENOSPC with partial write, EIO, EMFILE, short "
            "transfers; lasting 1 to 30 calls); non-trivial: an error fired")

    def wanted_faults(self, rng):
        return [error_fault(rng) for _ in range(rng.choice([1, 1, 2, 3, 5]))]

    def nontrivial(self, scn, out):
        return any(k not in ("short_read", "short_write") for k in out.fired)


class C04(StorageProp):
    id = "C04"
    kinds = ("hybrid",)
    checks = ("tier", "count")
    limits = (0, 1, 1, 2, 2, 3, 4)
    bulk = 0.015
    quick = (20000, 25)
    thorough = (2000000, 900)
    rule = ("random histories on hybrid storage with memory limits 0-100 and comparison of every id with a second "
            "reader of the disk tier, half of them with injected I/O errors; non-trivial: more ids than the limit")

    def extra_ops(self, rng):
        return (("tiers", 2),)

    def wanted_faults(self, rng):
        if rng.random() < 0.5:
            return [error_fault(rng) for _ in range(rng.choice([1, 2, 3]))]
        if rng.random() < 0.2:
            return [crash_fault(rng)]
        return []

    def nontrivial(self, scn, out):
        return len({o[1] for o in scn["ops"] if o[0] == "store"}) > scn["limit"]


PROPS = [C01(), C02(), C03()]

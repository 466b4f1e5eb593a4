"""C30: Annoy index built on disk, saved, loaded and saved again, over crashes and I/O errors."""
import hashlib
import os
import tempfile

import numpy as np

from .. import gens
from ..core import (Env, Outcome, canon, crash_fault, dec, error_fault, mkvec, place_faults, run_op, scribble, vkey)
from ..prop import Prop
from .client import true_distance

ROOT, TMP = "/simfs/ax", "/simfs/tmp"
ABSENT = "absent"
METRICS = ("angular", "euclidean", "manhattan", "dot", "hamming")
CHUNK = 4096


class Native:
    """annoy.AnnoyIndex with its file access carried out on the simulated file system, call by call as the
    C++ code does it (unlink, open, write, close, map), and with builds that can run out of memory."""
    world = None
    real = None

    def __init__(self, f=None, metric="angular"):
        self._key = (f, metric)
        self._r = Native.real(f, metric)

    def __getattr__(self, name):
        return getattr(self._r, name)

    def build(self, n_trees, n_jobs=1):
        w = Native.world
        done = w.gate("build")
        if done == "before":
            raise MemoryError("injected: cannot allocate")
        r = self._r.build(n_trees, n_jobs=1)
        if done == "after":
            raise MemoryError("injected: cannot allocate")
        return r

    def save(self, fn, prefault=False):
        w = Native.world
        image = w.image(self)
        fn = os.fspath(fn)
        try:
            os.unlink(fn)
        except OSError:
            pass
        fd = os.open(fn, os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o666)
        try:
            at = 0
            while at < len(image):
                at += os.write(fd, image[at:at + CHUNK])
        except OSError:
            try:
                os.close(fd)
            except OSError:
                pass
            raise
        os.close(fd)
        self._r.unload()
        return self.load(fn)

    def load(self, fn, prefault=False):
        w = Native.world
        fd = os.open(os.fspath(fn), os.O_RDONLY)
        try:
            size = os.fstat(fd).st_size
            data = b""
            while len(data) < size:
                x = os.read(fd, size - len(data))
                if not x:
                    break
                data += x
        finally:
            os.close(fd)
        if not data:
            raise OSError("Size of file is zero")
        key, image = w.images.get(data, (None, None))
        if key != self._key:
            # a torn file, or one of another kind: nothing usable comes of mapping it
            w.env.probe("torn_trees_mapped")
            self._r = Native.real(*self._key)
            return True
        w.attach(self, image)
        return True


class Slot:
    def __init__(self, cfg):
        self.cfg = cfg
        self.ix = None
        self.reset()
        self.on = False

    def reset(self):
        self.dim, self.built = None, False
        self.vecs, self.metas = [], []
        self.ref = None

    def live(self):
        return [i for i, v in enumerate(self.vecs) if v is not None]

    def snap(self):
        return {"dim": self.dim, "metric": self.metric, "trees": self.trees, "vecs": list(self.vecs), "metas": list(self.metas)}

    def restore(self, st):
        self.dim, self.metric, self.trees = st["dim"], st["metric"], st["trees"]
        self.vecs, self.metas = list(st["vecs"]), list(st["metas"])
        self.built, self.ref = True, None


def state_key(st):
    return canon([st["dim"], st["metric"], st["trees"], [None if v is None else vkey(v) for v in st["vecs"]], st["metas"]])


class AnnoyWorld:
    def __init__(self, env, scn):
        self.env, self.scn = env, scn
        self.slots = [Slot(c) for c in scn["slots"]]
        self.paths = {}          # path -> {key: state or ABSENT}
        self.images = {}         # content of a complete tree file -> (dimension, metric), bytes annoy wrote
        self.counts = {}
        self.afaults = {(f["op"], f["n"]): f["when"] for f in scn.get("afaults", [])}
        self.scratch = os.path.join(tempfile.gettempdir(), "vsim-annoy-%d" % os.getpid())
        self.quiet = 0
        self.reloads = 0
        self.dead = False

    # -- seams -----------------------------------------------------------------
    def install(self):
        import annoy
        from valori.indices import annoy as mod
        Native.world = self
        if annoy.AnnoyIndex is not Native:
            Native.real = annoy.AnnoyIndex
        self.saved = [(annoy, "AnnoyIndex", Native.real)]
        annoy.AnnoyIndex = Native
        for k, v in list(vars(mod).items()):
            if v is Native.real:
                self.saved.append((mod, k, v))
                setattr(mod, k, Native)
        self._tmp = tempfile.tempdir
        tempfile.tempdir = TMP

    def restore(self):
        tempfile.tempdir = self._tmp
        for o, k, v in self.saved:
            setattr(o, k, v)
        if os.path.exists(self.scratch):
            os.unlink(self.scratch)

    def gate(self, what):
        if self.quiet:
            return None
        i = self.env.opno
        n = self.counts.get(i, 0)
        self.counts[i] = n + 1
        when = self.afaults.get((i, n))
        if when:
            self.env.fs.fired["alloc_fail"] = self.env.fs.fired.get("alloc_fail", 0) + 1
            self.env.log.add("alloc_fail", what, i, n)
        return when

    def image(self, native):
        native._r.save(self.scratch)
        with open(self.scratch, "rb") as f:
            data = f.read()
        os.unlink(self.scratch)          # stays mapped
        # annoy writes memory it never set; the run must not depend on it
        mark = hashlib.sha256(b"%d" % len(self.images)).digest()
        mark = (mark * (len(data) // len(mark) + 1))[:len(data)]
        self.images[mark] = (native._key, data)
        return mark

    def attach(self, native, data):
        with open(self.scratch, "wb") as f:
            f.write(data)
        native._r.unload()
        native._r.load(self.scratch)
        os.unlink(self.scratch)

    # -- helpers ---------------------------------------------------------------
    def fail(self, sig, msg):
        self.env.fail(sig, msg)

    def hits(self):
        """Number of injected errors in this operation."""
        f = self.env.fs.fired
        return sum(f.values()) - f.get("short_read", 0) - f.get("short_write", 0) - self.env._fired0

    def refused(self, r, v, what):
        from valori.exceptions import ValoriError
        if r == "crash":
            return
        if r == "ok":
            self.fail("not-refused", "%s returned %r" % (what, v))
        elif not isinstance(v, ValoriError) and not self.env.fired_in_op():
            self.fail("error-type", "%s raised %s: %s" % (what, type(v).__name__, v))

    def bad(self, v, what):
        if not self.env.fired_in_op():
            self.fail("raise", "%s raised without any injected fault: %s: %s" % (what, type(v).__name__, v))
        self.env.probe("failed_" + what)

    def make(self, s):
        from valori.indices import AnnoyIndex
        s.ix = AnnoyIndex(dict(s.cfg))
        s.metric, s.trees = s.cfg["metric"], s.cfg["num_trees"]
        s.reset()
        s.on = False

    def start(self, s):
        self.make(s)
        for _ in range(6):
            r, v = run_op(self.env, s.ix.initialize)
            if r == "ok":
                s.on = True
                return
            if r == "crash":
                return r
            self.bad(v, "initialize")
            self.env.fs.clear_errors()
            self.env.open_op(0)
        self.dead = True

    def path(self, p):
        return self.paths.setdefault(p, {ABSENT: ABSENT})

    def reboot(self):
        power = bool((self.env.fs.crash_info or {}).get("power"))
        self.env.probe("reboot_power" if power else "reboot_kill")
        self.env.fs.reboot()
        self.leaks = True
        for s in self.slots:
            if self.start(s) == "crash":
                return self.reboot()

    # -- operations --------------------------------------------------------------
    def do(self, i, op):
        self.env.step(i, op[0])
        s = self.slots[op[1]] if isinstance(op[1], int) else None
        r = getattr(self, "op_" + op[0])(s, op)
        if r == "crash":
            self.env.step(1000 + i, "recover")
            self.reboot()
        self.check_tmp()

    def op_new(self, s, op):
        r = self.op_close(s, op)
        if r == "crash":
            return r
        return self.start(s)

    def op_init(self, s, op):
        r, v = run_op(self.env, s.ix.initialize)
        if r == "err":
            self.bad(v, "initialize")
        elif r == "ok":
            s.on = True
        return r

    def op_close(self, s, op):
        r, v = run_op(self.env, s.ix.close)
        if r == "crash":
            return r
        if r == "err":
            self.bad(v, "close")
            self.make(s)
        s.on = False
        s.reset()

    def op_clear(self, s, op):
        r, v = run_op(self.env, s.ix.clear)
        if r == "crash":
            return r
        if r == "err":
            self.bad(v, "clear")
            return self.start(s)
        s.reset()

    def op_add(self, s, op):
        _, _, vecs, metas = op
        X = np.array(vecs["x"], dtype=vecs["dt"])
        given = [dec(m) for m in metas]
        r, v = run_op(self.env, lambda: s.ix.insert(X, given))
        if r == "crash":
            return r
        if not s.on or (s.dim is not None and s.dim != X.shape[1]) or (s.built and s.dim is not None):
            return self.refused(r, v, "insert")
        if r == "err":
            return self.bad(v, "insert")
        ids = [str(len(s.vecs) + j) for j in range(len(X))]
        if [str(x) for x in v] != ids:
            self.fail("ids", "insert returned %r, expected %r" % (v, ids))
        s.dim = X.shape[1]
        s.vecs += [x.copy() for x in X]
        s.metas += [dec(m) for m in metas]
        s.built, s.ref = False, None
        if self.scn["mutate"]:
            scribble(X)
            scribble(given)

    def op_remove(self, s, op):
        r, v = run_op(self.env, lambda: s.ix.delete([str(x) for x in op[2]]))
        if r == "crash":
            return r
        if not s.on:
            return self.refused(r, v, "delete")
        if r == "err":
            return self.bad(v, "delete")
        for x in op[2]:
            if x < len(s.vecs):
                s.vecs[x] = s.metas[x] = None

    def op_update(self, s, op):
        _, _, n, vec, meta = op
        x = mkvec(vec)
        given = dec(meta)
        r, v = run_op(self.env, lambda: s.ix.update(str(n), x, given))
        if r == "crash":
            return r
        if not s.on or n not in s.live() or s.built or len(x) != s.dim:
            return self.refused(r, v, "update")
        if r == "err":
            return self.bad(v, "update")
        s.vecs[n] = x.copy()
        if given is not None:
            s.metas[n] = dec(meta)

    def op_build(self, s, op):
        r, v = run_op(self.env, s.ix.build)
        if r == "crash":
            return r
        if not s.on:
            return self.refused(r, v, "build")
        if s.built and s.dim is not None:
            return                      # refused or nothing to do
        if r == "err":
            return self.bad(v, "build")
        s.built, s.ref = True, None

    def op_search(self, s, op):
        q = mkvec(op[2])
        r, v = run_op(self.env, lambda: s.ix.search(q, op[3]))
        if r == "crash":
            return r
        if not s.on or not s.built or (s.dim is not None and len(q) != s.dim):
            return self.refused(r, v, "search")
        if r == "err":
            return self.bad(v, "search")
        for sig, msg in self.judge(s, q, op[3], v):
            self.fail(sig, msg)
        self.check_stats(s)
        if self.scn["mutate"]:
            scribble(v)

    def op_stats(self, s, op):
        self.check_stats(s)

    def check_stats(self, s):
        r, v = run_op(self.env, s.ix.get_stats)
        if r == "crash":
            return r
        if r == "err":
            return self.bad(v, "get_stats")
        want = {"dimension": s.dim, "num_vectors": len(s.live()), "total_capacity": len(s.vecs), "metric": s.metric,
                "num_trees": s.trees, "built": s.built, "initialized": s.on}
        got = {k: v.get(k) for k in want}
        if got != want:
            self.fail("stats", "get_stats reports %r, expected %r" % (got, want))

    def reference(self, s):
        """The same vectors in a new index built in memory, and nothing going wrong."""
        if s.ref is None:
            from valori.indices import AnnoyIndex
            self.quiet += 1
            with self.env.quiet():
                ix = AnnoyIndex(dict(s.cfg, metric=s.metric, build_on_disk=False))
                ix.initialize()
                ix.insert(np.array([np.zeros(s.dim) if v is None else v for v in s.vecs], dtype="<f8"),
                          [{} for _ in s.vecs])
                ix.build()
            self.quiet -= 1
            s.ref = ix
        return s.ref

    def judge(self, s, q, k, got):
        out = []
        if s.dim is None:
            return [("ghost", "an empty index found %r" % got)] if got else []
        self.quiet += 1
        ref = self.reference(s).search(q, len(s.vecs))
        self.quiet -= 1
        live = s.live()
        dist = {int(x["id"]): x["distance"] for x in ref if int(x["id"]) in live}
        tol = 2e-3 if s.metric == "angular" else 1e-4
        ids = [int(x["id"]) for x in got]
        want = min(k, len(live))
        if len(set(ids)) != len(ids) or len(ids) != want:
            out.append(("missing" if len(ids) < want else "results",
                        "search for %d of %d vectors returned %s" % (k, len(live), ids)))
        best = sorted(dist.values(), reverse=True)
        for j, x in enumerate(got):
            n = int(x["id"])
            if n not in dist:
                out.append(("ghost", "search returned %d, which is not stored" % n))
                continue
            d = float(x["distance"])
            t = dist[n]
            if s.metric in METRICS[:3]:
                t = true_distance("annoy", s.metric, np.float32(q), np.float32(s.vecs[n]))
            if abs(d - t) > tol * max(1, abs(t)) or abs(d - dist[n]) > tol * max(1, abs(t)):
                out.append(("distance", "vector %d reported with %.6f, expected %.6f" % (n, d, t)))
            elif j < len(best) and s.metric != "dot" and abs(d - best[j]) > 2 * tol * max(1, abs(best[j])):
                out.append(("order", "result %d has %.6f, the index in memory has %.6f there" % (j, d, best[j])))
            if canon(x["metadata"]) != canon(s.metas[n]):
                out.append(("metadata", "vector %d returned with %r, expected %r" % (n, x["metadata"], s.metas[n])))
        return out

    def op_save(self, s, op):
        r, v = run_op(self.env, lambda: s.ix.save(ROOT + "/" + op[2]))
        if not s.built:
            if r == "crash":
                return r
            return self.refused(r, v, "save")
        st = s.snap()
        may = self.path(op[2])
        if r == "ok":
            may.clear()
            self.env.probe("saved")
        may[state_key(st)] = st
        if r == "err":
            self.bad(v, "save")
            if self.hits() > 1:
                # the trees were lost to one error, and the attempt to build them again to another
                s.built = run_op(self.env, s.ix.get_stats)[1].get("built") is not False
        return r if r == "crash" else None

    def op_load(self, s, op):
        may = self.path(op[2])
        r, v = run_op(self.env, lambda: s.ix.load(ROOT + "/" + op[2]))
        if r == "crash":
            return r
        if not s.on:
            return self.refused(r, v, "load")
        if r == "err":
            if self.env.fired_in_op():
                self.env.probe("failed_load")
                return                   # s keeps what it had
            if ABSENT in may:
                self.refused(r, v, "load")
                if len(may) > 1:
                    may.clear()
                    may[ABSENT] = ABSENT
                return
            return self.bad(v, "load")
        self.observe(s, op[2], may)

    def observe(self, s, p, may):
        """Which of the possible states was loaded?"""
        old = (s.snap(), s.built, s.ref)
        reasons = []
        n = len(self.env.findings)
        for key, st in list(may.items()):
            if st == ABSENT:
                continue
            s.restore(st)
            del self.env.findings[n:]
            self.check_stats(s)
            if len(self.env.findings) == n:
                qs = [np.arange(1, (s.dim or 1) + 1, dtype="<f4") % 3]
                for q in qs:
                    r, v = run_op(self.env, lambda: s.ix.search(q, len(s.vecs) + 2))
                    if r == "err":
                        self.fail("raise", "search after load raised %s" % v)
                    elif r == "ok":
                        for sig, msg in self.judge(s, q, len(s.vecs) + 2, v):
                            self.fail(sig, msg)
            if len(self.env.findings) == n:
                may.clear()
                may[key] = st
                self.env.probe("loaded")
                self.env.probe("loaded_after_crash", 1 if self.env.probes.get("reboot_kill") or
                               self.env.probes.get("reboot_power") else 0)
                return
            reasons.append(self.env.findings[n]["msg"])
        del self.env.findings[n:]
        if not reasons:
            self.fail("ghost", "load found an index at %r where none was saved" % p)
        else:
            self.fail("wrong", "load(%r) gives none of the %d possible indexes: %s" % (p, len(reasons), "; ".join(reasons)[:400]))
        s.restore(old[0])
        s.built, s.ref = old[1], old[2]
        self.dead = True

    def op_rm(self, s, op):
        p = ROOT + "/" + op[2]
        with self.env.quiet():
            if os.path.exists(p):
                os.unlink(p)
                fd = os.open(ROOT, os.O_RDONLY)
                os.fsync(fd)
                os.close(fd)
        may = self.path(op[2])
        may.clear()
        may[ABSENT] = ABSENT

    def op_audit(self, s, op):
        env = self.env
        env.fs.clear_errors()
        env.open_op(0)
        for s in self.slots:
            if s.on and not s.built:
                r = self.op_build(s, ["build"])
                if r == "crash":
                    return r
            if s.on:
                r = self.op_search(s, ["search", 0, {"x": [1.0] * (s.dim or 2)}, len(s.vecs) + 1])
                if r == "crash":
                    return r

    def check_tmp(self):
        """On-disk building holds one temporary file per open index."""
        if self.dead or self.env.fs.frozen or self.env.fs.fired:
            return
        with self.env.quiet():
            have = os.listdir(TMP)
        n = sum(1 for s in self.slots if s.on and s.cfg["build_on_disk"])
        if len(have) > n:
            self.fail("leak", "%d temporary files for %d open indexes that build on disk" % (len(have), n))
            self.dead = True

    def run(self):
        env = self.env
        env.fs.makedirs_sim(ROOT)
        env.fs.makedirs_sim(TMP)
        env.step(900, "open")
        for s in self.slots:
            if self.start(s) == "crash":
                self.reboot()
                break
        ops = self.scn["ops"]
        for i, op in enumerate(ops):
            if self.dead:
                return
            self.do(i, op)
        n = len(ops)
        end = [["audit", 0]]
        for p in sorted(self.paths):
            end += [["new", 0], ["load", 0, p], ["audit", 0]]
        end += [["close", j] for j in range(len(self.slots))]
        env.fs.clear_errors()
        for j, op in enumerate(end):
            if self.dead:
                return
            self.do(n + j, op)


def rvecs(rng, n, dim, metric, dt):
    if metric == "hamming":
        return {"x": [[float(rng.randint(0, 1)) for _ in range(dim)] for _ in range(n)], "dt": dt}
    return {"x": [[gens.rcoord(rng) for _ in range(dim)] for _ in range(n)], "dt": dt}


class C30(Prop):
    id = "C30"
    real = ["valori.indices.annoy", "valori.utils.atomic, validation", "annoy (C++): trees, build, queries, file format",
            "pickle, json, numpy"]
    stubs = ["annoy's own file access (unlink, open, write, close, map), carried out on the simulated file system with "
             "the bytes the C++ code produces", "file system (in-memory, power-loss model)", "memory allocation of builds"]
    quick = (30000, 25)
    thorough = (2000000, 900)
    assumptions = ["searches examine the whole index (default search_k), so answers do not depend on the trees",
                   "a mapped tree file that is not complete is taken to hold nothing",
                   "annoy builds with one thread; one thread per index", "fsync and rename as in C11"]
    rule = ("seeded histories of insert, remove, update, build (in memory and on disk), search, save, load, clear, close "
            "over 1-3 indexes and 1-2 files with kills, power losses, I/O errors at random file-system calls and builds "
            "that run out of memory; non-trivial: a fault fired, or a saved index was loaded")

    def gen(self, rng, tier, seed):
        dim = rng.choice([1, 2, 3, 5])
        nslots = rng.choice([1, 2, 2, 3])
        metric = rng.choice(METRICS)
        slots = []
        for _ in range(nslots):
            slots.append({"metric": metric if rng.random() < 0.8 else rng.choice(METRICS), "num_trees": rng.choice([1, 2, 5]),
                          "build_on_disk": rng.random() < 0.5})
        paths = rng.sample(["a", "b", "a.annoy", "x y", "a.data"], rng.choice([1, 1, 2]))
        if "a" in paths and "a.data" in paths:
            paths = ["a"]
        w = {"add": 5, "remove": rng.choice([0, 1, 2]), "update": rng.choice([0, 1]), "build": 4, "search": 2,
             "save": rng.choice([2, 4]), "load": rng.choice([1, 3]), "clear": rng.choice([0, 0.6]),
             "close": rng.choice([0, 0.4]), "init": rng.choice([0, 0.6]), "new": rng.choice([0, 0.6]),
             "rm": rng.choice([0, 0.5]), "audit": rng.choice([0, 0.5]), "stats": 0.3}
        n = rng.choice([4, 8, 14, 22] if tier == "quick" else [4, 8, 14, 22, 40, 80])
        ops, total = [], 0
        dt = rng.choice(["<f4", "<f8"])
        big = rng.random() < 0.15
        for _ in range(n):
            k = rng.choices(list(w), list(w.values()))[0]
            j = rng.randrange(nslots)
            m = slots[j]["metric"]
            d = dim if rng.random() < 0.93 else dim + 1
            if k == "add":
                c = rng.choice([1, 2, 3, 5, 8] if not big else [20, 60])
                total += c
                ops.append([k, j, rvecs(rng, c, d, m, dt), [gens.rmeta(rng) if rng.random() < 0.8 else {} for _ in range(c)]])
                if rng.random() < 0.5:
                    ops.append(["build", j])
                    if rng.random() < 0.6:
                        ops.append(["save", j, rng.choice(paths)])
            elif k == "remove":
                ops.append([k, j, [rng.randrange(10) for _ in range(rng.choice([1, 2, 4]))]])
            elif k == "update":
                v = rvecs(rng, 1, d, m, dt)
                ops.append([k, j, rng.randrange(8), {"x": v["x"][0], "dt": dt}, gens.rmeta(rng)])
            elif k == "search":
                v = rvecs(rng, 1, d, m, dt)
                ops.append([k, j, {"x": v["x"][0], "dt": dt}, rng.choice([1, 2, 5, 100])])
            elif k in ("save", "load"):
                ops.append([k, j, rng.choice(paths)])
            elif k == "rm":
                ops.append([k, 0, rng.choice(paths)])
            else:
                ops.append([k, j])
        scn = {"seed": seed, "slots": slots, "ops": ops, "faults": [], "afaults": [], "buf": rng.choice([64, 512, 8192]),
               "mutate": rng.random() < 0.5}
        r = rng.random()
        if r < 0.85:
            if r < 0.4:
                want = [crash_fault(rng) for _ in range(rng.choice([1, 1, 2]))]
            elif r < 0.7:
                want = [error_fault(rng) for _ in range(rng.choice([1, 1, 2, 3]))]
            else:
                want = [error_fault(rng), crash_fault(rng)]
            dry = self.run(scn, kinds=True)
            scn["faults"] = place_faults(rng, dry.counts, dry.kinds, want)
        if rng.random() < 0.2:
            bs = [i for i, o in enumerate(ops) if o[0] in ("build", "load", "save", "audit")]
            for i in rng.sample(bs, min(len(bs), rng.choice([1, 2]))):
                scn["afaults"].append({"op": i, "n": rng.choice([0, 0, 1]), "when": rng.choice(["before", "after"])})
        return scn

    def run(self, scn, keep_log=False, kinds=False):
        env = Env(scn, keep_log)
        env.fs.record_kinds = kinds
        with env:
            w = AnnoyWorld(env, scn)
            w.install()
            try:
                w.run()
            finally:
                w.restore()
        return Outcome(env)

    def nontrivial(self, scn, out):
        return bool(out.fired) or out.probes.get("loaded", 0) > 0

    def _drop(self, scn, a, b):
        c = super()._drop(scn, a, b)
        c["afaults"] = [dict(f, op=f["op"] - (b - a) if f["op"] >= b else f["op"]) for f in c.get("afaults", [])
                        if not a <= f["op"] < b]
        return c


PROPS = [C30()]

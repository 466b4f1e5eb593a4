"""C07-C10, C18, C20: the client with every index and storage against a model database."""
import copy

import numpy as np

from .. import gens
from ..core import (Env, Outcome, canon, crash_fault, dec, error_fault, place_faults, run_op,
                    scribble, vkey)
from ..flaky import FlakyStorage
from ..model import ABSENT, MapModel
from ..prop import Prop
from .storage import ROOT, StorageProp, StorageWorld, brief, gen_ops

FAMILY = ("flat", "hnsw", "ivf")     # indices that keep their vectors in the storage backend
SIMILARITY = ("lsh", "annoy")        # indices reporting a similarity instead of a distance


def make_client(env, scn):
    from valori.client import VectorDBClient
    from valori.indices import AnnoyIndex, FlatIndex, HNSWIndex, IVFIndex, LSHIndex
    from valori.storage.disk import DiskStorage
    from valori.storage.hybrid import HybridStorage
    from valori.storage.memory import MemoryStorage
    k = scn["kind"]
    if k == "memory":
        st = MemoryStorage({})
    elif k == "flaky":
        st = FlakyStorage(env, MemoryStorage({}), scn.get("sfaults", []))
    elif k == "disk":
        st = DiskStorage({"data_dir": ROOT})
    else:
        st = HybridStorage({"memory": {}, "disk": {"data_dir": ROOT}, "memory_limit": scn["limit"]})
    ix = {"flat": FlatIndex, "hnsw": HNSWIndex, "ivf": IVFIndex, "lsh": LSHIndex,
          "annoy": AnnoyIndex}[scn["index"]["type"]]
    cfg = {a: b for a, b in scn["index"].items() if a != "type"}
    return VectorDBClient(st, ix(cfg))


def true_distance(itype, metric, q, v):
    """Distance (flat, HNSW, IVF) or similarity (LSH, Annoy) by definition, in double precision."""
    q, v = np.asarray(q, float), np.asarray(v, float)
    d = float(np.sqrt(np.sum((q - v) ** 2)))
    if metric in ("cosine", "angular"):
        nn = float(np.linalg.norm(q) * np.linalg.norm(v))
        cos = None if nn == 0 else float(np.dot(q, v) / nn)
        if itype == "annoy":
            a = 2.0 if cos is None else max(0.0, 2 - 2 * cos)
            return max(0.0, 1 - np.sqrt(a) / 2)
        if itype == "lsh":
            return 0.0 if cos is None else cos
        return 1.0 if cos is None else 1 - cos
    if metric == "manhattan":
        d = float(np.sum(np.abs(q - v)))
    return 1 / (1 + d) if itype in SIMILARITY else d


class ClientWorld:
    def __init__(self, env, scn, cats):
        self.env, self.scn, self.cats = env, scn, set(cats)
        self.itype = scn["index"]["type"]
        self.metric = scn["index"]["metric"]
        self.family = self.itype in FAMILY
        self.mutate = scn.get("mutate")
        self.tol = 2e-3 if self.itype == "annoy" and self.metric == "angular" else 2e-5
        euclid = self.family and self.metric == "euclidean"
        self.unit = min(1.0, scn.get("scale", 1.0)) if euclid else 1.0
        self.client = None
        self.dead = False
        self.reset()
        self.total = 2 * sum(len(o[2]) for o in scn["ops"] if o[0] == "insert") + 2

    def reset(self):
        """The database is (or becomes) empty."""
        self.model = MapModel()
        self.vals = {}          # alt -> vector
        self.hist = {}          # id -> alternatives acknowledged earlier
        self.gone = set()       # ids whose deletion was acknowledged
        self.pending = []       # (alt) of failed inserts that may have been stored
        self.tags = {}
        self.built = None       # annoy: ids contained in the built trees
        self.empty_build = False
        self.ever = False       # some insert was accepted
        self.dim = None         # dimension of the first insert since the index was empty

    def fail(self, cats, sig, msg):
        if self.cats & set(cats.split()):
            self.env.fail(sig, msg)

    # -- life cycle ----------------------------------------------------------
    def start(self, same=False):
        for attempt in range(8):
            if not same or self.client is None:
                self.client = make_client(self.env, self.scn)
            r, v = run_op(self.env, self.client.initialize)
            if r == "crash":
                self.reboot()
                continue
            if r == "err":
                if not self.env.fired_in_op():
                    self.fail("raise reopen", "reopen", "initialize raised without a fault: %s" % v)
                    self.dead = True
                    return
                self.env.fs.clear_errors()
                self.env.open_op(0)
                self.env.probe("init_failed")
                continue
            return
        self.dead = True

    def reboot(self):
        power = bool((self.env.fs.crash_info or {}).get("power"))
        self.env.probe("reboot_power" if power else "reboot_kill")
        self.env.fs.reboot()
        self.client = None
        if self.scn["kind"] in ("memory", "flaky") or not self.family:
            self.reset()
        else:
            self.model.crashed(power)

    def restart(self, i):
        self.reboot()
        self.env.step(1000 + i, "recover")
        self.start()

    def err(self, e, what):
        """A call that should have succeeded raised."""
        if not self.env.fired_in_op():
            self.fail("raise", "raise", "%s raised without a reason: %s: %s" % (what, type(e).__name__, e))
            return False
        return True

    # -- values --------------------------------------------------------------
    def alt(self, vec, meta):
        if not self.family and meta is None:
            meta = {}
        a = (vkey(np.ascontiguousarray(vec)), canon(meta))
        self.vals[a] = np.array(vec)
        return a

    def attribute(self, id, metas=None, q=None, dist=None):
        """An id never seen before: does it belong to a failed insert?"""
        if not self.pending:
            return False
        if self.family:
            with self.env.quiet():
                try:
                    got = self.client.storage_backend.retrieve_vector(id)
                except Exception:
                    return False
            if got is None:
                return False
            a = self.alt(*got)
            if a not in self.pending:
                return False
            self.pending.remove(a)
            self.model.allowed[id] = {a}
            self.model.since[id] = {ABSENT, a}
            self.model.doubt[id] = True
        else:
            ok = {a for a in self.pending if a[1] == metas and self.near(q, a, dist)}
            if not ok:
                return False
            self.model.allowed[id] = ok
            self.model.since[id] = set(ok)
        self.env.probe("partial_insert_seen")
        return True

    def near(self, q, a, dist):
        t = self.dist(q, a)
        return t is not None and abs(t - dist) <= self.tol * (self.unit + abs(t))

    def dist(self, q, a):
        v = self.vals[a]
        if v.shape != np.asarray(q).shape:
            return None
        return true_distance(self.itype, self.metric, q, v)

    def set_alt(self, id, alt):
        for a in self.model.get(id):
            if a is not None and a != alt:
                self.hist.setdefault(id, set()).add(a)
        self.model.ack(id, alt)

    # -- operations ----------------------------------------------------------
    def do(self, i, op):
        self.env.step(i, op[0])
        r = getattr(self, "op_" + op[0])(i, op)
        if r == "crash":
            self.restart(i)

    def again(self, i, op):
        self.env.fs.clear_errors()
        st = self.client.storage_backend
        if hasattr(st, "clear_errors"):
            st.clear_errors()
        self.env.open_op(i)
        self.env.probe("retry_after_error")
        return getattr(self, "op_" + op[0])(i, op, True)

    def op_insert(self, i, op, retry=False):
        _, dt, items, mode = op
        X = np.array([it[1] for it in items], dtype=dt).reshape(len(items), -1)
        if self.other(X.shape[1]):
            return
        self.dim = X.shape[1]
        metas = [dec(it[2]) for it in items]
        if mode == "none":
            eff, arg = [None] * len(items), None
        elif mode == "short" and self.family:
            n = len(items) // 2
            arg = metas[:n]
            eff = arg + [None] * (len(items) - n)
        else:
            eff, arg = metas, metas
        alts = [self.alt(X[j], eff[j]) for j in range(len(items))]
        r, v = run_op(self.env, lambda: self.client.insert(X, arg))
        if r == "ok":
            ids = list(v) if isinstance(v, (list, tuple)) else None
            if ids is None or len(ids) != len(items) or not all(isinstance(x, str) for x in ids):
                self.fail("result raise", "insert-result", "insert of %d vectors returned %r" % (len(items), v))
                self.pending += alts
                return
            if len(set(ids)) != len(ids) or any(x in self.model.allowed for x in ids):
                self.fail("result read sound", "insert-ids", "insert returned ids that are already in use: %r" % ids)
            for x, a, it in zip(ids, alts, items):
                self.ever = True
                self.model.ack(x, a)
                self.tags[it[0]] = x
                self.gone.discard(x)
            if self.mutate:
                scribble(v)
        else:
            self.pending += alts
            if r == "crash":
                return r
            expected = self.itype == "annoy" and self.built is not None
            if not expected:
                ok = self.err(v, "insert")
                if ok and not retry and self.scn.get("retry"):
                    return self.again(i, op)
        if self.mutate:
            scribble(X)
            scribble(arg)
            scribble(metas)

    def other(self, d):
        """Not the dimension of this index (a shrunk scenario may lack the reopening in between)."""
        return self.dim is not None and d != self.dim

    def refs(self, tags):
        return [self.tags.get(t, t) for t in tags]

    def op_update(self, i, op, retry=False):
        _, tag, dt, x, m = op
        id = self.tags.get(tag, tag)
        vec, meta = np.array(x, dtype=dt), dec(m)
        if self.other(len(vec)):
            return
        cur = self.model.get(id)
        keep = None
        if meta is None and not self.family:
            # LSH and Annoy keep the metadata when none is given
            keep = {self.alt(vec, None)[:1] + (a[1],) for a in cur if a}
            for a in keep:
                self.vals[a] = np.array(vec)
        alts = keep if keep else {self.alt(vec, meta)}
        r, v = run_op(self.env, lambda: self.client.update(id, vec, meta))
        if r == "ok" and v is True:
            if cur == {ABSENT}:
                self.fail("result ghost", "update-result", "update(%r) returned True for an id that is not stored" % id)
            for a in cur:
                if a is not None and a not in alts:
                    self.hist.setdefault(id, set()).add(a)
            self.model.ack(id, None)
            self.model.allowed[id] = set(alts)
            self.model.since[id] = set(alts)
            self.gone.discard(id)
        elif r == "ok" and not v:
            if ABSENT not in cur:
                self.fail("result raise", "update-result", "update(%r) reported failure for a stored id" % id)
            else:
                self.model.observe(id, ABSENT)
        elif r == "ok":
            self.fail("result", "update-result", "update returned %r" % (v,))
        else:
            if cur != {ABSENT}:
                for a in alts:
                    self.model.maybe(id, a)
            if r == "crash":
                return r
            built = self.itype == "annoy" and self.built is not None
            if cur != {ABSENT} and not built:
                ok = self.env.fired_in_op() or ABSENT in cur
                if not ok:
                    self.err(v, "update")
                elif not retry and self.scn.get("retry"):
                    return self.again(i, op)
        if self.mutate:
            scribble(vec)
            scribble(meta)

    def op_delete(self, i, op, retry=False):
        ids = self.refs(op[1])
        cur = {x: self.model.get(x) for x in ids}
        arg = list(ids)
        r, v = run_op(self.env, lambda: self.client.delete(arg))
        if r == "ok":
            if self.family:
                if v is True:
                    bad = [x for x in ids if cur[x] == {ABSENT}]
                    if bad:
                        self.fail("result", "delete-result", "delete returned True for unknown ids %r" % bad)
                elif all(ABSENT not in cur[x] for x in ids):
                    self.fail("result raise", "delete-result", "delete of stored ids returned %r" % (v,))
            elif v is not True and any(ABSENT not in c for c in cur.values()):
                self.fail("result raise", "delete-result", "delete of stored ids returned %r" % (v,))
            for x in ids:
                if v is True or self.family:
                    if cur[x] != {ABSENT}:
                        for a in cur[x] - {ABSENT}:
                            self.hist.setdefault(x, set()).add(a)
                    if cur[x] != {ABSENT}:
                        self.gone.add(x)
                    self.model.ack(x, ABSENT)
                else:
                    self.model.maybe(x, ABSENT)
        else:
            for x in ids:
                if cur[x] != {ABSENT}:
                    self.model.maybe(x, ABSENT)
            if r == "crash":
                return r
            ok = self.env.fired_in_op()
            unknown = self.itype == "annoy" and any(c == {ABSENT} for c in cur.values())
            if not ok and not unknown and any(ABSENT not in c for c in cur.values()):
                self.err(v, "delete")
            elif not retry and self.scn.get("retry"):
                return self.again(i, op)
        if self.mutate:
            scribble(arg)

    def op_bad(self, i, op):
        """Calls that must be rejected and must leave nothing behind."""
        _, call, what, tag = op
        dim = self.dim or self.scn["dim"]
        live = [x for x in self.model.must() if call != "update" or x != self.tags.get(tag, tag)]
        if what in ("dim", "dim1") and not live:
            return
        d = dim
        if what == "dim":
            d = dim + 2
        elif what == "dim1":
            d = 1 if dim > 1 else 3
        X = np.full((2, d), 0.5, dtype="<f4")
        if what in ("nan", "inf"):
            X[1, -1] = np.nan if what == "nan" else np.inf
        meta = dec({"t": "bad", "p": [{"__p": 1}]}) if what == "poison" else {"t": "bad"}
        if what == "object":
            X = np.array([["a"] * d, ["b"] * d], dtype=object)
        self.env.probe("bad_" + call)
        if call == "insert":
            if what == "ndim":
                X = X[0]
            elif what == "ndim3":
                X = X[None]
            metas = [{"t": "ok"}, meta]
            fine = None
            if what == "poison":
                fine = self.alt(X[0], {"t": "ok"})
            f = lambda: self.client.insert(X, metas)   # noqa: E731
        elif call == "update":
            id = self.tags.get(tag, tag)
            x = X if what == "ndim" else X[1]
            f = lambda: self.client.update(id, x, meta)   # noqa: E731
            fine = None
        else:
            q = X if what == "ndim" else X[1]
            r, v = run_op(self.env, lambda: self.client.search(q, 3))
            return r if r == "crash" else None
        r, v = run_op(self.env, f)
        if r == "crash":
            # nothing of it was acknowledged
            if fine:
                self.pending.append(fine)
            return r
        if r == "ok" and not (call == "update" and v is not True):
            if what == "poison":
                self.dead = True      # accepted: cannot be modelled, nothing promised
                return
            self.fail("accepted", "accepted", "%s accepted unusable input (%s)" % (call, what))
            self.dead = True
            return
        if fine:
            self.pending.append(fine)

    def op_build(self, i, op):
        if self.itype != "annoy" or self.built is not None:
            return
        r, v = run_op(self.env, self.client.index.build)
        if r == "err" and self.built is None:
            self.fail("raise", "raise", "build raised: %s" % v)
        if r == "ok" and self.built is None:
            if self.ever:
                self.built = set(self.model.may())
            else:
                self.empty_build = True

    def op_search(self, i, op, retry=False):
        _, qs, k = op
        x = qs["x"]
        if qs.get("like") is not None:
            for a in self.model.get(self.tags.get(qs["like"])):
                if a is not None:
                    x = self.vals[a]
        q = np.array(x, dtype=qs["dt"]) if not isinstance(x, np.ndarray) else x.copy()
        if self.other(len(q)):
            return
        q0 = q.copy()
        r, v = run_op(self.env, lambda: self.client.search(q, k))
        if r == "crash":
            return r
        if r == "err":
            if self.itype == "annoy" and self.built is None:
                return
            if not self.env.fired_in_op():
                self.fail("raise complete", "search-raise", "search raised without a reason: %s: %s" % (
                    type(v).__name__, v))
            elif not retry and self.scn.get("retry"):
                return self.again(i, op)
            return
        self.judge_search(q0, k, v)
        if self.mutate:
            if q.tobytes() != q0.tobytes():
                self.fail("sound", "query-changed", "search changed the query array it was given")
            scribble(q)
            scribble(v)

    def judge_search(self, q, k, R):
        m = self.model
        if not isinstance(R, list):
            self.fail("sound", "result-type", "search returned %r" % type(R))
            return
        if len(R) > k:
            self.fail("sound", "too-many", "search for %d returned %d entries" % (k, len(R)))
        seen = []
        ds = []
        for e in R:
            try:
                id, d, meta = str(e["id"]), float(e["distance"]), e["metadata"]
            except Exception as x:
                self.fail("sound", "entry", "malformed search result %r (%s)" % (e, x))
                return
            if not self.family and meta is None:
                meta = {}
            mk = canon(meta)
            ds.append(d)
            if id in seen:
                self.fail("sound", "duplicate", "search names %r twice" % id)
                continue
            seen.append(id)
            if id not in m.allowed and not self.attribute(id, mk, q, d):
                self.fail("sound ghost", "unknown-id", "search names %r, which no insert returned" % id)
                continue
            cur = m.get(id)
            if cur == {ABSENT}:
                self.fail("sound ghost read", "ghost", "search names the deleted id %r" % id)
                continue
            hit = [a for a in cur if a and a[1] == mk and self.near(q, a, d)]
            if not hit:
                old = [a for a in self.hist.get(id, ()) if a[1] == mk or self.near(q, a, d)]
                if old:
                    self.fail("stale sound", "stale", "search gives %r distance %r and metadata %s, as before its last "
                              "update; current: %s" % (id, d, mk[:80], brief(cur)))
                elif [a for a in cur if a and a[1] == mk]:
                    self.fail("sound stale", "wrong-distance", "search gives %r distance %r, true %s" % (
                        id, d, sorted({self.dist(q, a) for a in cur if a})))
                else:
                    self.fail("sound stale", "wrong-metadata", "search gives %r metadata %s, stored %s" % (
                        id, mk[:120], brief(cur)))
                continue
            if len(hit) == 1:
                m.observe(id, hit[0])
            else:
                m.narrow(id, True)
        sgn = -1 if self.itype in SIMILARITY else 1
        if self.itype == "lsh" and ds and min(ds) < self.scn["index"]["threshold"] - 1e-9:
            self.fail("sound", "threshold", "LSH returned the similarity %r, below its threshold %r" % (
                min(ds), self.scn["index"]["threshold"]))
        for a, b in zip(ds, ds[1:]):
            if sgn * a > sgn * b + 1e-9:
                self.fail("sound", "order", "search results are not ordered: %r" % ds)
                break
        self.judge_complete(q, k, seen, ds, sgn)

    def exact(self):
        c = self.scn["index"]
        t = self.itype
        if t == "flat":
            return True
        if t == "ivf":
            return c["n_probes"] >= c["n_clusters"] or c["n_clusters"] > self.total
        if t == "hnsw":
            return c["m"] > self.total and c["ef_search"] > self.total
        if t == "annoy":
            return self.built is not None and c.get("search_k", -1) == -1
        return False

    def judge_complete(self, q, k, seen, ds, sgn):
        m = self.model
        must = m.must()
        if self.itype == "annoy":
            must = must & (self.built or set())
        if self.exact():
            for id in sorted(must - set(seen)):
                if len(seen) < k:
                    self.fail("complete", "missing", "search for %d returned %d entries but not the stored %r" % (
                        k, len(seen), id))
                    return
                if k == 0:
                    return
                far = [self.dist(q, a) for a in m.get(id)]
                if any(f is None for f in far):
                    continue
                far = max(sgn * f for f in far)
                worst = max(sgn * d for d in ds)
                if far < worst - self.tol * (self.unit + abs(worst)):
                    self.fail("complete", "not-nearest", "search returned distances %r but not %r at %r" % (
                        ds, id, sgn * far))
                    return
        elif self.itype == "hnsw":
            if k >= 1 and must and not seen:
                self.fail("complete", "empty", "HNSW search is empty, %d vectors are stored" % len(must))
        elif self.itype == "ivf":
            # whatever is probed, the cluster of the query itself is
            for id in sorted(must - set(seen)):
                if len(m.get(id)) != 1 or self.scn["index"]["n_probes"] < 1:
                    continue
                a = next(iter(m.get(id)))
                v = self.vals[a]
                if v.shape != q.shape or not np.array_equal(np.asarray(v, float), np.asarray(q, float)):
                    continue
                s = self.dist(q, a)
                if s is None:
                    continue
                lim = s + self.tol * (self.unit + abs(s))
                ties = [x for x in m.may() if min((lim if f is None else f) for f in (
                    self.dist(q, b) for b in m.get(x) if b)) <= lim]
                if len(ties) <= k and not self.pending:
                    self.fail("complete", "ivf-self", "IVF search for a vector equal to the stored %r misses it" % id)
                    return
        elif self.itype == "lsh":
            thr = self.scn["index"]["threshold"]
            for id in must - set(seen):
                if len(m.get(id)) != 1:
                    continue
                a = next(iter(m.get(id)))
                v = self.vals[a]
                if v.shape != q.shape or not np.array_equal(np.asarray(v, float), np.asarray(q, float)):
                    continue
                s = self.dist(q, a)
                if s < thr + 1e-6:
                    continue
                ties = [x for x in m.may() if max(self.dist(q, b) for b in m.get(x) if b) >= s - self.tol]
                if len(ties) <= k and not self.pending:
                    self.fail("complete", "lsh-self", "LSH search for a vector equal to the stored %r misses it" % id)
                    return

    def op_sget(self, i, op, retry=False):
        if not self.family:
            return
        id = self.tags.get(op[1], op[1])
        r, v = run_op(self.env, lambda: self.client.storage_backend.retrieve_vector(id))
        if r == "crash":
            return r
        if r == "err":
            self.err(v, "retrieve_vector")
            return
        self.judge_stored(id, v)

    def judge_stored(self, id, v):
        got = ABSENT if v is None else self.alt(*v)
        cur = self.model.get(id)
        if got in cur:
            self.model.observe(id, got)
        elif got is ABSENT:
            self.fail("read", "lost", "storage holds nothing for %r, expected %s" % (id, brief(cur)))
        elif cur == {ABSENT}:
            self.fail("read ghost", "ghost", "storage still holds the deleted %r" % id)
        else:
            self.fail("read", "wrong-value", "storage holds %s for %r, expected %s" % (brief({got}), id, brief(cur)))
        if self.mutate and v is not None:
            scribble(v)

    def op_stats(self, i, op):
        r, v = run_op(self.env, self.client.get_stats)
        if r == "crash":
            return r
        if r == "err":
            self.err(v, "get_stats")
            return
        m = self.model
        lo, hi = len(m.must()), len(m.may()) + len(self.pending)
        got = {}
        ix = v["index"]
        got["index"] = ix["vector_count"] if "vector_count" in ix else ix["num_vectors"]
        if self.family:
            s = v["storage"].get("disk", v["storage"]) if self.scn["kind"] == "hybrid" else v["storage"]
            if "error" not in s:
                got["storage"] = s["vector_count"]
        for n in got:
            if not lo <= got[n] <= hi:
                self.fail("stats", "count", "%s statistics report %r vectors, %d..%d are stored" % (n, got[n], lo, hi))
        if self.mutate:
            scribble(v)

    def op_reopen(self, i, op):
        r, v = run_op(self.env, self.client.close)
        if r == "crash":
            return r
        if r == "err":
            self.err(v, "close")
        self.env.probe("reopen_" + op[1])
        if self.scn["kind"] in ("memory", "flaky") or not self.family:
            self.reset()
        self.start(op[1] == "same")

    def op_audit(self, i, op):
        """Everything stored and searchable, with faults over."""
        self.env.fs.clear_errors()
        st = self.client.storage_backend
        if hasattr(st, "clear_errors"):
            st.clear_errors()
        self.env.open_op(i)
        if self.family:
            r, v = run_op(self.env, lambda: st.list_vectors())
            if r == "crash":
                return r
            if r == "err":
                self.err(v, "list_vectors")
            else:
                for x in v:
                    if x not in self.model.allowed and not self.attribute(x):
                        self.fail("read ghost", "unknown-id", "storage lists %r, which no insert returned" % x)
                miss = self.model.must() - set(v)
                if miss:
                    self.fail("read", "lost", "storage does not list %r" % sorted(miss))
                if self.mutate:
                    scribble(v)
            for id in sorted(self.model.ids()):
                r, v = run_op(self.env, lambda: st.retrieve_vector(id))
                if r == "crash":
                    return r
                if r == "err":
                    self.err(v, "retrieve_vector")
                    continue
                self.judge_stored(id, v)
        n = len(self.model.may()) + len(self.pending) + 3
        dim = self.dim or self.scn["dim"]
        for x in ([0.25] * dim, [(-1) ** j * (j + 1) / 2 for j in range(dim)]):
            r = self.op_search(i, ["search", {"x": x, "dt": "<f4"}, n])
            if r == "crash":
                return r
        must = sorted(self.model.must())
        for id in must[:2] + (must[20::max(20, len(must) // 4)]):
            a = next(iter(self.model.get(id)))
            v = self.vals[a]
            r = self.op_search(i, ["search", {"x": [float(c) for c in v], "dt": v.dtype.str}, n])
            if r == "crash":
                return r
        return self.op_stats(i, op)

    def run(self):
        env, scn = self.env, self.scn
        env.step(900, "open")
        self.start()
        ops = scn["ops"]
        for i, op in enumerate(ops):
            if self.dead:
                return
            self.do(i, op)
        n = len(ops)
        env.fs.clear_errors()
        tail = [["audit"]]
        d = self.dim or scn["dim"]
        if scn.get("tail"):
            if self.family and scn["kind"] in ("disk", "hybrid"):
                tail += [["reopen", "new"], ["audit"]]
            tail += [["insert", "<f4", [["end%d" % j, [0.5 + j] * d, {"end": j}] for j in range(2)], "list"],
                     ["update", "end0", "<f4", [2.5] * d, {"end": "u"}], ["audit"],
                     ["delete", ["end1"]], ["audit"]]
            if self.itype == "annoy" and (self.built is not None or self.empty_build):
                tail = tail[:1]
        for j, op in enumerate(tail):
            if self.dead:
                return
            self.do(n + j, op)


# -- generation ------------------------------------------------------------
def gen_index(rng, itypes):
    t = rng.choice(itypes)
    c = {"type": t, "metric": rng.choice(["cosine", "euclidean"])}
    if t == "hnsw":
        if rng.random() < 0.6:
            c.update(m=200, ef_search=200)
        else:
            c.update(m=rng.choice([1, 2, 3, 5]), ef_search=rng.choice([1, 2, 5, 50]))
        c["ef_construction"] = rng.choice([1, 10, 200])
    elif t == "ivf":
        n = rng.choice([1, 2, 3, 5, 100])
        c.update(n_clusters=n, n_probes=rng.choice([n, n, n + 1, 1, 2]))
    elif t == "lsh":
        h = rng.choice([1, 2, 4, 16])
        c.update(metric=rng.choice(["cosine", "euclidean", "manhattan"]), hash_size=h,
                 num_projections=rng.choice([h, h + 1, 2 * h, 64]), num_hash_tables=rng.choice([1, 2, 5, 10]),
                 threshold=rng.choice([-2.0, 0.0, 0.3, 0.5, 0.9]), random_seed=rng.randrange(100))
    elif t == "annoy":
        c.update(metric=rng.choice(["angular", "euclidean", "manhattan"]), num_trees=rng.choice([1, 2, 10]))
        if rng.random() < 0.5:
            c["search_k"] = rng.choice([-1, -1, 1, 5])
    return c


BAD = [("insert", "nan"), ("insert", "inf"), ("insert", "dim"), ("insert", "dim1"), ("insert", "ndim"),
       ("insert", "ndim3"), ("insert", "poison"), ("insert", "object"), ("update", "nan"), ("update", "dim"),
       ("update", "dim1"), ("update", "poison"), ("update", "ndim"), ("search", "dim"), ("search", "ndim"),
       ("search", "nan")]
GHOSTS = ["ghost-1", "-1", "00", "999", " 0", "x"]


BULK = 0.01       # share of runs with one insert of 40 to 1100 vectors


def gen_client(rng, tier, seed, kinds, itypes, weights=None):
    dim = rng.choice([1, 2, 2, 3, 4, 8]) if rng.random() < 0.97 else rng.choice([16, 40, 130])
    ix = gen_index(rng, itypes)
    kind = rng.choice(kinds) if ix["type"] in FAMILY else "memory"
    bulk = 0
    if dim < 16 and rng.random() < BULK:
        bulk = rng.choice([40, 70, 130, 130, 270, 270])
        if ix["type"] == "hnsw":
            bulk = min(bulk, 130 if kind == "memory" else 70)
            if rng.random() < 0.7:
                ix.update(m=1000, ef_search=1000)
        elif ix["type"] == "lsh" and rng.random() < 0.7:
            # one or two full buckets
            ix.update(hash_size=1, num_projections=rng.choice([1, 2]), num_hash_tables=rng.choice([1, 1, 2]),
                      threshold=-2.0)
        elif ix["type"] in ("flat", "ivf") and kind == "memory" and rng.random() < 0.15:
            bulk = 1100
    n = rng.choice([4, 8, 12, 20] if tier == "quick" else [4, 8, 12, 20, 35, 60])
    w = {"insert": rng.choice([2, 3, 5]), "search": rng.choice([1, 3]), "update": rng.choice([0, 1, 3]),
         "delete": rng.choice([0, 1, 3]), "stats": rng.choice([0, 0.5]), "sget": rng.choice([0, 0.5]),
         "reopen": rng.choice([0, 0, 0.3, 1]), "audit": rng.choice([0, 0.3]), "bad": 0}
    if ix["type"] == "annoy":
        w["build"] = rng.choice([0.3, 1])
    w.update(weights or {})
    w = {k: (v(rng) if callable(v) else v) for k, v in w.items()}
    names = list(w)
    dts = rng.choice([["<f4"], ["<f4"], ["<f8"], ["<f4", "<f8"], ["<f4", "<f8", "<i8"]])
    if rng.random() < 0.08:
        dts = [rng.choice(["|u1", "|i1", "<i2", "<u4", "<i8", "<f2"]), rng.choice(["<f4", "<f8"])]
    whole = any(d[1] in "iu" for d in dts)
    mul = 1000 if rng.random() < 0.1 else 1
    scale, smooth = 1.0, rng.random() < 0.2
    off = 0
    if rng.random() < 0.07 and dts[0] in ("<f4", "<f8", "<i8"):
        off = rng.choice([2 ** 20, -2 ** 18])        # far from the origin, close to each other
    if not whole and "<f2" not in dts and not off and rng.random() < 0.12:
        # Annoy multiplies squared norms in float32
        mul = scale = 2.0 ** rng.choice([20, -12] if ix["type"] == "annoy" else [20, 40, -12, -30])
    tags, vecs, ops = [], [], []
    c = [0]

    def coords():
        r = rng.random()
        if vecs and r < 0.15:
            return list(rng.choice(vecs))
        if r < 0.18:
            return [0.0] * dim
        if vecs and r < 0.24:
            f = rng.choice([2.0, -1.0, 0.5])
            return [f * x for x in rng.choice(vecs)]
        if smooth and rng.random() < 0.7:
            x = [off + rng.gauss(0, 1) for _ in range(dim)] if scale > 1 else [rng.gauss(0, 1) * scale for _ in range(dim)]
        else:
            x = [off + gens.rcoord(rng) * mul for _ in range(dim)]
        vecs.append(x)
        return x

    def tag():
        if tags and rng.random() < 0.9:
            return rng.choice(tags[-8:] if rng.random() < 0.5 else tags)
        return rng.choice(GHOSTS)

    def meta():
        if rng.random() < 0.5:
            c[0] += 1
            return rng.choice([{"t": c[0]}, {"t": c[0], "n": {"u": [c[0], {"w": 1}]}}])
        return {} if rng.random() < 0.1 else gens.rmeta(rng)

    def xs(dt):
        x = coords()
        if dt[1] in "iu":
            lo, hi = {"|u1": (0, 200), "|i1": (-100, 100), "<i2": (-30000, 30000), "<u4": (0, 2 ** 31)}.get(dt, (-2 ** 40, 2 ** 40))
            return [min(max(int(round(a * (20 if dt != "<i8" else 1))), lo), hi) for a in x]
        return [min(max(a, -100.0), 100.0) for a in x] if dt == "<f2" else x
    at = rng.randrange(n) if bulk else -1
    for j in range(n):
        k = rng.choices(names, [w[x] for x in names])[0] if j and j != at else "insert"
        dt = rng.choice(dts)
        if k == "insert":
            items = []
            m = rng.choice([1, 1, 2, 3, 5]) if rng.random() < 0.97 else 0
            for _ in range(bulk if j == at else m):
                t = "t%d" % len(tags)
                tags.append(t)
                items.append([t, xs(dt), meta()])
            if not items:
                continue
            ops.append(["insert", dt, items, rng.choice(["list", "list", "list", "none", "short"])])
            if j == at and rng.random() < 0.6:
                if ix["type"] == "annoy":
                    ops.append(["build"])
                if rng.random() < 0.7:
                    ops.append(["delete", sorted(rng.sample(tags[-bulk:], rng.choice([12, bulk // 3, bulk - 5])))])
                for _ in range(3):
                    ops.append(["search", {"x": xs(dt), "dt": dt, "like": rng.choice(tags)}, rng.choice([1, 2, 3, 15, bulk])])
                ops.append(["search", {"x": xs(dt), "dt": dt, "like": rng.choice(tags[-9:])}, rng.choice([3, 15, bulk])])
        elif k == "search":
            q = {"x": xs(dt), "dt": dt}
            if tags and rng.random() < 0.4:
                q["like"] = tag()
            ops.append(["search", q, rng.choice([0, 1, 1, 2, 3, 5, 10, 50] + [bulk, bulk // 2] * bool(bulk))])
        elif k == "update":
            ops.append(["update", tag(), dt, xs(dt), meta()])
        elif k == "delete":
            ops.append(["delete", sorted({tag() for _ in range(rng.choice([1, 1, 2, 4] + [bulk // 2] * bool(bulk)))})])
        elif k == "bad":
            ops.append(["bad"] + list(rng.choice(BAD)) + [tag()])
        elif k == "sget":
            ops.append(["sget", tag()])
        elif k == "reopen":
            ops.append(["reopen", rng.choice(["new", "same"])])
            if ix["type"] not in FAMILY and rng.random() < 0.4:
                # an emptied index takes vectors of another dimension
                dim = rng.choice([1, 2, 3, 4, 8])
                vecs.clear()
        else:
            ops.append([k])
        if ix["type"] == "annoy" and k == "build" and rng.random() < 0.4:
            ops.append(["reopen", rng.choice(["new", "same"])])
    limit = rng.choice([1, 2, 3, 100] + [60, 1000] * bool(bulk))
    return {"seed": seed, "kind": kind, "limit": limit, "index": ix, "dim": dim, "ops": ops, "scale": scale,
            "faults": [], "sfaults": [], "buf": rng.choice([64, 512, 8192]), "retry": rng.random() < 0.5,
            "tail": rng.random() < 0.7}


REAL = ["valori.client", "valori.indices.flat / hnsw / ivf / lsh / annoy", "valori.storage.memory / disk / hybrid",
        "scikit-learn, annoy, numpy"]
STUBS = ["file system (in-memory, power-loss model)", "clock", "os.urandom and random (seeded)",
         "failing storage wrapper (some runs)"]


class ClientProp(Prop):
    cats = ()
    kinds = ("memory", "memory", "hybrid", "disk", "flaky")
    itypes = ("flat", "hnsw", "ivf", "lsh", "annoy")
    weights = None
    p_fault = 0.5
    real = REAL
    stubs = STUBS
    quick = (30000, 25)
    thorough = (2000000, 900)
    assumptions = ["coordinates are multiples of 1/4 times a power of two, or Gaussian (float32, float64 or signed "
                   "integers); distances are compared with a relative tolerance of 2e-5 (Annoy angular 2e-3)",
                   "LSH runs with hash_size at most num_projections; Annoy is built in memory; LSH and Annoy promise no "
                   "persistence, updating them without metadata keeps the metadata"]

    def wanted(self, rng):
        if rng.random() < 0.5:
            return [error_fault(rng) for _ in range(rng.choice([1, 1, 2, 4]))]
        return [crash_fault(rng) for _ in range(rng.choice([1, 1, 2]))]

    def sfaults(self, rng, ops):
        out, used = [], set()
        for _ in range(rng.choice([1, 1, 2, 4])):
            o = rng.randrange(len(ops))
            n = rng.choice([0, 0, 0, 1, 1, 2, 3])
            if (o, n) not in used:
                used.add((o, n))
                out.append({"op": o, "n": n, "when": rng.choice(["before", "after"]),
                            "dur": rng.choice([1, 1, 1, 2, 5])})
        return out

    def gen(self, rng, tier, seed):
        scn = gen_client(rng, tier, seed, self.kinds, self.itypes, self.weights)
        if scn["kind"] == "flaky":
            scn["sfaults"] = self.sfaults(rng, scn["ops"])
        elif scn["kind"] in ("disk", "hybrid") and rng.random() < self.p_fault:
            dry = self.run(scn, kinds=True)
            scn["faults"] = place_faults(rng, dry.counts, dry.kinds, self.wanted(rng))
            cr = [f for f in scn["faults"] if f["kind"] == "crash"]
            if cr and rng.random() < 0.3:
                c = crash_fault(rng)
                c.pop("prefer")
                scn["faults"].append(dict(c, op=1000 + cr[0]["op"], n=rng.randint(0, 8)))
        return scn

    def run(self, scn, keep_log=False, kinds=False):
        env = Env(scn, keep_log)
        env.fs.record_kinds = kinds
        with env:
            w = ClientWorld(env, scn, self.cats)
            w.run()
        return Outcome(env)

    def shrink_values(self, scn):
        for i, op in enumerate(scn["ops"]):
            if op[0] == "insert" and len(op[2]) > 8:
                for m in (2, 4):
                    for j in range(m):
                        a, b = j * len(op[2]) // m, (j + 1) * len(op[2]) // m
                        c = copy.deepcopy(scn)
                        del c["ops"][i][2][a:b]
                        yield c
            if op[0] == "insert" and len(op[2]) > 1:
                for j in range(len(op[2])):
                    c = copy.deepcopy(scn)
                    del c["ops"][i][2][j]
                    yield c
            if op[0] == "delete" and len(op[1]) > 1:
                for j in range(len(op[1])):
                    c = copy.deepcopy(scn)
                    del c["ops"][i][1][j]
                    yield c
        if scn.get("tail"):
            yield dict(copy.deepcopy(scn), tail=False)
        if scn["kind"] in ("hybrid", "disk") and not scn["faults"]:
            yield dict(copy.deepcopy(scn), kind="memory")


def has(scn, *names):
    return any(o[0] in names for o in scn["ops"])


class C07(ClientProp):
    id = "C07"
    cats = ("sound",)
    rule = ("seeded histories of insert/update/delete/search/reopen on every index type and storage, with failing "
            "storage calls, file-system errors and crashes; every search result compared with a double-precision "
            "reference; non-trivial: at least one search after an insert")

    def nontrivial(self, scn, out):
        return has(scn, "search", "audit")


class C08(ClientProp):
    id = "C08"
    cats = ("complete",)
    itypes = ("flat", "hnsw", "hnsw", "ivf", "lsh", "annoy")
    rule = C07.rule.replace("compared with", "checked for missing nearest vectors against")

    def nontrivial(self, scn, out):
        return has(scn, "search", "audit")


class C09(ClientProp):
    id = "C09"
    cats = ("sound", "complete", "raise", "result", "read", "stats", "reopen")
    kinds = ("disk", "disk", "hybrid")
    itypes = FAMILY
    p_fault = 0.75
    weights = {"reopen": lambda rng: rng.choice([0.3, 1, 2])}
    rule = ("client histories on disk and hybrid storage with process kills and power losses at random file-system "
            "calls, also while reopening; afterwards everything is read, searched, updated and deleted against the "
            "model; non-trivial: a crash fired or the database was reopened")

    def wanted(self, rng):
        return [crash_fault(rng) for _ in range(rng.choice([1, 1, 1, 2, 3]))]

    def nontrivial(self, scn, out):
        return any(k.startswith("reopen") or k.startswith("reboot") for k in out.probes)


class C10(ClientProp):
    id = "C10"
    cats = ("ghost", "stale", "result", "complete")
    weights = {"update": lambda rng: rng.choice([1, 3]), "delete": lambda rng: rng.choice([1, 3])}
    rule = ("client histories rich in updates and deletes of live, deleted and unknown ids on every index; "
            "non-trivial: at least one update or delete")

    def nontrivial(self, scn, out):
        return has(scn, "update", "delete")


class C18(ClientProp):
    id = "C18"
    cats = ("sound", "complete", "raise", "result", "read", "stats", "ghost", "stale", "accepted")
    kinds = ("memory", "flaky", "flaky", "disk", "hybrid")
    weights = {"bad": lambda rng: rng.choice([1, 2, 4]), "reopen": 0.1}
    p_fault = 0.9
    rule = ("client histories with rejected calls (NaN, infinite, wrong dimension or shape, uncopyable metadata, odd "
            "dtype) and failing storage or file-system calls at random points; the whole database is audited against "
            "the model; non-trivial: a call was rejected or a storage failure fired")

    def wanted(self, rng):
        return [error_fault(rng) for _ in range(rng.choice([1, 1, 2, 4]))]

    def nontrivial(self, scn, out):
        return any(k.startswith("bad_") for k in out.probes) or bool(out.fired)


class C20(ClientProp):
    id = "C20"
    cats = ("sound", "complete", "raise", "result", "read", "stats", "ghost", "stale")
    kinds = ("memory", "memory", "hybrid", "disk")
    weights = {"reopen": 0.1}
    p_fault = 0
    rule = ("client and storage histories in which the caller overwrites, after every call, all arrays, metadata "
            "objects and lists it passed in or got back; everything is compared with the model; non-trivial: a read "
            "or search follows an insert")

    def gen(self, rng, tier, seed):
        if rng.random() < 0.35:
            kind = rng.choice(["memory", "disk", "hybrid"])
            ids = gens.rid(rng, rng.choice([1, 2, 3, 4]))
            return {"seed": seed, "world": "storage", "kind": kind, "limit": rng.choice([1, 2, 3, 100]),
                    "ops": gen_ops(rng, ids, rng.choice([4, 8, 14, 25])), "faults": [], "buf": 8192,
                    "retry": False, "mutate": True}
        scn = super().gen(rng, tier, seed)
        scn["mutate"] = True
        return scn

    def run(self, scn, keep_log=False, kinds=False):
        if scn.get("world") != "storage":
            return super().run(scn, keep_log, kinds)
        env = Env(scn, keep_log)
        with env:
            StorageWorld(env, scn, ("count",)).run()
        return Outcome(env)

    def shrink_values(self, scn):
        if scn.get("world") == "storage":
            return iter(())
        return super().shrink_values(scn)


PROPS = [C07(), C08(), C09(), C10(), C18(), C20()]

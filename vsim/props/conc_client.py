"""C06: one client used by several threads; linearizability of the whole database."""
import numpy as np

from ..conc import Hist, conc_outcome, linearizable, rsched, run_threads
from ..core import Env, canon, mkvec, run_op, vkey
from ..prop import Prop
from .client import REAL, STUBS, gen_index, make_client, true_distance


class World:
    def __init__(self, env, scn):
        self.env, self.scn = env, scn
        self.itype = scn["index"]["type"]
        self.metric = scn["index"]["metric"]
        self.tol = 2e-5
        self.tags = {}
        self.vals = {}
        self.hist = Hist(env)
        self.client = make_client(env, scn)

    def alt(self, vec, meta):
        a = (vkey(vec), canon(meta))
        self.vals[a] = np.array(vec)
        return a

    def one(self, thr, op):
        c, h = self.client, self.hist
        k = op[0]
        if k == "insert":
            X = np.array([it[1] for it in op[1]], dtype="<f4")
            metas = [it[2] for it in op[1]]
            alts = [self.alt(X[j], metas[j]) for j in range(len(metas))]
            r, v = h.call(thr, ["insert", alts], lambda: c.insert(X, metas))
            if r == "ok":
                try:
                    for it, x in zip(op[1], v):
                        self.tags[it[0]] = str(x)
                except TypeError:
                    pass
        elif k == "update":
            vec = mkvec({"x": op[2], "dt": "<f4"})
            id = self.tags.get(op[1], op[1])
            h.call(thr, ["update", id, self.alt(vec, op[3])], lambda: c.update(id, vec, op[3]))
        elif k == "delete":
            ids = [self.tags.get(t, t) for t in op[1]]
            h.call(thr, ["delete", list(ids)], lambda: c.delete(ids))
        elif k == "search":
            q = mkvec({"x": op[1], "dt": "<f4"})
            h.call(thr, ["search", q, op[2]], lambda: c.search(q, op[2]))
        elif k == "stats":
            h.call(thr, ["stats"], c.get_stats)
        elif k == "get":
            h.call(thr, ["get", op[1]], lambda: c.storage_backend.retrieve_vector(op[1]))
        elif k == "list":
            h.call(thr, ["list"], lambda: c.storage_backend.list_vectors())

    def run(self):
        env, scn = self.env, self.scn
        env.step(0, "conc")
        r, v = run_op(env, self.client.initialize)
        if r != "ok":
            env.fail("raise", "initialize raised %s" % v)
            return None
        threads = {}
        for op in scn["ops"]:
            threads.setdefault(op[0], []).append(op[1:])
        for op in threads.pop(-1, []):
            self.one(-1, op)
        bodies = []
        for thr in sorted(threads):
            def body(thr=thr, ops=threads[thr]):
                for op in ops:
                    self.one(thr, op)
            bodies.append(body)
        sched = run_threads(env, scn, bodies) if bodies else None
        if sched is not None and sched.problem:
            env.fail("stuck", sched.problem)
            return sched
        ids = sorted(set(self.tags.values()))
        d = scn["dim"]
        if self.itype != "lsh":
            for i in ids:
                self.one(99, ["get", i])
            self.one(99, ["list"])
        for x in ([0.25] * d, [(-1) ** j * (j + 1) / 2 for j in range(d)]):
            self.one(99, ["search", x, len(ids) + 3])
        self.one(99, ["stats"])
        self.judge()
        return sched

    # -- judging --------------------------------------------------------------
    def exact(self):
        c = self.scn["index"]
        if self.itype == "flat":
            return True
        if self.itype == "ivf":
            return c["n_probes"] >= c["n_clusters"] or c["n_clusters"] > 60
        return self.itype == "hnsw" and c["m"] >= 200

    def judge(self):
        env = self.env
        evs = []
        used = set()
        for e in self.hist.events:
            k = e["op"][0]
            if e["r"] != "ok":
                env.fail("raise", "%s raised in thread %s: %s: %s" % (k, e["thr"], type(e["v"]).__name__, e["v"]))
                return
            v = e["v"]
            try:
                if k == "insert":
                    ids = [str(x) for x in v]
                    if len(ids) != len(e["op"][1]):
                        raise ValueError("%d ids for %d vectors" % (len(ids), len(e["op"][1])))
                    if len(set(ids)) != len(ids) or used & set(ids):
                        env.fail("same-id", "two inserted vectors got the same id: %r" % ids)
                        return
                    used |= set(ids)
                    op = ("insert", tuple(zip(ids, e["op"][1])))
                elif k == "update":
                    op = ("update", e["op"][1], e["op"][2], bool(v))
                elif k == "delete":
                    op = ("delete", tuple(e["op"][1]), bool(v))
                elif k == "search":
                    R = [(str(x["id"]), canon(x["metadata"] or {}), float(x["distance"])) for x in v]
                    q, kk = e["op"][1], e["op"][2]
                    ids = [x[0] for x in R]
                    sgn = -1 if self.itype == "lsh" else 1
                    if len(set(ids)) != len(ids):
                        env.fail("duplicate", "a search names an id twice: %r" % ids)
                        return
                    if len(R) > kk:
                        env.fail("too-many", "search for %d returned %d entries" % (kk, len(R)))
                    if any(sgn * a[2] > sgn * b[2] + 1e-9 for a, b in zip(R, R[1:])):
                        env.fail("order", "search results are not ordered: %r" % [x[2] for x in R])
                    op = ("search", q, kk, R)
                elif k == "stats":
                    ix = v["index"]
                    n = [ix.get("vector_count", ix.get("num_vectors"))]
                    if self.itype != "lsh":
                        s = v["storage"]
                        n.append(s.get("disk", s)["vector_count"] if self.scn["kind"] == "hybrid"
                                 else s["vector_count"])
                    op = ("stats", n)
                elif k == "get":
                    op = ("get", e["op"][1], None if v is None else (vkey(v[0]), canon(v[1])))
                else:
                    op = ("list", frozenset(v), len(v))
            except (TypeError, KeyError, ValueError) as x:
                env.fail("result", "%s returned %r (%s)" % (k, v, x))
                return
            evs.append((e["s"], e["e"], op))
        if not linearizable(evs, (), self.step):
            env.fail("not-linearizable", "no order of the calls explains the history: " + "; ".join(
                "[%d,%d] %s" % (s, t, self.show(o)) for s, t, o in sorted(evs, key=lambda z: z[0]))[:1500])

    def show(self, o):
        if o[0] == "insert":
            return "insert " + ",".join("%s=%s" % (i[:4], a[1][-8:]) for i, a in o[1])
        if o[0] == "search":
            return "search k=%d -> %s" % (o[2], [(i[:4], m[-8:], round(d, 3)) for i, m, d in o[3]])
        if o[0] == "update":
            return "update %s=%s -> %s" % (o[1][:4], o[2][1][-8:], o[3])
        if o[0] == "delete":
            return "delete %s -> %s" % ([i[:4] for i in o[1]], o[2])
        if o[0] == "get":
            return "stored %s = %s" % (o[1][:4], o[2] and o[2][1][-8:])
        if o[0] == "list":
            return "listed %s" % sorted(i[:4] for i in o[1])
        return str(o)

    def step(self, state, op):
        k = op[0]
        db = dict(state)
        if k == "insert":
            db.update(op[1])
            return [tuple(sorted(db.items()))]
        if k == "update":
            _, id, alt, res = op
            if res != (id in db):
                return []
            if res:
                db[id] = alt
                return [tuple(sorted(db.items()))]
            return [state]
        if k == "delete":
            _, ids, res = op
            if self.itype != "lsh" and res != all(i in db for i in ids):
                return []
            for i in ids:
                db.pop(i, None)
            return [tuple(sorted(db.items()))]
        if k == "stats":
            return [state] if all(n == len(db) for n in op[1]) else []
        if k == "get":
            return [state] if db.get(op[1]) == op[2] else []
        if k == "list":
            return [state] if set(db) == op[1] and len(db) == op[2] else []
        return [state] if self.search_ok(db, op[1], op[2], op[3]) else []

    def search_ok(self, db, q, k, R):
        dist = {i: true_distance(self.itype, self.metric, q, self.vals[a]) for i, a in db.items()}
        for i, m, d in R:
            if i not in db or db[i][1] != m or abs(dist[i] - d) > self.tol * (1 + abs(d)):
                return False
        rest = [dist[i] for i in db if i not in {x[0] for x in R}]
        if self.exact():
            if len(R) < k and rest:
                return False
            if rest and R and min(rest) < max(x[2] for x in R) - self.tol * 10:
                return False
        elif self.itype == "hnsw" and db and k and not R:
            return False
        elif self.itype == "lsh":
            thr = self.scn["index"]["threshold"]
            have = {x[0] for x in R}
            for i, a in db.items():
                if i not in have and np.array_equal(self.vals[a], q) and dist[i] >= thr + 1e-6 and \
                        sum(1 for j in db if dist[j] >= dist[i] - self.tol) <= k:
                    return False
        return True


def gen(rng, seed):
    ix = gen_index(rng, ["flat", "flat", "hnsw", "ivf", "ivf", "lsh"])
    dim = rng.choice([2, 3])
    kind = "memory" if ix["type"] == "lsh" else rng.choice(["memory", "memory", "hybrid", "disk"])
    nt = rng.choice([2, 2, 3, 4])
    ops, c = [], [0]
    w = {"insert": rng.choice([2, 4]), "search": rng.choice([1, 3]), "update": rng.choice([1, 3]),
         "delete": rng.choice([1, 2]), "stats": rng.choice([0, 0.5])}
    setup, vecs = [], []

    def vec():
        c[0] += 1
        x = [rng.randint(-20, 20) / 4 for _ in range(dim)]
        vecs.append(x)
        return x, {"t": c[0]}

    def insert(mine, n):
        items = []
        for _ in range(n):
            x, m = vec()
            t = "t%d" % c[0]
            mine.append(t)
            items.append([t, x, m])
        return ["insert", items]
    if rng.random() < 0.8:
        ops.append([-1] + insert(setup, rng.choice([1, 2, 4])))
    for t in range(nt):
        mine = list(setup)
        for _ in range(rng.choice([1, 2, 3]) if nt < 4 else rng.choice([1, 2])):
            k = rng.choices(list(w), list(w.values()))[0]
            if k == "insert" or (k in ("update", "delete") and not mine):
                ops.append([t] + insert(mine, rng.choice([1, 1, 2, 3])))
            elif k == "update":
                x, m = vec()
                ops.append([t, "update", rng.choice(mine), x, m])
            elif k == "delete":
                ops.append([t, "delete", sorted({rng.choice(mine) for _ in range(rng.choice([1, 2]))})])
            elif k == "search":
                q = rng.choice(vecs) if vecs and rng.random() < 0.4 else [rng.randint(-9, 9) / 4 for _ in range(dim)]
                ops.append([t, "search", q, rng.choice([1, 2, 3, 20])])
            else:
                ops.append([t, "stats"])
    return {"seed": seed, "kind": kind, "limit": rng.choice([1, 2, 100]), "index": ix, "dim": dim, "ops": ops,
            "sched": rsched(rng), "buf": 8192}


class C06(Prop):
    id = "C06"
    quick = (30000, 25)
    thorough = (3000000, 900)
    real = REAL + ["threading.RLock semantics via simulated locks"]
    stubs = STUBS + ["threads (deterministic baton scheduler, preemption at every bytecode of valori)"]
    assumptions = ["threads interleave at bytecode boundaries of valori code (C calls are atomic, as under the GIL)",
                   "Annoy (immutable after build) is not part of the concurrent histories"]
    rule = ("2-4 simulated threads with 1-3 random client calls each (flat, HNSW, IVF, LSH; memory, disk, hybrid), "
            "preempted at random bytecodes, locks and file-system calls; linearizability of the whole history against "
            "a model database, including the final contents; non-trivial: at least two thread switches")

    def gen(self, rng, tier, seed):
        return gen(rng, seed)

    def run(self, scn, keep_log=False):
        env = Env(scn, keep_log)
        with env:
            sched = World(env, scn).run()
        return conc_outcome(env, sched)

    def nontrivial(self, scn, out):
        return out.switches >= 2


PROPS = [C06()]

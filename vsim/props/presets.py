"""C29: presets, templates and factories give independent, working databases of the described kind."""
import copy
import importlib.util
import os

import numpy as np

from ..boot import REPO
from ..conc import conc_outcome, rsched, run_threads
from ..core import Env, canon, crash_fault, error_fault, place_faults, run_op, scribble
from ..prop import Prop
from ..simfs import DEFAULT_DIR

KINDS = {"flat": "FlatIndex", "hnsw": "HNSWIndex", "ivf": "IVFIndex", "lsh": "LSHIndex", "annoy": "AnnoyIndex"}
STORES = {"memory": "MemoryStorage", "disk": "DiskStorage", "hybrid": "HybridStorage"}
PARAMS = ("metric", "m", "ef_construction", "ef_search", "num_trees", "search_k", "n_probes", "num_hash_tables",
          "hash_size", "num_projections", "threshold", "n_clusters")
TEMPLATES = ["small_dataset", "medium_dataset", "large_dataset", "high_dimensional", "real_time_search", "document_search"]
INDEX_NAMES = [("flat", "flat"), ("annoy_fast", "annoy"), ("annoy_accurate", "annoy"), ("hnsw_balanced", "hnsw"),
               ("ivf_efficient", "ivf"), ("ivf_fast", "ivf"), ("lsh_balanced", "lsh"), ("lsh_precise", "lsh"),
               ("lsh_fast", "lsh"), ("annoy_minimal", "annoy"), ("hnsw_fast", "hnsw")]
GROUPS = ["small_dataset", "medium_dataset", "large_dataset", "high_dimensional", "real_time"]
PRISTINE = {}


def fresh(name):
    spec = importlib.util.spec_from_file_location("valori." + name, os.path.join(REPO, "src/valori/%s.py" % name))
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m


def pristine():
    """The presets as the source states them."""
    if not PRISTINE:
        m, f = fresh("configs"), fresh("factory")
        PRISTINE["maps"] = copy.deepcopy({"index": m.INDEX_CONFIGS, "storage": m.STORAGE_CONFIGS, "document": m.DOCUMENT_CONFIGS,
                                          "embedding": m.EMBEDDING_CONFIGS, "application": m.APPLICATION_CONFIGS,
                                          "performance": m.PERFORMANCE_CONFIGS})
        PRISTINE["templates"] = copy.deepcopy(f.TEMPLATES)
    return PRISTINE


def preset(cat, name):
    m = pristine()["maps"][cat]
    if cat == "index":
        for g in m:
            if name == g:
                return m[g]
            if name in m[g]:
                return m[g][name]
        return None
    if name in m:
        return m[name]
    if cat == "storage":
        for c in m.values():
            if c["type"] == name:
                return c
    return None


def advised(n, d, use):
    if n < 1000:
        return "flat"
    if n < 100000:
        return "hnsw" if use == "accuracy" else "annoy"
    return "lsh" if d > 1000 else "ivf"


class Slot:
    def __init__(self, how, kind, store, where):
        self.how, self.kind, self.store, self.where = how, kind, store, where
        self.client = self.old = None
        self.recs = {}          # id -> (vector, metadata)
        self.maybe = []         # batches whose insertion was not acknowledged
        self.partial = False    # the index does not have all of it
        self.own = kind in ("lsh", "annoy")     # keeps its vectors itself and nothing over a close


class PresetWorld:
    def __init__(self, env, scn):
        self.env, self.scn = env, scn
        self.mt = scn["conc"]
        self.slots = {}
        self.boot()

    def fail(self, sig, msg):
        self.env.fail(sig, msg)

    def boot(self):
        self.cfg, self.fac = fresh("configs"), fresh("factory")

    # -- presets ----------------------------------------------------------------
    def op_get(self, op):
        cat, name = op[1], op[2]
        r, v = run_op(self.env, lambda: self.cfg.get_config(cat, name))
        want = preset(cat, name)
        if want is None:
            if r == "ok" or not isinstance(v, ValueError):
                self.fail("unknown", "get_config(%r, %r) gave %r" % (cat, name, v))
            return
        if r != "ok":
            self.fail("raise", "get_config(%r, %r) raised %s: %s" % (cat, name, type(v).__name__, v))
            return
        if canon(v) != canon(want):
            self.fail("preset", "get_config(%r, %r) is %s, the preset is %s" % (cat, name, v, want))
            return
        self.env.probe("preset")
        if op[3]:
            scribble(v)

    def op_list(self, op):
        r, v = run_op(self.env, lambda: self.cfg.list_configs(*op[1]))
        if r != "ok":
            self.fail("raise", "list_configs(%s) raised %s: %s" % (op[1], type(v).__name__, v))
            return
        m = pristine()["maps"]

        def names(cat):
            return {g: sorted(m[cat][g]) for g in m[cat]} if cat == "index" else sorted(m[cat])

        def norm(x):
            return {k: norm(y) for k, y in x.items()} if isinstance(x, dict) else sorted(x)
        if not op[1]:
            want = {c: names(c) for c in m}
        else:
            want = names(op[1][0]) if op[1][0] == "index" else {op[1][0]: names(op[1][0])}
        if norm(v) != want:
            self.fail("list", "list_configs(%s) is %s, there are %s" % (op[1], v, want))
        if op[2]:
            scribble(v)

    def op_advise(self, op):
        """Both recommendations name the same, documented, kind of index."""
        from valori.utils.helpers import get_recommended_index_config
        n, d, use, st = op[1:5]
        r, v = run_op(self.env, lambda: self.cfg.get_recommended_config(n, d, use, st))
        if r != "ok":
            self.fail("raise", "get_recommended_config(%s, %s, %s, %s) raised %s: %s" % (n, d, use, st, type(v).__name__, v))
            return None
        r2, v2 = run_op(self.env, lambda: get_recommended_index_config(n, d, use))
        if r2 != "ok":
            self.fail("raise", "get_recommended_index_config raised %s: %s" % (type(v2).__name__, v2))
            return None
        k = advised(n, d, use)
        if v["index"]["type"] != k or v2["type"] != k:
            self.fail("advice", "for %d vectors of %d dimensions (%s): %s and %s, expected %s" % (
                n, d, use, v["index"]["type"], v2["type"], k))
        elif canon(v["index"]["config"]) not in [canon(preset("index", x)) for x, y in INDEX_NAMES if y == k]:
            self.fail("advice", "the recommended %s configuration is no preset: %s" % (k, v["index"]["config"]))
        elif canon(v["storage"]) != canon(preset("storage", st)):
            self.fail("advice", "the recommended storage for %r is %s" % (st, v["storage"]))
        elif canon(v["embedding"]) not in [canon(x) for x in pristine()["maps"]["embedding"].values()]:
            self.fail("advice", "the recommended embedding is no preset: %s" % v["embedding"])
        elif v["metadata"] != {"num_vectors": n, "dimension": d, "use_case": use, "storage_type": st}:
            self.fail("advice", "the recommendation is for %s" % v["metadata"])
        self.env.probe("advice_" + k)
        got = copy.deepcopy(v)
        if op[5]:
            scribble(v)
            scribble(v2)
        return got

    # -- databases --------------------------------------------------------------
    def storage_args(self, store, where):
        if where is None or store == "memory":
            return {}
        return {"storage_config": {"data_dir": where} if store == "disk" else {"disk": {"data_dir": where}, "memory_limit": 2}}

    def plan(self, how):
        """(function, index kind, storage kind, expected index configuration)"""
        src, arg, store, where = how
        F = self.fac
        if src == "template":
            t = pristine()["templates"][arg]
            kw = {} if store is None else {"storage_type": store}
            st = store or t["storage_type"]
            kw.update(self.storage_args(st, where))
            return lambda: F.create_from_template(arg, **copy.deepcopy(kw)), t["index_type"], st, t.get("index_config", {})
        store = store or "memory"
        kw = dict(self.storage_args(store, where), storage_type=store)
        if src == "preset":
            kind = dict(INDEX_NAMES)[arg]

            def fn():
                return F.create_vector_db(index_type=kind, index_config=self.cfg.get_config("index", arg), **copy.deepcopy(kw))
            return fn, kind, store, preset("index", arg)
        if src == "advice":
            n, d, use = arg

            def fn():
                v = self.cfg.get_recommended_config(n, d, use, store)
                k2 = copy.deepcopy(kw)
                return F.create_vector_db(index_type=v["index"]["type"], index_config=v["index"]["config"], **k2)
            return fn, advised(n, d, use), store, {}
        if src == "size":
            n, d, use = arg
            return lambda: F.create_vector_db(n, d, use, **copy.deepcopy(kw)), advised(n, d, use), store, {}
        if src == "default":
            if store == "memory":
                return lambda: F.create_vector_db(), "flat", store, {}
            return lambda: F.create_vector_db(**copy.deepcopy(kw)), "flat", store, {}
        return lambda: F.create_vector_db(index_type=arg, **copy.deepcopy(kw)), arg, store, {}

    def op_create(self, op):
        env = self.env
        k, how = op[1], op[2]
        if k in self.slots and self.slots[k].client is not None:
            return
        fn, kind, store, want = self.plan(how)
        where = how[3]
        if where is not None:
            env.fs.makedirs_sim("/simfs/db")
        r, c = run_op(env, fn)
        if r == "crash":
            return r
        if r == "err":
            if not env.fired_in_op() or self.mt:
                self.fail("raise", "creating %s raised %s: %s" % (how, type(c).__name__, c))
            env.probe("create_failed")
            return
        old = self.slots.get(k)
        s = self.slots[k] = Slot(how, kind, store, where)
        s.client = c
        if old is not None and old.store != "memory" and not s.own:
            s.recs, s.maybe = old.recs, old.maybe
        if type(c.index).__name__ != KINDS[kind] or type(c.storage_backend).__name__ != STORES[store]:
            self.fail("kind", "%s is a %s over %s" % (how, type(c.index).__name__, type(c.storage_backend).__name__))
            return
        r, st = run_op(env, c.get_stats)
        if r == "crash":
            return r
        if r != "ok":
            if not env.fired_in_op():
                self.fail("raise", "get_stats of a new database raised %s: %s" % (type(st).__name__, st))
            return
        for p in PARAMS:
            if p in want and p in st["index"] and st["index"][p] != want[p]:
                self.fail("config", "%s: %s is %r, the preset says %r" % (how, p, st["index"][p], want[p]))
                return
        env.probe("created_" + kind)
        self.judge(s)

    def slot(self, op):
        s = self.slots.get(op[1])
        return s if s is not None and s.client is not None else None

    def op_insert(self, op):
        s = self.slot(op)
        if s is None:
            return
        X = np.array(op[2], "<f4")
        meta = [{"n": x} for x in op[3]]
        r, v = run_op(self.env, lambda: s.client.insert(X, copy.deepcopy(meta)))
        if r == "crash":
            s.maybe.append((X, meta))
            return r
        if r == "err":
            if not self.env.fired_in_op():
                self.fail("raise", "insert into %s raised %s: %s" % (s.how, type(v).__name__, v))
            s.maybe.append((X, meta))
            s.partial = True
            return
        for i, x, m in zip(v, X, meta):
            s.recs[i] = (x, m)
        self.env.probe("inserted")
        if not self.env.fired_in_op():
            self.judge(s)

    def op_delete(self, op):
        s = self.slot(op)
        if s is None or not s.recs or s.partial:
            return
        i = sorted(s.recs)[op[2] % len(s.recs)]
        x, m = s.recs.pop(i)
        r, v = run_op(self.env, lambda: s.client.delete([i]))
        if r == "crash":
            s.maybe.append((np.array([x]), [m]))
            return r
        if r == "err" or v is not True:
            if not self.env.fired_in_op():
                self.fail("raise", "delete of a record of %s gave %r" % (s.how, v))
            s.maybe.append((np.array([x]), [m]))
            s.partial = True
            return
        if not self.env.fired_in_op():
            self.judge(s)

    def op_close(self, op):
        s = self.slot(op)
        if s is None:
            return
        if op[2]:
            # what a careless user does to the configuration of the finished database
            scribble(s.client.index.config)
            scribble(s.client.storage_backend.config)
        r, v = run_op(self.env, s.client.close)
        if r == "crash":
            return r
        if r == "err" and not self.env.fired_in_op():
            self.fail("raise", "close of %s raised %s: %s" % (s.how, type(v).__name__, v))
        s.old = None if op[2] or r == "err" else s.client
        s.client = None
        if s.store == "memory":
            del self.slots[op[1]]

    def op_again(self, op):
        """The closed object itself is opened again, not a new one created."""
        s = self.slots.get(op[1])
        if s is None or s.client is not None or s.old is None or s.own:
            return
        r, v = run_op(self.env, s.old.initialize)
        if r == "crash":
            return r
        if r == "err":
            if not self.env.fired_in_op():
                self.fail("raise", "opening %s again raised %s: %s" % (s.how, type(v).__name__, v))
            s.old = None
            return
        s.client, s.old = s.old, None
        s.partial = False
        self.env.probe("opened_again")
        self.judge(s)

    def op_tweak(self, op):
        """The same to the configuration of a database that is still there; it is not judged any more."""
        s = self.slot(op)
        if s is None or s.store != "memory":
            return
        scribble(s.client.index.config)
        scribble(s.client.storage_backend.config)
        del self.slots[op[1]]

    def judge(self, s, final=False):
        """The database has exactly its own records, and finds them."""
        env = self.env
        may = [canon((np.asarray(x), m)) for X, M in s.maybe for x, m in zip(X, M)]
        with env.quiet():
            for i, (x, m) in sorted(s.recs.items()) if not s.own else ():
                r, v = run_op(env, lambda: s.client.storage_backend.retrieve_vector(i))
                if r != "ok" or v is None or canon((np.asarray(v[0]), v[1])) != canon((x, m)):
                    self.fail("lost", "%s: record %s is %r instead of %r" % (s.how, i, v, (x, m)))
                    return
            r, ids = run_op(env, lambda: s.client.storage_backend.list_vectors())
            if r != "ok":
                self.fail("raise", "list_vectors of %s raised %s" % (s.how, ids))
                return
            for i in ids if not s.own else ():
                if i not in s.recs:
                    r, v = run_op(env, lambda: s.client.storage_backend.retrieve_vector(i))
                    if r == "ok" and v is not None and canon((np.asarray(v[0]), v[1])) in may:
                        continue
                    self.fail("stray", "%s holds the record %r, which is not its own" % (s.how, v))
                    return
            if s.partial or s.kind == "annoy" and not final:
                return
            if s.kind == "annoy" and s.recs:
                # it can be searched once it is built, and not be changed any more
                r, v = run_op(env, s.client.index.build)
                if r != "ok":
                    self.fail("raise", "building %s raised %s: %s" % (s.how, type(v).__name__, v))
                    return
            n = len(s.recs)
            for i, (x, m) in sorted(s.recs.items()):
                r, v = run_op(env, lambda: s.client.search(x, k=n + len(may)))
                if r != "ok":
                    self.fail("search", "searching %s raised %s: %s" % (s.how, type(v).__name__, v))
                    return
                hit = [h for h in v if str(h["id"]) == str(i)]
                if not hit or canon(hit[0]["metadata"]) != canon(m):
                    self.fail("search", "%s of %d vectors does not find %s: %r" % (s.how, n, x, v))
                    return
                if not may and any(str(h["id"]) not in map(str, s.recs) for h in v):
                    self.fail("stray", "%s answers with records of another database: %r" % (s.how, v))
                    return
        env.probe("judged")

    def audit(self):
        for k in sorted(self.slots):
            s = self.slots[k]
            if s.client is not None and not self.env.findings:
                self.judge(s, True)
                where = s.where
                if s.recs and s.store != "memory" and where is None:
                    if not self.env.fs._lookup_quiet("/simfs/cwd/" + DEFAULT_DIR):
                        self.fail("place", "%s does not keep its data in %s" % (s.how, DEFAULT_DIR))
                elif s.recs and s.store != "memory" and not self.env.fs._lookup_quiet(where):
                    self.fail("place", "%s does not keep its data in %s" % (s.how, where))

    def restart(self):
        """The process was killed: what was on disk is there after the same creation."""
        self.env.fs.reboot()
        self.boot()
        for k in sorted(self.slots):
            s = self.slots[k]
            s.client = s.old = None
            if s.store == "memory":
                del self.slots[k]
        for k in sorted(self.slots):
            if not self.env.findings:
                self.op_create(["create", k, self.slots[k].how])
        self.env.probe("killed")

    def body(self, ops):
        for i, op in ops:
            if self.env.findings:
                return
            self.env.log.add("iop", i, op[0])
            getattr(self, "op_" + op[0])(op)

    def run(self):
        env, scn = self.env, self.scn
        env.fs.makedirs_sim("/simfs/cwd")
        sched = None
        if self.mt:
            env.step(0, "conc")
            threads = {}
            for i, op in enumerate(scn["ops"]):
                threads.setdefault(op[0], []).append((i, op[1:]))
            sched = run_threads(env, scn, [lambda t=t: self.body(threads[t]) for t in sorted(threads)])
            if sched.problem:
                env.fail("stuck", sched.problem)
            env.probe("concurrent")
        else:
            for i, op in enumerate(scn["ops"]):
                env.step(i, op[1])
                r = getattr(self, "op_" + op[1])(op[1:])
                if r == "crash":
                    env.opno = i
                    env.fs.begin_op(1000 + i)
                    self.restart()
                env.fs.clear_errors()
                if env.findings:
                    return sched
        if not env.findings:
            env.step(len(scn["ops"]), "audit")
            self.audit()
        if not env.findings:
            env.step(len(scn["ops"]) + 1, "presets")
            for cat in sorted(pristine()["maps"]):
                for name in sorted(pristine()["maps"][cat]):
                    if not env.findings:
                        self.op_get(["get", cat, name, False])
        return sched


class C29(Prop):
    id = "C29"
    real = ["valori.configs", "valori.factory", "get_recommended_index_config", "client, indices and storage below them"]
    stubs = ["file system (in-memory)", "thread scheduling"]
    assumptions = ["at most eight vectors per database; two open databases never share a directory; the memory sizes of the hybrid "
                   "preset are not judged"]
    rule = ("seeded sequences and 2-3 threads of looking up presets, changing what was returned, creating databases from templates, "
            "presets, recommendations and sizes, filling, closing and re-creating them, with failing file calls during creation and "
            "process kills anywhere; non-trivial: a fault fired, something was scribbled on, or threads ran")
    quick = (60000, 25)
    thorough = (2000000, 600)

    def gen(self, rng, tier, seed):
        conc = rng.random() < 0.3
        nthr = rng.choice([2, 3]) if conc else 1
        cats = ["index", "storage", "document", "embedding", "application", "performance"]
        per = {"index": [x for x, _ in INDEX_NAMES] + GROUPS, "storage": ["memory_only", "disk_only", "hybrid", "memory", "disk"],
               "document": ["text_processing", "pdf_processing", "office_processing", "advanced_processing"],
               "embedding": ["fast_small", "balanced", "high_quality", "multilingual", "domain_specific"],
               "application": ["semantic_search", "document_retrieval", "real_time_chat", "research_papers", "enterprise_search",
                               "multilingual_search"],
               "performance": ["cpu_optimized", "memory_optimized", "speed_optimized", "balanced"]}
        sizes = [0, 1, 999, 1000, 5000, 99999, 100000, 10 ** 6]
        dims = [1, 8, 384, 385, 768, 769, 1000, 1001, 4096]
        uses = ["balanced", "speed", "accuracy", "memory"]
        fav = rng.sample(TEMPLATES, rng.choice([1, 2, 6]))
        favp = rng.sample(INDEX_NAMES, rng.choice([1, 2, 11]))

        def how(k, default_free):
            store = rng.choice([None, None, "memory", "disk", "disk", "hybrid"])
            src = rng.choice(["template"] * 4 + ["preset"] * 3 + ["advice", "advice", "size", "default", "kind"])
            where = "/simfs/db/d%d" % k
            if default_free and rng.random() < 0.3:
                where = None
            arg = None
            if src == "template":
                arg = rng.choice(fav)
            elif src == "preset":
                arg = rng.choice(favp)[0]
            elif src in ("advice", "size"):
                arg = [rng.choice(sizes), rng.choice(dims), rng.choice(uses)]
            elif src == "kind":
                arg = rng.choice(sorted(KINDS))
            return [src, arg, store, where]
        ops = []
        used = 0
        hows = {}
        cnt = 0

        def vecs(n):
            out = []
            for _ in range(n):
                v = [rng.choice([-2.0, -1.0, 0.0, 0.5, 1.0, 3.0]) for _ in range(3)]
                out.append(v if any(v) else [1.0, 0.5, -1.0])
            return out
        total = {}
        for _ in range(rng.choice([4, 8, 14, 20])):
            t = rng.randrange(nthr)
            k = rng.choices(["get", "list", "advise", "create", "insert", "delete", "close", "tweak", "again"],
                            [3, .4, 1.5, 5, 5, 1, 1.5, 1, 1])[0]
            mine = [s for s in hows if s % nthr == t] if conc else list(hows)
            if k in ("insert", "delete", "close", "tweak", "again") and not mine:
                k = "create"
            op = [t, k]
            if k == "get":
                c = rng.choice(["index", "index"] + cats)
                op += [c, rng.choice(per[c]) if rng.random() < 0.95 else "nonsense", rng.random() < 0.6]
            elif k == "list":
                op += [[rng.choice(cats)] if rng.random() < 0.7 else [], rng.random() < 0.5]
            elif k == "advise":
                op += [rng.choice(sizes), rng.choice(dims), rng.choice(uses),
                       rng.choice(["memory", "memory", "disk", "hybrid", "memory_only", "disk_only"]), rng.random() < 0.6]
            elif k == "create":
                if mine and rng.random() < 0.4:
                    s = rng.choice(mine)        # again, after a close, from the same description
                else:
                    s = used * nthr + t if conc else used
                    used += 1
                    hows[s] = how(s, not conc and not any(h[3] is None for h in hows.values()))
                op += [s, hows[s]]
            elif k == "insert":
                s = rng.choice(mine)
                n = min(rng.choice([1, 2, 3]), 8 - total.get(s, 0))
                if n <= 0:
                    continue
                total[s] = total.get(s, 0) + n
                op += [s, vecs(n), list(range(cnt, cnt + n))]
                cnt += n
            elif k == "delete":
                op += [rng.choice(mine), rng.randrange(8)]
            elif k == "close":
                op += [rng.choice(mine), rng.random() < 0.5]
                if not op[3] and rng.random() < 0.6:
                    ops.append(op)
                    if rng.random() < 0.4:
                        s = used * nthr + t if conc else used
                        used += 1
                        hows[s] = hows[op[2]][:3] + ["/simfs/db/d%d" % s]
                        ops.append([t, "create", s, hows[s]])
                    op = [t, "again", op[2]]
            else:
                op += [rng.choice(mine)]
            ops.append(op)
        scn = {"seed": seed, "ops": ops, "conc": conc, "faults": [], "buf": 8192}
        if conc:
            scn["sched"] = rsched(rng)
        elif rng.random() < 0.5:
            dry = self.run(scn, kinds=True)
            if rng.random() < 0.5:
                scn["faults"] = place_faults(rng, dry.counts, dry.kinds, [error_fault(rng)],
                                             [o for o in range(len(ops)) if ops[o][1] == "create"])
            else:
                scn["faults"] = place_faults(rng, dry.counts, dry.kinds, [crash_fault(rng, power=False)])
        return scn

    def run(self, scn, keep_log=False, kinds=False):
        env = Env(scn, keep_log)
        env.fs.record_kinds = kinds
        with env:
            sched = PresetWorld(env, scn).run()
        return conc_outcome(env, sched)

    def nontrivial(self, scn, out):
        return bool(out.fired or scn["conc"] or any(op[1] == "tweak" or op[1] in ("get", "list", "advise") and op[-1]
                                                    for op in scn["ops"]))


PROPS = [C29()]

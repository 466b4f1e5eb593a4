"""C05: memory and hybrid storage under concurrent callers; also C04's concurrent part."""
from .. import gens
from ..conc import Hist, conc_outcome, linearizable, rsched, run_threads
from ..core import Env, canon, dec, mkvec, run_op, vkey
from ..model import ABSENT
from ..prop import Prop
from . import storage
from .storage import REAL, ROOT, STUBS, brief, make_storage


def value_of(v):
    if v is None:
        return ABSENT
    vec, meta = v
    return (vkey(vec), canon(meta))


def step(state, op):
    kind = op[0]
    if kind == "store":
        return [op[1]]
    if kind == "update":
        _, alt, res = op
        if res:
            return [alt] if state is not ABSENT else []
        return [state] if state is ABSENT else []
    if kind == "delete":
        _, res = op
        if res:
            return [ABSENT] if state is not ABSENT else []
        return [state] if state is ABSENT else []
    if kind == "get":
        return [state] if state == op[1] else []
    raise AssertionError(kind)


def run_history(env, scn, st, checks):
    """Execute the scenario's threads on storage `st`; judge the history."""
    hist = Hist(env)
    threads = {}
    for op in scn["ops"]:
        threads.setdefault(op[0], []).append(op[1:])

    def one(thr, op):
        k = op[0]
        if k in ("store", "update"):
            vec, meta = mkvec(op[2]), dec(op[3])
            f = st.store_vector if k == "store" else st.update_vector
            hist.call(thr, [k, op[1], (vkey(vec), canon(meta))], lambda: f(op[1], vec, meta))
        elif k == "get":
            hist.call(thr, [k, op[1]], lambda: st.retrieve_vector(op[1]))
        elif k == "delete":
            hist.call(thr, [k, op[1]], lambda: st.delete_vector(op[1]))
        elif k == "list":
            hist.call(thr, [k], lambda: st.list_vectors())
        elif k == "stats":
            hist.call(thr, [k], lambda: st.get_stats())

    for op in threads.pop(-1, []):
        one(-1, op)
    bodies = []
    for thr in sorted(threads):
        def body(thr=thr, ops=threads[thr]):
            for op in ops:
                one(thr, op)
        bodies.append(body)
    sched = run_threads(env, scn, bodies) if bodies else None
    if sched is not None and sched.problem:
        env.fail("stuck", sched.problem)
        return sched
    ids = sorted({e["op"][1] for e in hist.events if len(e["op"]) > 1})
    n_before = len(hist.events)
    for i in ids:
        one(99, ["get", i])
    one(99, ["list"])
    one(99, ["stats"])
    judge(env, scn, hist, ids, checks)
    return sched


def judge(env, scn, hist, ids, checks):
    hybrid = scn["kind"] == "hybrid"
    bad_id = set()
    for e in hist.events:
        if e["r"] != "ok":
            env.fail("raise", "%s raised in thread %s: %s: %s" % (e["op"][:2], e["thr"], type(e["v"]).__name__, e["v"]))
            if len(e["op"]) > 1:
                bad_id.add(e["op"][1])
        if e["op"][0] == "stats" and e["r"] == "ok" and hybrid:
            m = e["v"]["memory"]["vector_count"]
            if m > scn["limit"]:
                env.fail("limit", "memory tier holds %d vectors, limit %d" % (m, scn["limit"]))
    final = {}
    for i in ids:
        evs = []
        ok = i not in bad_id
        for e in hist.events:
            if e["r"] != "ok" or len(e["op"]) < 2 or e["op"][1] != i:
                continue
            k = e["op"][0]
            if k == "store":
                if e["v"] is not True:
                    env.fail("store-result", "store_vector(%r) returned %r" % (i, e["v"]))
                    ok = False
                evs.append((e["s"], e["e"], ("store", e["op"][2])))
            elif k == "update":
                evs.append((e["s"], e["e"], ("update", e["op"][2], bool(e["v"]))))
            elif k == "delete":
                evs.append((e["s"], e["e"], ("delete", bool(e["v"]))))
            else:
                try:
                    got = value_of(e["v"])
                except Exception as x:
                    env.fail("read-shape", "retrieve_vector(%r) returned %r (%s)" % (i, e["v"], x))
                    ok = False
                    continue
                if e["thr"] == 99:
                    final[i] = got
                evs.append((e["s"], e["e"], ("get", got)))
        if ok and not linearizable(evs, ABSENT, step):
            env.fail("not-linearizable", "history of id %r has no sequential explanation: %s" % (
                i, "; ".join("[%d,%d] %s" % (s, t, show(o)) for s, t, o in evs)))
    writes = {}
    for e in hist.events:
        if len(e["op"]) > 1 and e["r"] == "ok":
            writes.setdefault(e["op"][1], []).append(e)
    for e in hist.events:
        if e["op"][0] != "list" or e["r"] != "ok":
            continue
        got = list(e["v"])
        if len(set(got)) != len(got):
            env.fail("list-dup", "list_vectors has duplicates: %r" % got)
        for i in ids:
            if i in bad_id:
                continue
            w = writes.get(i, [])
            if surely(w, e, True) and i not in got:
                env.fail("list-missing", "list_vectors misses %r, present during the whole call" % i)
            if surely(w, e, False) and i in got:
                env.fail("list-ghost", "list_vectors names %r, absent during the whole call" % i)
        extra = set(got) - set(ids)
        if extra:
            env.fail("list-ghost", "list_vectors names unknown ids %r" % sorted(extra))
    last = [e for e in hist.events if e["op"][0] == "stats" and e["thr"] == 99]
    lst = [e for e in hist.events if e["op"][0] == "list" and e["thr"] == 99]
    if last and last[0]["r"] == "ok" and lst and lst[0]["r"] == "ok":
        s = last[0]["v"]
        n = s["disk"]["vector_count"] if hybrid else s["vector_count"]
        if n != len(lst[0]["v"]):
            env.fail("count", "statistics report %d vectors, %d are listed" % (n, len(lst[0]["v"])))
        if scn["kind"] == "memory" and not bad_id:
            pass
    if "tier" in checks and hybrid and not bad_id:
        from valori.storage.disk import DiskStorage
        with env.quiet():
            d = DiskStorage({"data_dir": ROOT})
            d.initialize()
            for i in ids:
                try:
                    on_disk = value_of(d.retrieve_vector(i))
                except Exception as x:
                    env.fail("unreadable", "the disk tier cannot read %r: %s" % (i, x))
                    continue
                if on_disk != final.get(i):
                    env.fail("tier-differs", "after all callers finished %r reads %s, the disk tier holds %s" % (
                        i, brief({final.get(i)}), brief({on_disk})))


def surely(writes, e, present):
    """Was the id certainly present (absent) during the whole of event e?"""
    makes = [w for w in writes if w["op"][0] == "store" or (w["op"][0] == "update" and w["v"])]
    kills = [w for w in writes if w["op"][0] == "delete"]
    a, b = (makes, kills) if present else (kills, makes)
    if not present and not [w for w in makes if w["s"] < e["e"]]:
        return True
    for w in a:
        if w["e"] < e["s"] and all(x["e"] < w["s"] or x["s"] > e["e"] for x in b):
            return True
    return False


def show(o):
    if o[0] == "store":
        return "store " + brief({o[1]})
    if o[0] == "update":
        return "update->%s %s" % (o[2], brief({o[1]}))
    if o[0] == "delete":
        return "delete->%s" % o[1]
    return "get " + brief({o[1]})


def gen_conc(rng, seed, kinds, limits):
    ids = ["v%d" % i for i in range(rng.choice([1, 1, 2, 3, 4]))]
    nt = rng.choice([2, 2, 3, 4])
    ops = []
    w = {"store": 3, "update": rng.choice([1, 3]), "delete": rng.choice([1, 2]), "get": rng.choice([1, 3]),
         "list": rng.choice([0, 1]), "stats": rng.choice([0, 0.5])}
    c = [0]

    def op(thr):
        k = rng.choices(list(w), list(w.values()))[0]
        i = rng.choice(ids)
        if k in ("store", "update"):
            c[0] += 1
            d = rng.choice([2, 3])
            return [thr, k, i, {"x": [float(c[0])] * d, "dt": "<f4"},
                    rng.choice([{"t": c[0]}, {"t": c[0], "n": {"u": [c[0]]}}, None])]
        if k in ("get", "delete"):
            return [thr, k, i]
        return [thr, k]
    for _ in range(rng.choice([0, 0, 1, 3])):
        ops.append(op(-1))
    for t in range(nt):
        for _ in range(rng.choice([1, 2, 3, 4] if nt < 4 else [1, 2, 3])):
            ops.append(op(t))
    return {"seed": seed, "kind": rng.choice(kinds), "limit": rng.choice(limits), "ops": ops,
            "sched": rsched(rng), "buf": 8192}


class C05(Prop):
    id = "C05"
    kinds = ("memory", "hybrid")
    checks = ()
    limits = (1, 1, 2, 3, 100)
    quick = (20000, 25)
    thorough = (3000000, 900)
    real = REAL + ["threading.RLock semantics via simulated locks"]
    stubs = STUBS + ["threads (deterministic baton scheduler, preemption at every bytecode of valori)"]
    assumptions = ["threads interleave at bytecode boundaries of valori code (C calls are atomic, as under the GIL)"]
    rule = ("2-4 simulated threads with 1-4 random calls each over 1-4 ids on memory or hybrid storage, preempted at "
            "random bytecodes, locks and file-system calls; per-id linearizability, listing bounds; non-trivial: at "
            "least two switches between threads inside calls")

    def gen(self, rng, tier, seed):
        return gen_conc(rng, seed, self.kinds, self.limits)

    def run(self, scn, keep_log=False):
        env = Env(scn, keep_log)
        sched = None
        with env:
            env.step(0, "conc")
            st = make_storage(scn)
            r, v = run_op(env, st.initialize)
            if r != "ok":
                env.fail("raise", "initialize raised %s" % v)
            else:
                sched = run_history(env, scn, st, self.checks)
        return conc_outcome(env, sched)

    def nontrivial(self, scn, out):
        return out.switches >= 2


class C04(storage.C04):
    """Sequential histories with faults (storage.C04) and, in a quarter of the runs, concurrent callers."""
    stubs = C05.stubs
    rule = storage.C04.rule + "; a quarter of the runs are concurrent histories ending in the same comparison"

    def gen(self, rng, tier, seed):
        if rng.random() < 0.25:
            return gen_conc(rng, seed, self.kinds, self.limits)
        return super().gen(rng, tier, seed)

    def run(self, scn, keep_log=False, kinds=False):
        if not scn.get("sched"):
            return super().run(scn, keep_log, kinds)
        env = Env(scn, keep_log)
        sched = None
        with env:
            env.step(0, "conc")
            st = make_storage(scn)
            r, v = run_op(env, st.initialize)
            if r != "ok":
                env.fail("raise", "initialize raised %s" % v)
            else:
                sched = run_history(env, scn, st, ("tier",))
        return conc_outcome(env, sched)

    def nontrivial(self, scn, out):
        return out.switches >= 2 if scn.get("sched") else super().nontrivial(scn, out)


PROPS = [C05(), C04()]

"""C11-C13: tensor and incremental persistence against a map model and a log model."""
import json

import numpy as np

from .. import gens
from ..core import (Env, Outcome, canon, crash_fault, dec, error_fault, mkvec, place_faults, run_op, vkey)
from ..model import ABSENT, MapModel
from ..prop import Prop
from .storage import brief

ROOT = "/simfs/p"
LOG = ROOT + "/operations.log"


def make(scn):
    from valori.persistence.incremental import IncrementalPersistence
    from valori.persistence.tensor import TensorPersistence
    if scn["kind"] == "tensor":
        return TensorPersistence({"data_dir": ROOT, "compression": scn["compression"]})
    return IncrementalPersistence({"data_dir": ROOT, "checkpoint_interval": scn["interval"]})


def file_of(what, path):
    if what == "vectors":
        return "vec:" + (path if path.endswith(".npz") else path + ".npz")
    return path


class PersistWorld:
    def __init__(self, env, scn, checks):
        self.env, self.scn, self.checks = env, scn, checks
        self.model = MapModel()
        self.incremental = scn["kind"] == "incremental"
        self.records = []        # [operation, path, acknowledged]
        self.p = None
        self.dead = False

    def key(self, what, path):
        if self.incremental and what == "state":
            return "STATE"
        return file_of(what, path)

    def fail(self, cat, sig, msg):
        if cat in self.checks:
            self.env.fail(sig, msg)

    def err(self, e, what):
        from valori.exceptions import PersistenceError
        if not self.env.fired_in_op():
            self.fail("data", "raise", "%s raised without any injected fault: %s: %s" % (what, type(e).__name__, e))
        elif not isinstance(e, PersistenceError):
            self.fail("data", "error-type", "%s raised %s instead of PersistenceError: %s" % (
                what, type(e).__name__, e))

    def start(self, same=False):
        for attempt in range(8):
            if not same or self.p is None:
                self.p = make(self.scn)
            r, v = run_op(self.env, self.p.initialize)
            if r == "crash":
                self.reboot()
                continue
            if r == "err":
                if not self.env.fired_in_op():
                    self.env.fail("reopen", "initialize raised without a fault: %s" % v)
                    self.dead = True
                    return
                self.err(v, "initialize")
                self.env.fs.clear_errors()
                self.env.open_op(0)
                self.env.probe("init_failed")
                continue
            return
        self.dead = True

    def reboot(self):
        power = bool((self.env.fs.crash_info or {}).get("power"))
        self.env.probe("reboot_power" if power else "reboot_kill")
        self.env.fs.reboot()
        self.model.crashed(power)
        self.p = None

    def do(self, i, op):
        self.env.step(i, op[0])
        r = getattr(self, "op_" + op[0])(i, op)
        if r == "crash":
            self.reboot()
            self.env.step(1000 + i, "recover")
            self.start()
            if op[0] == "save" and not self.dead:
                self.recorded(op[1], op[2], self.value(op[1], op[3])[1], False)
        if not self.dead and self.incremental:
            self.check_log(op[0] == "save" and self.records and self.records[-1][2])

    # -- operations -----------------------------------------------------------
    def value(self, what, v):
        """(arguments, alternative, serialisable)"""
        if what == "vectors":
            vec = mkvec(v["v"])
            ids = dec(v["ids"])
            return (vec, ids), ("vectors", vkey(vec) + canon(list(ids)))
        d = dec(v)
        if isinstance(d.get("arr"), list):
            d["arr"] = np.array(d["arr"], dtype="<f4")
        return (d,), ("object", canon(d))

    def op_save(self, i, op, retry=False):
        _, what, path, v = op
        args, alt = self.value(what, v)
        key = self.key(what, path)
        poison = "__p" in json.dumps(v)
        self.before = self.log_ids()
        r, res = run_op(self.env, lambda: getattr(self.p, "save_" + what)(*args, path))
        self.records.append(["save_" + what, path, r == "ok"])
        if r == "ok":
            if res is not True:
                self.fail("data", "save-result", "save_%s returned %r" % (what, res))
            self.model.ack(key, alt)
            return
        if not poison:
            self.model.maybe(key, alt)
        if r == "crash":
            return r
        self.recorded(what, path, alt, poison)
        if poison and not self.env.fired_in_op():
            self.env.probe("unserialisable")
            return
        self.err(res, "save_" + what)
        if not retry and self.scn["retry"] and not poison:
            self.env.fs.clear_errors()
            self.env.open_op(i)
            self.env.probe("retry_after_error")
            return self.op_save(i, op, True)

    def op_load(self, i, op):
        _, what, path = op
        key = self.key(what, path)
        r, v = run_op(self.env, lambda: getattr(self.p, "load_" + what)(path))
        if r == "crash":
            return r
        if r == "err":
            self.err(v, "load_" + what)
            return
        try:
            if what == "vectors":
                if v is None or v[0] is None:
                    got = ABSENT
                else:
                    got = ("vectors", vkey(v[0]) + canon(list(v[1])))
            else:
                got = ABSENT if v is None else ("object", canon(v))
        except Exception as e:
            self.fail("data", "load-shape", "load_%s returned %r (%s)" % (what, v, e))
            return
        cur = self.model.get(key)
        if got in cur:
            self.model.observe(key, got)
        elif got is ABSENT:
            self.fail("data", "lost", "load_%s(%r) finds nothing, expected %s" % (what, path, brief(cur)))
        elif cur == {ABSENT}:
            self.fail("data", "ghost", "load_%s(%r) returned %s, nothing was saved there" % (what, path, brief({got})))
        else:
            self.fail("data", "wrong", "load_%s(%r) returned %s, expected %s" % (what, path, brief({got}), brief(cur)))

    def op_stats(self, i, op):
        r, v = run_op(self.env, self.p.get_stats)
        if r == "crash":
            return r
        if r == "err":
            self.err(v, "get_stats")
        elif "error" in v and not self.env.fired_in_op():
            self.fail("data", "raise", "get_stats reports %s" % v["error"])

    def op_jump(self, i, op):
        self.env.clock.skew += op[1]
        self.env.probe("clock_jump")

    def op_reopen(self, i, op):
        r, v = run_op(self.env, self.p.close)
        if r == "crash":
            return r
        if r == "err":
            self.err(v, "close")
        self.env.probe("reopen")
        self.start(op[1] == "same")

    def op_audit(self, i, op):
        self.env.fs.clear_errors()
        self.env.open_op(i)
        for what, path in self.paths():
            r = self.op_load(i, ["load", what, path])
            if r == "crash":
                return r

    def paths(self):
        out = set()
        for op in self.scn["ops"]:
            if op[0] in ("save", "load"):
                out.add((op[1], op[2]))
        seen, res = set(), []
        for what, path in sorted(out):
            k = (what == "vectors", self.key(what, path))
            if k not in seen:
                seen.add(k)
                res.append((what, path))
        return res

    # -- operation log ---------------------------------------------------------
    def log_ids(self):
        if "log" not in self.checks:
            return set()
        ids = set()
        with self.env.quiet():
            try:
                with open(LOG, "rb") as f:
                    data = f.read()
            except OSError:
                data = b""
        for ln in data.split(b"\n")[:-1]:
            try:
                ids.add(json.loads(ln)["operation_id"])
            except Exception:
                pass
        return ids

    def recorded(self, what, path, alt, poison):
        """A save that was cut short: if the log has its record, the data must be there."""
        if "log" not in self.checks or not self.log_ids() - self.before:
            return
        if poison:
            self.env.fail("phantom", "the log has a record of a save_%s(%r) of data that cannot be saved" % (what, path))
            self.dead = True
            return
        self.env.probe("record_of_failed_save")
        with self.env.quiet():
            p = make(self.scn)
            p.initialize()
            try:
                v = getattr(p, "load_" + what)(path)
                if what == "vectors":
                    got = v[0] is not None and ("vectors", vkey(v[0]) + canon(list(v[1])))
                else:
                    got = ("object", canon(v))
            except Exception as e:
                got = e
            p.close()
        if got != alt:
            self.env.fail("phantom", "the log has a record of a failed save_%s(%r), but a load gives %s" % (
                what, path, repr(got)[:200]))
            self.dead = True

    def check_log(self, acked):
        if "log" not in self.checks:
            return
        with self.env.quiet():
            try:
                with open(LOG, "rb") as f:
                    data = f.read()
            except OSError:
                data = b""
        lines = data.split(b"\n")
        tail = lines.pop()
        recs, bad = [], [tail] if tail else []
        for ln in lines:
            try:
                d = json.loads(ln)
                recs.append((d["operation"], d["data"]["path"], d["operation_id"]))
            except Exception:
                bad.append(ln)
        if bad and acked:
            self.env.fail("garbled", "after an acknowledged save the log holds the unparseable line %r" % bad[0][:120])
        ids = [r[2] for r in recs]
        if any(not isinstance(x, int) for x in ids) or any(a >= b for a, b in zip(ids, ids[1:])):
            self.env.fail("ids", "operation ids are not strictly increasing: %r" % ids[-12:])
        # the records must be the acknowledged saves in order, plus possibly unacknowledged ones
        pos = {0}
        for o, p, ok in self.records:
            nxt = set() if ok else set(pos)
            for k in pos:
                if k < len(recs) and recs[k][0] == o and recs[k][1] == p:
                    nxt.add(k + 1)
            pos = nxt
            if not pos:
                break
        if len(recs) not in pos:
            self.env.fail("records", "the log records %s do not match the acknowledged saves %s" % (
                [r[:2] for r in recs][-8:], [r for r in self.records][-8:]))
            self.dead = True

    def run(self):
        env = self.env
        env.step(900, "open")
        self.start()
        ops = self.scn["ops"]
        for i, op in enumerate(ops):
            if self.dead:
                return
            self.do(i, op)
        n = len(ops)
        env.fs.clear_errors()
        for j, op in enumerate([["audit"], ["reopen", "new"], ["audit"],
                                ["save", "state", "end", {"end": 1}], ["save", "index", "endi", {"end": 2}],
                                ["reopen", "new"], ["load", "state", "end"], ["load", "index", "endi"], ["audit"]]):
            if self.dead:
                return
            self.do(n + j, op)


PATHS = ["a", "b", "a.tmp", ".a", "a.pkl", "d/a", "d/b", "d/e/a", "state.pkl", "a b", "é"]


def rstate(rng, c):
    c[0] += 1
    d = {"n": c[0]}
    r = rng.random()
    if r > 0.86 and r < 0.9:
        return rng.choice([{}, {}, {"": None}, {"n": []}])
    if r < 0.3:
        d["x"] = gens.rmeta(rng)
    if r < 0.15:
        d["arr"] = [gens.rcoord(rng) for _ in range(rng.choice([1, 3, 300]))]
    if 0.9 < r:
        d["p"] = [{"__p": 1}]
    if r > 0.8 and r < 0.85:
        d["long"] = "z" * (5000 if rng.random() < 0.9 else 200000)
    return d


def rvectors(rng, c, many, long):
    m = 9 if long and not many else rng.choice([1, 2, 4]) if many or rng.random() < 0.95 else rng.choice([0, 9, 11, 40, 300])
    c[0] += 1
    r = rng.random()
    if r < 0.8 or not m:
        v = {"x": [[float(c[0]) + j, gens.rcoord(rng)] for j in range(m)], "dt": rng.choice(["<f4", "<f8"])}
    else:
        dt = rng.choice(["<f4", "<f8", "<f2", ">f4", ">f8", "<i4", "<i8", "|u1", "|b1"])
        d = rng.choice([1, 2, 3, 8])
        b = bytes(rng.randrange(256) & (1 if dt == "|b1" else 255) for _ in range(m * d * int(dt[2])))
        v = {"hex": b.hex(), "dt": dt, "sh": [m, d]}
    r = rng.random() if not long else 1
    if r < 0.5 or many:
        ids = ["i%d" % j for j in range(m)]
    elif r < 0.65:
        ids = list(range(m))
    elif r < 0.75:
        ids = [rng.choice([-1, 1, 2 ** 33, 2 ** 62, -2 ** 40]) + j for j in range(m)]
    elif r < 0.9:
        ids = gens.rid(rng, min(m, 20))
        ids = ids + ["k%d" % j for j in range(m - len(ids))]
        ids = [x.replace("\0", "0") for x in ids]      # numpy drops trailing NULs of strings
    else:
        ids = ["%s-%d" % ("long " * rng.choice([8, 60, 200]), j) for j in range(m)]
    return {"v": v, "ids": ids}


def gen(rng, tier, seed, kind):
    n = rng.choice([3, 6, 10, 16] if tier == "quick" else [3, 6, 10, 16, 30, 60])
    paths = rng.sample(PATHS, rng.choice([1, 2, 3]))
    whats = rng.choice([["state"], ["state", "vectors", "index"], ["vectors", "index"], ["state", "index"]])
    c = [0]
    ops = []
    w = {"save": 5, "load": rng.choice([1, 2]), "stats": rng.choice([0, 0.3]), "reopen": rng.choice([0.3, 1, 2]),
         "audit": rng.choice([0, 0.5]), "jump": rng.choice([0, 1]) if kind == "incremental" else 0}
    todo = [None] * n
    long = rng.random() < 0.12
    if rng.random() < 0.006:
        # past any interval, page or number of digits
        at = rng.randrange(n)
        todo[at:at] = ["save"] * rng.choice([12, 30, 110, 110, 320, 700 if kind == "incremental" else 20])
    for k in todo:
        k = k or rng.choices(list(w), list(w.values()))[0]
        what, path = rng.choice(whats), rng.choice(paths)
        if k == "save":
            if what == "vectors":
                v = rvectors(rng, c, len(todo) > 80, long)
            else:
                v = rstate(rng, c)
            ops.append([k, what, path, v])
        elif k == "load":
            ops.append([k, what, path])
        elif k == "reopen":
            ops.append([k, rng.choice(["new", "new", "same"])])
        elif k == "jump":
            ops.append([k, rng.choice([-86400.0, -3600.0, -1.0, 1.0, 3600.0, 1e8, -1e8])])
        else:
            ops.append([k])
    return {"seed": seed, "kind": kind, "compression": rng.random() < 0.3, "interval": rng.choice([1, 2, 3, 100]),
            "ops": ops, "faults": [], "buf": rng.choice([16, 64, 512, 8192]), "retry": rng.random() < 0.5}


class PersistProp(Prop):
    kind = "tensor"
    checks = ("data",)
    real = ["valori.persistence.tensor / incremental", "valori.utils.atomic", "pickle, json, numpy npz, zipfile"]
    stubs = ["file system (in-memory, power-loss model)", "wall clock (with jumps)"]
    quick = (30000, 25)
    thorough = (2000000, 900)
    assumptions = ["fsync makes file data and its directory entry durable, directory fsync its entry changes; rename "
                   "is atomic, mkdir durable at once; unsynced data may be lost or torn",
                   "state and index data saved under the same path share one file; vector ids are all strings or all "
                   "integers; paths do not name the manager's own files"]
    rule = ("seeded save/load/reopen histories over 1-3 paths (one process after another) with kills, power losses, "
            "I/O errors and unserialisable data at random file-system calls; non-trivial: a fault fired, or data was "
            "loaded after a reopen")

    def gen(self, rng, tier, seed):
        scn = gen(rng, tier, seed, self.kind)
        r = rng.random()
        if r < 0.85:
            if r < 0.4:
                want = [crash_fault(rng) for _ in range(rng.choice([1, 1, 2, 3]))]
            elif r < 0.7:
                want = [error_fault(rng) for _ in range(rng.choice([1, 1, 2, 3]))]
            else:
                want = [error_fault(rng), crash_fault(rng)]
            dry = self.run(scn, kinds=True)
            scn["faults"] = place_faults(rng, dry.counts, dry.kinds, want)
            big = [o for o, op in enumerate(scn["ops"]) if op[0] == "save" and op[1] == "vectors"
                   and "long " in str(op[3]["ids"]) and "write" in dry.kinds.get(o, ())]
            if big and self.kind == "incremental" and rng.random() < 0.8:
                # in the middle of a long record
                o = rng.choice(big)
                n = max(j for j, k in enumerate(dry.kinds[o]) if k == "write")
                f = rng.choice([dict(crash_fault(rng, False), where="torn"), {"kind": "enospc", "dur": 1}])
                f.pop("prefer", None)
                scn["faults"] = [x for x in scn["faults"] if (x["op"], x["n"]) != (o, n)]
                scn["faults"].append(dict(f, op=o, n=n, frac=round(rng.random(), 3)))
            cr = [f for f in scn["faults"] if f["kind"] == "crash"]
            if cr and rng.random() < 0.4:
                c = crash_fault(rng) if rng.random() < 0.6 else error_fault(rng)
                c.pop("prefer", None)
                scn["faults"].append(dict(c, op=1000 + cr[0]["op"], n=rng.randint(0, 8)))
        return scn

    def run(self, scn, keep_log=False, kinds=False):
        env = Env(scn, keep_log)
        env.fs.record_kinds = kinds
        with env:
            PersistWorld(env, scn, self.checks).run()
        return Outcome(env)

    def nontrivial(self, scn, out):
        return bool(out.fired) or out.probes.get("reopen", 0) > 1


class C11(PersistProp):
    id = "C11"


class C12(PersistProp):
    id = "C12"
    kind = "incremental"
    rule = PersistProp.rule.replace("unserialisable data", "unserialisable data, and wall-clock jumps")


class C13(PersistProp):
    id = "C13"
    kind = "incremental"
    checks = ("log",)
    rule = C12.rule + "; the log file is parsed after every call and matched with the acknowledged saves"


PROPS = [C11(), C12(), C13()]

"""C21: the vector export helper under crashes and I/O errors."""
import json

import numpy as np

from .. import gens
from ..core import Env, Outcome, canon, crash_fault, dec, error_fault, mkvec, place_faults, run_op, vkey
from ..model import ABSENT, MapModel
from ..prop import Prop

ROOT = "/simfs/x"
SUFFIX = {"npz": ".npz", "pickle": ".pkl", "json": ".json"}


class ExportWorld:
    def __init__(self, env, scn):
        self.env, self.scn = env, scn
        self.model = MapModel()

    def alt(self, fmt, vec, meta):
        if fmt == "json":       # JSON keeps the numbers and the shape, not the type
            a = np.asarray(vec)
            return "%s %s %s" % (a.shape, [repr(float(x)) for x in a.ravel()], canon(list(meta)))
        return vkey(vec) + canon(list(meta))

    def reboot(self):
        power = bool((self.env.fs.crash_info or {}).get("power"))
        self.env.probe("reboot_power" if power else "reboot_kill")
        self.env.fs.reboot()
        self.model.crashed(power)

    def file(self, fmt, name):
        return "%s/%s%s" % (ROOT, name, SUFFIX[fmt])

    def op_save(self, i, op, retry=False):
        from valori.utils.helpers import save_vectors_to_file
        _, fmt, name, v, bare = op
        vec, meta = mkvec(v["v"]), dec(v["m"])
        if v.get("shape"):
            vec = vec.reshape(v["shape"])
        path = self.file(fmt, name)
        alt = self.alt(fmt, vec, meta)
        arg = "%s/%s" % (ROOT, name) if bare and fmt == "npz" else path
        r, res = run_op(self.env, lambda: save_vectors_to_file(vec, meta, arg, fmt))
        bad = "__p" in json.dumps(v)
        if r == "ok":
            self.model.ack(path, alt)
            return
        if not bad:
            self.model.maybe(path, alt)
        if r == "crash":
            return r
        if not self.env.fired_in_op() and not bad:
            self.env.fail("raise", "saving %s raised %s: %s" % (fmt, type(res).__name__, res))
            return
        self.env.probe("save_failed")
        if self.scn["retry"] and not retry and not bad:
            self.env.fs.clear_errors()
            self.env.open_op(i)
            return self.op_save(i, op, True)

    def op_load(self, i, op):
        from valori.utils.helpers import load_vectors_from_file
        _, fmt, name = op
        path = self.file(fmt, name)
        cur = self.model.get(path)
        r, v = run_op(self.env, lambda: load_vectors_from_file(path))
        if r == "crash":
            return r
        if r == "err":
            if not self.env.fired_in_op() and ABSENT not in cur:
                self.env.fail("unreadable", "loading %s raised %s: %s" % (path, type(v).__name__, v))
            return
        try:
            got = self.alt(fmt, *v)
        except Exception as e:
            self.env.fail("load-shape", "loading %s returned %r (%s)" % (path, v, e))
            return
        if got in cur:
            self.model.observe(path, got)
            self.env.probe("loaded")
        else:
            self.env.fail("wrong", "%s holds %s instead of one of %s" % (path, got[:150], [str(x)[:150] for x in cur]))

    def op_audit(self, i, op):
        self.env.fs.clear_errors()
        self.env.open_op(i)
        for fmt, name in sorted({(o[1], o[2]) for o in self.scn["ops"] if o[0] != "audit"}):
            r = self.op_load(i, ["load", fmt, name])
            if r == "crash":
                return r

    def run(self):
        env = self.env
        env.fs.makedirs_sim(ROOT)
        ops = self.scn["ops"] + [["audit"]]
        for i, op in enumerate(ops):
            env.step(i, op[0])
            if getattr(self, "op_" + op[0])(i, op) == "crash":
                self.reboot()
                env.step(1000 + i, "recover")
                for _ in range(3):
                    if self.op_audit(1000 + i, op) != "crash":
                        break
                    self.reboot()
            if env.findings:
                return


def jmeta(rng, depth=0):
    """Metadata JSON can carry."""
    if depth == 0:
        return {rng.choice("abcd"): jmeta(rng, 1) for _ in range(rng.randint(0, 3))}
    r = rng.random()
    if r < 0.7 or depth > 2:
        return rng.choice([1, -5, 0.5, True, None, "x", "é", "", "日本", 1e300])
    if r < 0.85:
        return [jmeta(rng, depth + 1) for _ in range(rng.randint(0, 3))]
    return {rng.choice("abcd"): jmeta(rng, depth + 1)}


class C21(Prop):
    id = "C21"
    rule = ("seeded save and load histories over 1-3 files and three formats, with kills, power losses, I/O errors and "
            "unserialisable metadata at random file-system calls; every file is loaded again after each crash and at "
            "the end; non-trivial: a fault fired or an export replaced an earlier one")
    assumptions = ["the durability model of the simulated file system (see DESIGN.md); JSON keeps numbers and shape, "
                   "not the array's type; a first export that fails leaves a file without guarantee"]
    real = ["valori.utils.helpers save_vectors_to_file / load_vectors_from_file", "valori.utils.atomic",
            "numpy npz, pickle, json, zipfile"]
    stubs = ["file system (in-memory, power-loss model)"]
    quick = (60000, 25)
    thorough = (3000000, 600)

    def gen(self, rng, tier, seed):
        names = rng.sample(["a", "b", "a.b", "é", "x y", ".a"], rng.choice([1, 1, 2]))
        fmts = rng.choice([["npz"], ["pickle"], ["json"], ["npz", "pickle", "json"]])
        ops, c = [], 0
        for _ in range(rng.choice([1, 2, 3, 5, 8] if tier == "quick" else [2, 5, 8, 16])):
            fmt, name = rng.choice(fmts), rng.choice(names)
            if rng.random() < 0.7:
                c += 1
                n = rng.choice([1, 1, 2, 3, 60])
                d = rng.choice([1, 2, 3])
                dt = rng.choice(["<f4", "<f8", "<f4", "<i8"])
                x = [[float(c)] + [gens.rcoord(rng) for _ in range(d - 1)] for _ in range(n)]
                if dt == "<i8":
                    x = [[int(a) for a in r] for r in x]
                v = {"v": {"x": x, "dt": dt}, "m": [jmeta(rng) if fmt == "json" else (gens.rmeta(rng) or {}) for _ in x]}
                if rng.random() < 0.05:
                    v = {"v": {"x": [], "dt": dt}, "m": [], "shape": [0, d]}
                elif rng.random() < 0.12:
                    v["m"][-1]["p"] = {"__p": 1}
                ops.append(["save", fmt, name, v, rng.random() < 0.4])
            else:
                ops.append(["load", fmt, name])
        scn = {"seed": seed, "ops": ops, "faults": [], "buf": rng.choice([16, 64, 512, 8192]),
               "retry": rng.random() < 0.5}
        r = rng.random()
        if r < 0.9:
            if r < 0.45:
                want = [crash_fault(rng) for _ in range(rng.choice([1, 1, 2, 3]))]
            elif r < 0.75:
                want = [error_fault(rng) for _ in range(rng.choice([1, 1, 2, 3]))]
            else:
                want = [error_fault(rng), crash_fault(rng)]
            dry = self.run(scn, kinds=True)
            scn["faults"] = place_faults(rng, dry.counts, dry.kinds, want)
        return scn

    def run(self, scn, keep_log=False, kinds=False):
        env = Env(scn, keep_log)
        env.fs.record_kinds = kinds
        with env:
            ExportWorld(env, scn).run()
        return Outcome(env)

    def nontrivial(self, scn, out):
        keys = [(o[1], o[2]) for o in scn["ops"] if o[0] == "save"]
        return bool(out.fired) or len(keys) > len(set(keys))


PROPS = [C21()]

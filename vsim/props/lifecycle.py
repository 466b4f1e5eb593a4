"""C22: life-cycle misuse, failed start-up and restart of every component."""
import json

import numpy as np

from .. import gens
from ..core import Env, Outcome, dec, error_fault, mkvec, place_faults, run_op
from ..model import MapModel
from ..prop import Prop
from . import persist as P
from .client import FAMILY, ClientWorld, gen_client, make_client
from .persist import PersistWorld
from .storage import ROOT, StorageWorld, gen_ops, make_storage


class Life:
    """initialize / close / new as operations of the history; data operations outside the
    initialized state must be refused with a library error and change nothing."""
    state = "off"           # off, on, unknown (an initialize or close failed half way)
    durable = True

    def comp(self):
        raise NotImplementedError

    def fresh(self):
        raise NotImplementedError

    def forget(self):
        """Nothing durable: closing empties it."""

    def misuse(self, op):
        """(what, call) pairs of the data operation, to be refused."""
        raise NotImplementedError

    def bad(self, sig, msg):
        self.env.fail(sig, msg)

    def life(self, i, op):
        k = op[0]
        env = self.env
        if k == "init":
            self.do_init(i)
        elif k == "close":
            self.do_close(i)
        elif k == "new":
            if self.state == "on" and not self.durable:
                return
            self.fresh()
            self.state = "off"
            env.probe("new_object")
        elif self.state == "on":
            getattr(self, "op_" + k)(i, op)
        elif self.state == "off":
            self.refused(op)

    def do_init(self, i, again=False):
        env = self.env
        if self.state == "on" and not self.durable:
            return
        was = self.state
        r, v = run_op(env, self.comp().initialize)
        if r == "ok":
            if was == "unknown" and not self.durable and not again:
                self.state = "on"
                self.do_close(i)
                return self.do_init(i, True)
            if was == "on":
                env.probe("init_twice")
            self.state = "on"
            env.probe("init")
            if env.fired_in_op():
                # a start that says it succeeded has everything, whatever went wrong meanwhile
                env.probe("init_despite_fault")
                with env.quiet():
                    self.op_audit(i, ["audit"])
            return
        if not self.lib_error(v):
            self.bad("error-type", "initialize raised %s: %s" % (type(v).__name__, v))
        if not env.fired_in_op():
            self.bad("reinit", "initialize raised without a fault%s: %s" % (" after a failed one" if again else "", v))
            return
        env.probe("init_failed")
        self.state = "off" if was == "off" else "unknown"
        if self.scn["again"] and not again:
            env.fs.clear_errors()
            env.open_op(i)
            self.do_init(i, True)

    def do_close(self, i):
        env = self.env
        was = self.state
        r, v = run_op(env, self.comp().close)
        if r == "ok":
            if was == "off":
                env.probe("close_twice")
            self.state = "off"
            env.probe("close")
            if not self.durable:
                self.forget()
            return
        if not env.fired_in_op():
            self.bad("close", "close raised without a fault (%s): %s: %s" % (was, type(v).__name__, v))
        self.state = "unknown"

    def lib_error(self, e):
        from valori.exceptions import ValoriError
        return isinstance(e, ValoriError)

    def refused(self, op):
        for what, call in self.misuse(op):
            r, v = run_op(self.env, call)
            self.env.probe("misuse")
            if r == "ok":
                self.bad("not-refused", "%s of a component that is not initialized returned %r" % (what, v))
            elif not self.lib_error(v):
                self.bad("error-type", "%s of a component that is not initialized raised %s: %s" % (
                    what, type(v).__name__, v))

    def run(self):
        env = self.env
        env.step(900, "create")
        self.fresh()
        ops = self.scn["ops"]
        for i, op in enumerate(ops):
            if self.dead or env.findings:
                return
            env.step(i, op[0])
            self.life(i, op)
        n = len(ops)
        env.fs.clear_errors()
        tail = [["init"], ["audit"], ["close"], ["close"]] + self.data_ops() + [
            ["init"], ["audit"], ["close"], ["new"]] + self.data_ops() + [["init"], ["audit"]]
        for j, op in enumerate(tail):
            if self.dead or env.findings:
                return
            env.step(n + j, op[0])
            self.life(n + j, op)

    def data_ops(self):
        return [o for o in self.scn["ops"] if o[0] not in ("init", "close", "new", "audit", "stats")][:5]


class LifeStorage(Life, StorageWorld):
    def __init__(self, env, scn):
        StorageWorld.__init__(self, env, scn, ("count",))
        self.durable = scn["kind"] != "memory"

    def comp(self):
        return self.st

    def fresh(self):
        self.st = make_storage(self.scn)

    def forget(self):
        self.model = MapModel()

    def misuse(self, op):
        st, k = self.st, op[0]
        if k == "store":
            vec, m = mkvec(op[2]), dec(op[3])
            yield "store_vector", lambda: st.store_vector(op[1], vec, m)
        elif k == "update":
            vec, m = mkvec(op[2]), dec(op[3])
            yield "update_vector", lambda: st.update_vector(op[1], vec, m)
        elif k == "get":
            yield "retrieve_vector", lambda: st.retrieve_vector(op[1])
        elif k == "delete":
            yield "delete_vector", lambda: st.delete_vector(op[1])
        elif k == "list":
            yield "list_vectors", lambda: st.list_vectors()

    def op_audit(self, i, op):
        r = StorageWorld.op_audit(self, i, op)
        self.env.probe("audit")
        return r


class Bare:
    """An index used directly over a storage that stays open: only the index is closed."""

    def __init__(self, client):
        self.storage_backend, self.index = client.storage_backend, client.index
        self.ready = False

    def initialize(self):
        if not self.ready:
            self.storage_backend.initialize()
            self.ready = True
        self.index.initialize(self.storage_backend)

    def close(self):
        self.index.close()

    def get_stats(self):
        return {"storage": self.storage_backend.get_stats(), "index": self.index.get_stats()}

    def __getattr__(self, name):
        return getattr(self.index, name)


class LifeClient(Life, ClientWorld):
    def __init__(self, env, scn):
        ClientWorld.__init__(self, env, scn, ("read", "reopen", "raise", "ghost", "complete", "sound", "life"))
        self.bare = scn["world"] == "index"
        self.durable = self.family and (self.bare or scn["kind"] != "memory")

    def comp(self):
        return self.client

    def fresh(self):
        old = self.client
        self.client = make_client(self.env, self.scn)
        if self.bare:
            # the index is replaced, the storage lives on
            self.client = Bare(self.client)
            if old is not None:
                self.client.storage_backend = old.storage_backend
                self.client.ready = old.ready
        elif self.scn.get("pm"):
            from valori.persistence.incremental import IncrementalPersistence
            from valori.persistence.tensor import TensorPersistence
            cls = TensorPersistence if self.scn["pm"] == "tensor" else IncrementalPersistence
            self.client.persistence_manager = cls({"data_dir": "/simfs/pm"})
        if self.scn.get("qz") and not self.bare:
            from valori.quantization import ProductQuantizer, ScalarQuantizer
            self.client.quantizer = ScalarQuantizer({}) if self.scn["qz"] == "scalar" else ProductQuantizer({"m": 2, "k": 1})

    def forget(self):
        self.reset()

    def misuse(self, op):
        c, k = self.client, op[0]
        targets = [("", c)]
        if not self.bare and self.deep:
            targets.append(("index.", c.index))
            yield "storage.list_vectors", lambda: c.storage_backend.list_vectors()
            if self.scn.get("pm"):
                yield "persistence_manager.load_vectors", lambda: c.persistence_manager.load_vectors("pm")
            if self.scn.get("qz"):
                yield "quantizer.train", lambda: c.quantizer.train(np.eye(4))
        for pre, t in targets:
            if k == "insert":
                X = np.array([it[1] for it in op[2]], dtype=op[1]).reshape(len(op[2]), -1)
                metas = [dec(it[2]) for it in op[2]]
                yield pre + "insert", lambda t=t: t.insert(X, metas)
            elif k == "search":
                q = np.array(op[1]["x"], dtype=op[1]["dt"])
                yield pre + "search", lambda t=t: t.search(q, op[2])
            elif k == "update":
                x, m = np.array(op[3], dtype=op[2]), dec(op[4])
                yield pre + "update", lambda t=t: t.update(self.tags.get(op[1], op[1]), x, m)
            elif k == "delete":
                yield pre + "delete", lambda t=t: t.delete(self.refs(op[1]))

    deep = True

    def do_init(self, i, again=False):
        r = Life.do_init(self, i, again)
        # after a failed start the parts may be open although the client is not
        self.deep = self.state == "off" and not self.env.fired_in_op()
        return r

    def do_close(self, i):
        Life.do_close(self, i)
        self.deep = self.state == "off"

    def op_audit(self, i, op):
        self.env.probe("audit")
        if not self.bare and self.state == "on":
            self.parts()
        return ClientWorld.op_audit(self, i, op)

    def parts(self):
        """A client that is open has all its parts open."""
        c = self.client
        with self.env.quiet():
            if self.scn.get("pm"):
                r, v = run_op(self.env, lambda: c.persistence_manager.load_vectors("none"))
                if r != "ok":
                    self.bad("parts", "the client is open, its persistence manager answers %s: %r" % (r, v))
            if self.scn.get("qz"):
                r, v = run_op(self.env, lambda: (c.quantizer.train(np.eye(4)), c.quantizer.quantize(np.eye(4))))
                if r != "ok":
                    self.bad("parts", "the client is open, its quantizer raised %s" % v)


class LifePersist(Life, PersistWorld):
    def __init__(self, env, scn):
        PersistWorld.__init__(self, env, scn, ("data",))

    def comp(self):
        return self.p

    def fresh(self):
        self.p = P.make(self.scn)

    def misuse(self, op):
        p = self.p
        if op[0] == "save":
            args, _ = self.value(op[1], op[3])
            yield "save_" + op[1], lambda: getattr(p, "save_" + op[1])(*args, op[2])
        elif op[0] == "load":
            yield "load_" + op[1], lambda: getattr(p, "load_" + op[1])(op[2])

    def op_audit(self, i, op):
        self.env.probe("audit")
        return PersistWorld.op_audit(self, i, op)


WORLDS = {"storage": LifeStorage, "client": LifeClient, "index": LifeClient, "persist": LifePersist}


class C22(Prop):
    id = "C22"
    rule = ("seeded orders of create, initialize, close and data operations of storages, indices (over an open storage), "
            "clients and persistence managers, with I/O errors at random file-system calls of initialize and close; "
            "non-trivial: a call was made outside the initialized state or a start-up failed")
    assumptions = ["memory storage, LSH and Annoy keep nothing over close; statistics are not data operations; after a "
                   "failed start or close of a whole client its parts are unspecified until the next initialize"]
    real = ["valori.client", "valori.storage.*", "valori.indices.*", "valori.persistence.*"]
    stubs = ["file system (in-memory)", "clock"]
    quick = (60000, 25)
    thorough = (3000000, 600)

    def gen(self, rng, tier, seed):
        world = rng.choice(["storage", "client", "client", "index", "persist"])
        if world == "storage":
            kind = rng.choice(["memory", "disk", "disk", "hybrid", "hybrid"])
            ops = gen_ops(rng, gens.rid(rng, rng.choice([1, 2, 3])), rng.choice([2, 5, 8, 12]),
                          extra=[("reopen", 0)])
            scn = {"seed": seed, "kind": kind, "limit": rng.choice([1, 2, 100]), "ops": ops, "retry": False}
        elif world == "persist":
            kind = rng.choice(["tensor", "incremental"])
            scn = P.gen(rng, tier, seed, kind)
            scn["ops"] = [o for o in scn["ops"] if o[0] not in ("reopen",) and not ("__p" in json.dumps(o))]
            scn["retry"] = False
        else:
            scn = gen_client(rng, tier, seed, ["memory", "disk", "hybrid"], FAMILY + ("lsh", "annoy"),
                             {"reopen": 0, "bad": 0, "build": 0})
            scn["retry"] = False
            if world == "client" and rng.random() < 0.5:
                scn["pm"] = rng.choice(["tensor", "incremental"])
            if world == "client" and rng.random() < 0.3:
                scn["qz"] = rng.choice(["scalar", "product"])
        data = scn["ops"][:12]
        p = rng.choice([0.15, 0.3, 0.6])
        ops = [["init"]] if rng.random() < 0.7 else []
        for o in data:
            while rng.random() < p:
                ops.append([rng.choice(["init", "init", "close", "close", "new"])])
            ops.append(o)
        scn.update(world=world, ops=ops, faults=[], buf=8192, again=rng.random() < 0.5)
        scn.pop("sfaults", None)
        life = [i for i, o in enumerate(ops) if o[0] in ("init", "close")]
        if life and rng.random() < 0.7:
            want = []
            for _ in range(rng.choice([1, 1, 2, 3])):
                f = error_fault(rng)
                f.pop("prefer", None)
                want.append(f)
            dry = self.run(scn, kinds=True)
            scn["faults"] = place_faults(rng, dry.counts, dry.kinds, want, life)
        return scn

    def run(self, scn, keep_log=False, kinds=False):
        env = Env(scn, keep_log)
        env.fs.record_kinds = kinds
        with env:
            WORLDS[scn["world"]](env, scn).run()
        return Outcome(env)

    def nontrivial(self, scn, out):
        return bool(out.probes.get("misuse") or out.probes.get("init_failed"))


PROPS = [C22()]

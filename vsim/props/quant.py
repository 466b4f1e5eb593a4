"""C25: quantizers as state machines, with failing allocations and concurrent encoders."""
import numpy as np

from .. import gens
from ..conc import Hist, conc_outcome, rsched, run_threads
from ..core import Env, run_op, scribble, vkey
from ..prop import Prop

REF = {}        # (configuration, training array) -> reference quantizer or the exception of its training


class Gate:
    """Stands for a module the quantizers compute with: the n-th call of an operation fails
    the way a failing allocation does."""

    def __init__(self, world, real):
        self.__dict__.update(_w=world, _real=real, _fns={})

    def __getattr__(self, name):
        v = getattr(self._real, name)
        if isinstance(v, type) or not callable(v):
            return v
        f = self._fns.get(name)
        if f is None:
            def f(*a, **k):
                self._w.gate(name)
                return v(*a, **k)
            self._fns[name] = f
        return f


def make(cfg):
    from valori.quantization import ProductQuantizer, SAQQuantizer, ScalarQuantizer
    cls = {"scalar": ScalarQuantizer, "product": ProductQuantizer, "saq": SAQQuantizer}[cfg["type"]]
    return cls({k: v for k, v in cfg.items() if k != "type"})


def same(a, b):
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, np.ndarray) and isinstance(b, np.ndarray):
        return a.dtype == b.dtype and a.shape == b.shape and (
            np.array_equal(a, b, equal_nan=True) if a.dtype.kind == "f" else np.array_equal(a, b))
    if isinstance(a, float) and isinstance(b, float):
        return a == b or (a != a and b != b)
    return type(a) is type(b) and a == b


REFUSED = "refused"


class Slot:
    def __init__(self, cfg):
        self.cfg = cfg
        self.q = None
        self.on = False
        # what it may be now: REFUSED or the number of a training array
        self.may = {REFUSED}
        self.codes = []     # (training array number, queries, codes)


class QuantWorld:
    def __init__(self, env, scn):
        self.env, self.scn = env, scn
        self.quiet = 0
        self.n = 0
        self.counts = {}
        self.faults = {(f["op"], f["n"]) for f in scn["faults"]}
        self.A = [np.array(d["x"], dtype=d["dt"]).reshape(d["shape"]) for d in scn["data"]]
        self.slots = [Slot(c) for c in scn["quantizers"]]
        self.mt = False

    # -- the seam ------------------------------------------------------------
    def gate(self, name):
        if self.quiet or self.mt:
            return
        i = self.env.opno
        n = self.counts.get(i, 0)
        self.counts[i] = n + 1
        if (i, n) in self.faults:
            self.env.fs.fired["alloc_fail"] = self.env.fs.fired.get("alloc_fail", 0) + 1
            self.env.log.add("alloc_fail", name, i, n)
            raise MemoryError("injected: cannot allocate")

    def install(self):
        from valori.quantization import product, saq, scalar
        world = self
        self.saved = []

        def put(mod, name, v):
            self.saved.append((mod, name, getattr(mod, name)))
            setattr(mod, name, v)
        for mod in (product, saq, scalar):
            if getattr(mod, "np", None) is np:
                put(mod, "np", Gate(self, np))
        for mod, name, meth in ((product, "KMeans", "fit"), (saq, "StandardScaler", "fit_transform")):
            cls = getattr(mod, name, None)
            if isinstance(cls, type):
                def m(self, *a, _cls=cls, _m=meth, **k):
                    world.gate(_m)
                    return getattr(_cls, _m)(self, *a, **k)
                put(mod, name, type(name, (cls,), {meth: m}))

    def restore(self):
        for mod, name, v in reversed(self.saved):
            setattr(mod, name, v)

    # -- reference -----------------------------------------------------------
    def ref(self, s, a):
        key = (repr(sorted(s.cfg.items())), vkey(self.A[a]))
        if key not in REF:
            if len(REF) > 400:
                REF.clear()
            self.quiet += 1
            q = make(s.cfg)
            q.initialize()
            r, v = run_op(self.env, lambda: q.train(self.A[a].copy()))
            self.quiet -= 1
            REF[key] = (q, None) if r == "ok" else (None, v)
        return REF[key]

    def want(self, s, a, what, args):
        self.quiet += 1
        try:
            q = self.ref(s, a)[0]
            return run_op(self.env, lambda: getattr(q, what)(*[x.copy() if isinstance(x, np.ndarray) else x for x in args]))
        finally:
            self.quiet -= 1

    def qerr(self, e):
        from valori.exceptions import QuantizationError
        return isinstance(e, QuantizationError)

    def fail(self, sig, msg):
        self.env.fail(sig, msg)

    # -- operations ----------------------------------------------------------
    def op_new(self, s, op):
        s.q, s.on, s.may = make(s.cfg), False, {REFUSED}

    def op_init(self, s, op):
        r, v = run_op(self.env, s.q.initialize)
        if r == "err":
            if not self.env.fired_in_op():
                self.fail("raise", "initialize raised %s: %s" % (type(v).__name__, v))
            s.may = s.may | {REFUSED}
            return
        s.on, s.may = True, {REFUSED}

    def op_close(self, s, op):
        r, v = run_op(self.env, s.q.close)
        if r == "err":
            self.fail("raise", "close raised %s: %s" % (type(v).__name__, v))
        s.on, s.may = False, {REFUSED}

    def op_train(self, s, op):
        a = op[2]
        X = self.A[a].copy()
        bad = self.ref(s, a)[1]
        r, v = run_op(self.env, lambda: s.q.train(X))
        if vkey(X) != vkey(self.A[a]):
            self.fail("argument", "train changed the array it was given")
        if self.scn["mutate"]:
            scribble(X)
        fired = self.env.fired_in_op()
        if r == "ok":
            if not s.on:
                self.fail("not-refused", "train of a quantizer that is not initialized returned %r" % (v,))
            elif bad is not None and not fired:
                self.fail("accepted", "train accepted an array a new quantizer refuses (%s)" % bad)
            else:
                s.may = {a}
                self.env.probe("trained")
            return
        self.env.probe("train_failed")
        if not fired:
            if s.on and bad is None:
                self.fail("raise", "train raised %s: %s; a new quantizer accepts the array" % (type(v).__name__, v))
            elif not self.qerr(v):
                self.fail("error-type", "train raised %s: %s" % (type(v).__name__, v))
        if s.on:
            # the previous code book, or none at all
            s.may = s.may | {REFUSED}

    def ask(self, s, what, args, judge=True):
        """One reading call: like the reference of the current code book, or refused."""
        given = [x.copy() if isinstance(x, np.ndarray) else x for x in args]
        r, v = run_op(self.env, lambda: getattr(s.q, what)(*given))
        for x, y in zip(given, args):
            if isinstance(x, np.ndarray) and vkey(x) != vkey(y):
                self.fail("argument", "%s changed the array it was given" % what)
        fired = self.env.fired_in_op() and not self.mt
        if r == "err":
            if fired:
                return None
            if REFUSED in s.may and self.qerr(v):
                if len(s.may) > 1 and not self.mt:
                    self.env.probe("refuses_after_failure")
                    s.may = {REFUSED}
                return None
            ok = [a for a in s.may if a != REFUSED and self.want(s, a, what, args)[0] == "err"]
            if not ok:
                self.fail("raise" if s.may != {REFUSED} else "error-type", "%s (%s) raised %s: %s" % (
                    what, self.state(s), type(v).__name__, v))
            return None
        hits = []
        wants = []
        for a in sorted(x for x in s.may if x != REFUSED):
            wr, wv = self.want(s, a, what, args)
            wants.append((wr, wv))
            if wr == "ok" and same(v, wv):
                hits.append(a)
        if not wants:
            self.fail("not-refused", "%s (%s) returned %r" % (what, self.state(s), v))
        elif not hits:
            self.fail("differs", "%s (%s) of %s returned %r; a new quantizer trained on the same array answers %r" % (
                what, self.state(s), brief(args), v, [w[1] for w in wants]))
        elif not self.mt:
            s.may = set(hits)
        if hits and judge:
            self.absolute(s, hits[0], what, args, v)
        return v

    def state(self, s):
        t = sorted(str(x) for x in s.may)
        return "%s, trained on %s" % (s.cfg["type"], "/".join(t)) if s.on else "%s, not initialized" % s.cfg["type"]

    def absolute(self, s, a, what, args, v):
        """Bounds that hold whatever the code book is."""
        A = self.A[a]
        t = s.cfg["type"]
        if not np.all(np.isfinite(A)):
            return
        if what == "quantize":
            if v.ndim != 2 or len(v) != len(args[0]) or v.dtype.kind not in "iu":
                self.fail("shape", "quantize of %s returned a %s array of %s" % (args[0].shape, v.shape, v.dtype))
        elif what == "dequantize":
            if v.shape != (len(np.atleast_2d(args[0])), A.shape[1]):
                self.fail("shape", "dequantize of %s returned %s, dimension %d" % (args[0].shape, v.shape, A.shape[1]))
            elif t == "scalar" and len(args) > 0 and s.cfg["bits"] <= 16:
                X = next((c[1] for c in s.codes if c[0] == a and c[2] is args[0]), None)
                if X is not None and X.shape == v.shape:
                    # a dimension without spread is stepped in units
                    lo, hi = A.min(0).astype(float), A.max(0).astype(float)
                    top = 2 ** s.cfg["bits"] - 1
                    step = np.where(hi > lo, (hi - lo) / top, 1.0)
                    inside = np.clip(X.astype(float), lo, lo + step * top)
                    if np.any(np.abs(v - inside) > step * 0.501 + 1e-4 * (1 + np.abs(inside))):
                        self.fail("error-bound", "%r decodes to %r, step %r" % (X.tolist(), v.tolist(), step.tolist()))
        elif what == "compute_distance":
            if not isinstance(v, float):
                self.fail("shape", "compute_distance returned %r" % (v,))
                return
            wr, d = self.want(s, a, "dequantize", [args[1].reshape(1, -1)])
            if wr != "ok":
                return
            y, q = d[0].astype(float), args[0].astype(float)
            if t == "product":
                w = float(np.sqrt(((q - y) ** 2).sum()))
            else:
                ny, nq = np.linalg.norm(y), np.linalg.norm(q)
                if min(ny, nq) < 1e-6:
                    return
                w = 1 - float(q @ y / (ny * nq))
            if abs(w - v) > 1e-3 * (1 + abs(w)):
                self.fail("distance", "compute_distance gives %r, the decoded vector is at %r" % (v, w))

    def queries(self, s, a, j):
        A = self.A[a]
        X = np.array(self.scn["queries"][j], dtype="<f4")
        d = A.shape[1] if A.ndim == 2 else 1
        return np.ascontiguousarray(np.resize(X, (len(X), d)))

    def current(self, s, k):
        t = sorted(x for x in s.may if x != REFUSED)
        return t[0] if t else k % len(self.A)

    def op_encode(self, s, op):
        a = self.current(s, op[2])
        if self.A[a].ndim != 2:
            return
        X = self.A[a].copy() if op[3] is None else self.queries(s, a, op[3])
        v = self.ask(s, "quantize", [X])
        if v is not None and not self.env.findings:
            s.codes.append((a, X, v.copy()))
            self.env.probe("encoded")
            if self.scn["mutate"]:
                scribble(v)

    def pick(self, s, k):
        c = [x for x in s.codes if x[0] in s.may]
        if c:
            return c[k % len(c)]
        return s.codes[k % len(s.codes)] if s.codes and s.may == {REFUSED} else (
            None if s.may != {REFUSED} else (0, np.zeros((1, 2), "<f4"), np.zeros((1, 2), "int32")))

    def op_decode(self, s, op):
        c = self.pick(s, op[2])
        if c is None:
            return
        v = self.ask(s, "dequantize", [c[2]])
        if v is not None:
            self.env.probe("decoded")
            if self.scn["mutate"]:
                scribble(v)

    def op_distance(self, s, op):
        c = self.pick(s, op[2])
        if c is None or not len(c[2]):
            return
        q = self.queries(s, c[0], op[3])[0] if self.A[c[0]].ndim == 2 else np.ones(2, "<f4")
        self.ask(s, "compute_distance", [q, c[2][op[2] % len(c[2])]])

    def op_rescore(self, s, op):
        c = self.pick(s, op[2])
        if s.cfg["type"] != "saq" or c is None or REFUSED in s.may or len(c[2]) != len(self.A[c[0]]):
            return
        q = self.queries(s, c[0], op[3])[0]
        self.ask(s, "search_with_rescoring", [q, c[2], 3])

    def op_stats(self, s, op):
        r, v = run_op(self.env, s.q.get_stats)
        if r == "err":
            if not self.env.fired_in_op():
                self.fail("raise", "get_stats (%s) raised %s: %s" % (self.state(s), type(v).__name__, v))
        elif s.on and "trained" in v and len(s.may) == 1 and v["trained"] is not (s.may != {REFUSED}):
            self.fail("stats", "get_stats (%s) says trained=%r" % (self.state(s), v["trained"]))
        elif s.on and len(s.may) == 1 and s.may != {REFUSED} and not self.env.fired_in_op():
            a = next(iter(s.may))
            wr, w = self.want(s, a, "get_stats", [])
            for k in ("dimensions", "n_segments", "compression_ratio", "effective_k", "bits", "m"):
                if wr == "ok" and k in w and v.get(k) != w[k]:
                    self.fail("stats", "get_stats (%s) says %s=%r, a new quantizer %r" % (self.state(s), k, v.get(k), w[k]))

    def op_par(self, i, op):
        """Concurrent readers of one quantizer (or several)."""
        self.mt = True

        def body(ops):
            for o in ops:
                s = self.slots[o[1]]
                if s.q is not None and s.on and REFUSED not in s.may and len(s.may) == 1 and not self.env.findings:
                    getattr(self, "op_" + o[0])(s, o)
        # what the reference says is worked out before the threads run
        sched = run_threads(self.env, self.scn, [lambda ops=ops: body(ops) for ops in op[1]])
        self.mt = False
        if sched.problem:
            self.fail("stuck", sched.problem)
        self.env.probe("concurrent")
        return sched

    def run(self):
        env = self.env
        self.install()
        sched = None
        try:
            for s in self.slots:
                s.q = make(s.cfg)
            for i, op in enumerate(self.scn["ops"]):
                env.step(i, op[0])
                if op[0] == "par":
                    sched = self.op_par(i, op)
                else:
                    getattr(self, "op_" + op[0])(self.slots[op[1]], op)
                env.log.add("may", [sorted(map(str, s.may)) for s in self.slots])
                if env.findings:
                    return sched
            for k, s in enumerate(self.slots):
                env.step(900 + k, "audit")
                for op in (["stats", k], ["encode", k, 0, None], ["decode", k, 0], ["decode", k, 1], ["distance", k, 0, 0],
                           ["stats", k]):
                    if not env.findings:
                        getattr(self, "op_" + op[0])(s, op)
        finally:
            self.restore()
        return sched


def brief(args):
    return ", ".join(str(a.tolist())[:100] if isinstance(a, np.ndarray) else repr(a) for a in args)


class C25(Prop):
    id = "C25"
    rule = ("seeded histories of initialize, train (also with unusable arrays), encode, decode, measure, rescoring search, "
            "statistics and close on 1-2 quantizers, allocation failures at random numeric calls, concurrent encoders; "
            "non-trivial: a second training, a failed training or a concurrent phase")
    assumptions = ["training concurrent with other calls of the same quantizer is not promised; a reference quantizer is "
                   "trained on the same array in the same process, KMeans with its fixed random state"]
    real = ["valori.quantization.*", "scikit-learn KMeans and StandardScaler", "numpy"]
    stubs = ["numeric calls that fail like allocations are decided by a wrapper around numpy and the scikit-learn calls"]
    quick = (40000, 25)
    thorough = (2000000, 600)

    def gen(self, rng, tier, seed):
        def rdata():
            n, d = rng.choice([1, 2, 3, 5, 5, 9, 9, 16]), rng.choice([1, 2, 2, 3, 4, 4, 6])
            dt = rng.choice(["<f4", "<f4", "<f8", "<i8"])
            x = [gens.rcoord(rng) * rng.choice([1, 1, 10]) for _ in range(n * d)]
            shape = [n, d]
            r = rng.random()
            if r < 0.06:
                shape, x = [0, d], []
            elif r < 0.12:
                shape = [n * d]
            elif r < 0.15:
                shape = [n, d, 1]
            elif r < 0.2 and dt != "<i8":
                x[rng.randrange(len(x))] = rng.choice([float("nan"), float("inf")])
            elif r < 0.27:
                x = [x[0]] * len(x)
            if dt == "<i8":
                x = [int(v) for v in x]
            return {"x": x, "dt": dt, "shape": shape}

        def rq():
            t = rng.choice(["scalar", "product", "product", "saq"])
            if t == "scalar":
                return {"type": t, "bits": rng.choice([1, 2, 4, 8, 8, 8, 16, 32, 63])}
            if t == "product":
                return {"type": t, "m": rng.choice([1, 2, 2, 3]), "k": rng.choice([1, 2, 3, 256])}
            return {"type": t, "total_bits": rng.choice([1, 4, 8, 128]), "n_segments": rng.choice([1, 2, 3, 8]),
                    "adjustment_iters": rng.choice([0, 1, 3]), "rescore_top_k": rng.choice([2, 50])}
        data = [rdata() for _ in range(rng.choice([1, 2, 2, 3]))]
        qs = [rq() for _ in range(rng.choice([1, 1, 2]))]
        if rng.random() < 0.012:
            # more centroids than one byte can number
            n = rng.choice([256, 257, 280])
            data = data[:1] + [{"x": [gens.rcoord(rng) + 8 * i for i in range(n)], "dt": "<f4", "shape": [n, 1]},
                               {"x": [gens.rcoord(rng) for _ in range(9)], "dt": "<f4", "shape": [9, 1]}]
            qs[0] = {"type": "product", "m": 1, "k": n}
        queries = [[gens.rcoord(rng) for _ in range(rng.choice([1, 2, 4]))] for _ in range(3)]

        def op(names, ws):
            k = rng.choices(names, ws)[0]
            o = [k, rng.randrange(len(qs))]
            if k == "train":
                o.append(rng.randrange(len(data)))
            elif k == "encode":
                o += [rng.randrange(3), rng.choice([None, 0, 1, 2])]
            elif k in ("decode",):
                o.append(rng.randrange(4))
            elif k in ("distance", "rescore"):
                o += [rng.randrange(4), rng.randrange(3)]
            return o
        names = ["init", "train", "encode", "decode", "distance", "rescore", "stats", "close", "new"]
        ws = [rng.choice([0.3, 1]), rng.choice([1, 3]), 3, 3, 1, 1, 0.5, rng.choice([0, 0.4]), rng.choice([0, 0.3])]
        ops = [["init", j] for j in range(len(qs)) if rng.random() < 0.9]
        if rng.random() < 0.8:
            ops += [["train", j, rng.randrange(len(data))] for j in range(len(qs))]
        ops += [op(names, ws) for _ in range(rng.choice([3, 6, 10, 16] if tier == "quick" else [6, 10, 16, 30]))]
        scn = {"seed": seed, "data": data, "quantizers": qs, "queries": queries, "ops": ops, "faults": [], "sfaults": [],
               "mutate": rng.random() < 0.4}
        if rng.random() < 0.25:
            ops.append(["par", [[op(["encode", "decode", "distance", "rescore"], [2, 2, 1, 1])
                                 for _ in range(rng.choice([1, 2, 3]))] for _ in range(rng.choice([2, 3]))]])
            scn["sched"] = rsched(rng)
        if rng.random() < 0.6:
            dry = self.run(scn)
            ok = [i for i in dry.counts if 0 <= i < 900]
            tr = [i for i in ok if scn["ops"][i][0] == "train"]
            for _ in range(rng.choice([1, 1, 2, 3])):
                if ok:
                    i = rng.choice(tr if tr and rng.random() < 0.7 else ok)
                    scn["faults"].append({"kind": "alloc", "op": i, "n": rng.randrange(dry.counts[i])})
        return scn

    def run(self, scn, keep_log=False):
        env = Env(scn, keep_log)
        with env:
            w = QuantWorld(env, scn)
            sched = w.run()
        out = conc_outcome(env, sched)
        out.counts = w.counts
        return out

    def nontrivial(self, scn, out):
        return bool(out.probes.get("train_failed") or out.probes.get("concurrent") or out.probes.get("trained", 0) > 1)


PROPS = [C25()]

"""C27: bulk ingestion helpers and database factories over failing files, models and storage."""
import copy
import sys
from pathlib import Path

import numpy as np

from .. import models
from ..core import Env, Outcome, canon, error_fault, place_faults, run_op, scribble, vkey
from ..prop import Prop
from .client import true_distance
from .documents import DocWorld, gen_docs

MODEL = "sentence-transformers/all-MiniLM-L6-v2"
DB = "/simfs/db"
IMG = "/simfs/img/"


def emb(text, name):
    if name == "clip":
        v = models.answer(text, name, "img")
        return v / np.linalg.norm(v)
    return models.answer(text, name, "st")


def near(d, metric, x, y, kind):
    w = true_distance(kind, metric, x, y)
    return abs(d - w) <= (2e-3 if metric == "angular" else 2e-5) * max(1, abs(w))


class IngestWorld(DocWorld):
    def __init__(self, env, scn):
        super().__init__(env, scn)
        self.dbs = []           # [client, {text: ...} records, index kind, directory number]
        self.dirs = {}          # directory -> list of (text, metadata canon)

    def hit_text(self, t):
        return any(b in t for b in self.bad)

    # what one file gives, without faults
    def file_row(self, name, parser, model):
        from valori.utils.helpers import create_vectors_from_files
        from valori.processors import ProcessingPipeline
        key = (name, canon(self.files.get(name)), parser, model)
        if key not in self.solo_cache:
            models.CONTROL.quiet = True
            with self.env.quiet():
                r, v = run_op(self.env, lambda: create_vectors_from_files([self.path(name)], parser, model))
                p = ProcessingPipeline({"parsers": {k: {"chunk_size": 1000} for k in ("text", "pdf", "office")},
                                        "processors": {"cleaning": {"normalize_whitespace": True},
                                                       "embedding": {"model_name": model}}})
                p.initialize()
                pr, pv = run_op(self.env, lambda: p.process_document(self.path(name), parser))
                if pr == "ok" and "embedding" not in pv:
                    pr = "err"
            models.CONTROL.quiet = False
            row = None
            if r != "ok":
                self.fail("raise", "create_vectors_from_files of one file raised %s: %s" % (type(v).__name__, v))
            elif not self.shape_ok(v):
                self.fail("shape", "create_vectors_from_files of one file returned %r" % (v,))
            elif (len(v[1]) == 1) != (pr == "ok"):
                self.fail("rows", "one file gave %d rows, the pipeline %s" % (len(v[1]), "processes it" if pr == "ok" else "rejects it"))
            elif pr == "ok":
                w = np.asarray(pv["embedding"])
                if not np.allclose(v[0][0], w, rtol=1e-5, atol=1e-6) or canon(v[1][0]) != canon(pv["metadata"]):
                    self.fail("differs", "the row of one file is not what the pipeline makes of it")
                row = (np.array(v[0][0], dtype=float), canon(v[1][0]))
            self.solo_cache[key] = row
        return self.solo_cache[key]

    def shape_ok(self, v):
        return (isinstance(v, tuple) and len(v) == 2 and isinstance(v[0], np.ndarray) and isinstance(v[1], list)
                and v[0].ndim == 2 and len(v[0]) == len(v[1]))

    def op_files(self, i, op, clean=False):
        from valori.utils.helpers import create_vectors_from_files
        env = self.env
        names, obj, parser, model = op[1:5]
        rows = [self.file_row(n, parser, model) for n in names]
        if env.findings:
            return
        env.fs.fault_paths = set()
        paths = [Path(self.path(n)) if obj else self.path(n) for n in names]
        r, v = run_op(env, lambda: create_vectors_from_files(list(paths), parser, model))
        if r != "ok":
            self.fail("raise", "create_vectors_from_files raised %s: %s" % (type(v).__name__, v))
            return
        if not self.shape_ok(v):
            self.fail("shape", "create_vectors_from_files returned %r" % (v,))
            return
        X, meta = v
        # the rows are those of the files in order; only files a fault may have hit can be missing
        n = 0
        pos = {0}
        for name, row in zip(names, rows):
            nxt = set()
            may = row is None or (not clean and self.hit(name))
            for p in pos:
                if may:
                    nxt.add(p)
                if row is not None and p < len(meta) and canon(meta[p]) == row[1] and \
                        X[p].shape == row[0].shape and np.allclose(X[p], row[0], rtol=1e-5, atol=1e-6):
                    nxt.add(p + 1)
            pos = nxt
        if len(meta) not in pos:
            self.fail("rows", "files %s gave rows %s (%d), expected those of %s" % (
                names, [m.get("file_name", m) if isinstance(m, dict) else m for m in meta], len(meta),
                [(x, "hit" if self.hit(x) else "") for x, row in zip(names, rows) if row is not None]))
        if any(row is not None for row in rows):
            env.probe("rows_some")
        if not len(meta):
            env.probe("rows_none")
        if self.scn.get("careless"):
            scribble(meta)
            scribble(X)

    def want_meta(self, t, model):
        return {"text": t, "text_length": len(t), "model_used": model, "embedding_dimension": models.DIM}

    def op_text(self, i, op, clean=False):
        from valori.utils.helpers import create_vectors_from_text
        env = self.env
        texts, model, bs = op[1:4]
        r, v = run_op(env, lambda: create_vectors_from_text(list(texts), model, bs))
        if r != "ok":
            if clean or not any(self.hit_text(t) for t in texts):
                self.fail("raise", "create_vectors_from_text raised %s: %s" % (type(v).__name__, v))
            return
        if not self.shape_ok(v) or len(v[1]) != len(texts):
            self.fail("shape", "create_vectors_from_text of %d texts returned %r" % (len(texts), v))
            return
        if v[0].dtype != np.float32:
            self.fail("shape", "vectors of type %s" % v[0].dtype)
        for t, x, m in zip(texts, v[0], v[1]):
            if not np.allclose(x, emb(t, model), rtol=1e-6):
                self.fail("vector", "the vector of %r is %s, the model says %s" % (t, x, emb(t, model)))
            if canon(m) != canon(self.want_meta(t, model)):
                self.fail("metadata", "the metadata of %r is %r" % (t, m))
        env.probe("texts")

    def op_nolib(self, i, op):
        """The embedding library is not installed."""
        from valori.exceptions import ValidationError
        from valori.utils.helpers import create_vectors_from_text
        real = sys.modules["sentence_transformers"]
        sys.modules["sentence_transformers"] = None
        try:
            r, v = run_op(self.env, lambda: create_vectors_from_text(["a"], MODEL))
        finally:
            sys.modules["sentence_transformers"] = real
        if r == "ok" or not isinstance(v, ValidationError):
            self.fail("nolib", "without sentence_transformers: %r" % (v,))

    # -- databases -----------------------------------------------------------
    def op_semantic(self, i, op):
        from valori.factory import create_hybrid_search_db, create_semantic_search_db
        env = self.env
        texts, model, kind, d, extra = op[1:6]
        kw = {} if kind == "default" else {"index_type": kind}
        if kind == "annoy" and extra is not None:
            kw["index_config"] = {"metric": "angular", "num_trees": 20}
        if d is not None:
            kw.update(storage_type="disk", storage_config={"data_dir": "%s%d" % (DB, d)})
        docs = None
        if extra is None:
            fn = lambda: create_semantic_search_db(list(texts), model, **kw)
            new = [(t, canon(self.want_meta(t, model))) for t in texts]
        else:
            docs = [dict(copy.deepcopy(extra[j % len(extra)]), text=t) for j, t in enumerate(texts)]
            new = []
            for j, (t, x) in enumerate(zip(texts, docs)):
                m = self.want_meta(t, model)
                m.update({k: y for k, y in x.items() if k != "text"})
                m["doc_id"] = j
                new.append((t, canon(m)))
            fn = lambda: create_hybrid_search_db(docs, model, **kw)
        r, c = run_op(env, fn)
        if docs is not None:
            if canon(docs) != canon([dict(copy.deepcopy(extra[j % len(extra)]), text=t) for j, t in enumerate(texts)]):
                self.fail("argument", "create_hybrid_search_db changed the documents")
            if self.scn.get("careless"):
                scribble(docs)
        old = self.dirs.get(d, []) if d is not None else []
        if r != "ok":
            env.probe("db_failed")
            if not env.fired_in_op() and not any(self.hit_text(t) for t in texts):
                self.fail("raise", "creating a %s database raised %s: %s" % (kind, type(c).__name__, c))
            if d is not None:
                # nothing acknowledged: each new record may be there
                self.reopen(d, old, new)
            return
        env.probe("db")
        if d is None:
            self.dbs.append([c, new, kind, model])
            self.ask(self.dbs[-1])
            if env.findings:
                return
        else:
            with env.quiet():
                run_op(env, c.close)
            self.reopen(d, old + new, [])

    def op_image(self, i, op):
        from valori.factory import create_image_search_db
        env = self.env
        names, kind, obj, extractor, missing, d = op[1:7]
        kw = {} if kind == "default" else {"index_type": kind}
        if d is not None:
            kw.update(storage_type="disk", storage_config={"data_dir": "%s%d" % (DB, d)})
        paths = [Path(IMG + n) if obj else IMG + n for n in names]
        if extractor:
            kw["feature_extractor"] = extractor
        env.fs.fault_paths = set()
        with models.image_libs(missing):
            r, c = run_op(env, lambda: create_image_search_db(list(paths), **kw))
        content = dict(self.scn["images"])
        rows = []           # (content, metadata, may be missing)
        for j, n in enumerate(names):
            t = content.get(n)
            if t is not None:
                rows.append((t, canon({"image_path": IMG + n, "image_id": j, "extractor": "clip"}),
                             IMG + n in env.fs.fault_paths or self.hit_text(t)))
        if extractor not in (None, "clip") or missing:
            want = ImportError if missing and extractor in (None, "clip") else ValueError
            if r == "ok" or not isinstance(c, want):
                self.fail("extractor", "extractor %r without %s: %r" % (extractor, missing, c))
            return
        old = self.dirs.get(d, []) if d is not None else []
        if r != "ok":
            env.probe("db_failed")
            if not env.fired_in_op() and any(not x for t, m, x in rows):
                self.fail("raise", "creating a %s image database of %s raised %s: %s" % (kind, names, type(c).__name__, c))
            if d is not None:
                self.reopen(d, old, [x[:2] for x in rows])
            return
        env.probe("imagedb")
        sure, may = [x[:2] for x in rows if not x[2]], [x[:2] for x in rows if x[2]]
        if d is not None:
            with env.quiet():
                run_op(env, c.close)
            self.reopen(d, old + sure, may)
            return
        if may:
            r, v = run_op(env, lambda: c.search(emb(rows[0][0], "clip"), k=len(rows) + 3))
            got = [canon(h["metadata"]) for h in v] if r == "ok" and kind in ("flat", "hnsw", "default") else []
            sure += [x for x in may if x[1] in got]
            if not got:
                return
        self.dbs.append([c, sure, kind if kind != "default" else "hnsw", "clip"])
        self.ask(self.dbs[-1])

    def reopen(self, d, must, may):
        """A fresh client over the directory holds exactly the acknowledged records."""
        from valori.client import VectorDBClient
        from valori.indices import FlatIndex
        from valori.storage import DiskStorage
        env = self.env
        with env.quiet():
            c = VectorDBClient(DiskStorage({"data_dir": "%s%d" % (DB, d)}), FlatIndex({"metric": "euclidean"}))
            r, v = run_op(env, c.initialize)
            if r != "ok":
                self.fail("reopen", "the directory cannot be opened: %s" % v)
                return
            r, v = run_op(env, lambda: c.search(np.zeros(models.DIM, "<f4"), k=1000)) if must or may else ("ok", [])
            if r != "ok":
                if must:
                    self.fail("reopen", "search raised %s: %s" % (type(v).__name__, v))
                v = []
            got = sorted(canon(h["metadata"]) for h in v)
            want = sorted(m for t, m in must)
            extra = list(got)
            for m in want:
                if m in extra:
                    extra.remove(m)
                else:
                    self.fail("lost", "directory %d lacks %s" % (d, m))
                    return
            left = [m for t, m in may]
            for m in extra:
                if m in left:
                    left.remove(m)
                else:
                    self.fail("phantom", "directory %d holds %s" % (d, m))
                    return
            gone = list(left)
            self.dirs[d] = [(t, m) for t, m in must]
            for t, m in may:
                if m in gone:
                    gone.remove(m)
                else:
                    self.dirs[d].append((t, m))
            run_op(env, c.close)

    def ask(self, db):
        """Every text finds its own record."""
        c, recs, kind, model = db
        env = self.env
        with env.quiet():
            for t, m in recs:
                r, v = run_op(env, lambda: c.search(emb(t, model), k=len(recs) + 3))
                if r != "ok":
                    self.fail("search", "searching the new %s database raised %s: %s" % (kind, type(v).__name__, v))
                    return
                hit = [canon(h["metadata"]) for h in v]
                if m not in hit:
                    self.fail("search", "the new %s database of %d texts does not find %r: %s" % (kind, len(recs), t, hit))
                    return
                if any(h not in [x for y, x in recs] for h in hit):
                    self.fail("search", "the %s database answers %s" % (kind, hit))
                    return
                if kind in ("flat",) and sorted(hit) != sorted(x for y, x in recs):
                    self.fail("search", "the %s database of %d texts answers %d" % (kind, len(recs), len(hit)))
                    return
                first = [float(h["distance"]) for h, x in zip(v, hit) if x == m]
                if kind in ("flat", "hnsw", "ivf") and hit[0] != m and min(first) > float(v[0]["distance"]) + 1e-5:
                    self.fail("search", "%r is not the nearest to itself in the %s database: %s" % (t, kind, hit))
                    return
            if self.scn.get("careless"):
                scribble(v)

    def op_docdb(self, i, op):
        from valori.factory import create_document_db
        env = self.env
        names, kind, model, metric = op[1:5]
        kw = {"index_config": {"metric": metric}} if metric else {}
        r, v = run_op(env, lambda: create_document_db(model, index_type=kind, **kw))
        if r != "ok":
            if not env.fired_in_op():
                self.fail("raise", "create_document_db raised %s" % v)
            return
        c, p = v
        recs = {}
        for n in names:
            env.fs.fault_paths = set()
            r, res = run_op(env, lambda: p.process_document(self.path(n)))
            if r != "ok" or "embedding" not in res:
                continue
            x = np.asarray(res["embedding"], dtype="<f4").reshape(1, -1)
            meta = {"name": n, "of": res["text"][:40]}
            r, ids = run_op(env, lambda: c.insert(x, [meta]))
            if r != "ok":
                self.fail("raise", "insert of the embedding of %s raised %s" % (n, ids))
                return
            recs.setdefault(n, []).append((x[0].copy(), canon(meta)))
        if kind == "annoy" and recs:
            run_op(env, c.index.build)
        for n in recs:
            for x, m in recs[n]:
                r, res = run_op(env, lambda: c.search(x, k=len(names) + 2))
                if r != "ok" or m not in [canon(h["metadata"]) for h in res]:
                    self.fail("search", "the document database does not find %s: %r" % (n, res))
                    return
                for h in res if metric else ():
                    vs = [y for q in recs.values() for y, w in q if w == canon(h["metadata"])]
                    if not any(near(float(h["distance"]), metric, x, y, kind) for y in vs):
                        self.fail("metric", "a %s document database made for %s gives the distance %s of %s and %s" % (
                            kind, metric, h["distance"], x, vs))
                        return
        env.probe("docdb")
        run_op(env, c.close)
        run_op(env, p.close)

    def run(self):
        env, scn = self.env, self.scn
        models.CONTROL.reset(env, [])
        env.fs.makedirs_sim("/simfs/docs")
        env.fs.fault_paths = set()
        for n, spec in scn["files"]:
            if spec:
                self.put(n, spec)
        for n, t in scn["images"]:
            env.fs.put_file(IMG + n, ("IMG:" + t if t is not None else "GIF:x").encode())
        for i, op in enumerate(scn["ops"]):
            self.bad = [t for o, t in scn["bad"] if o == i]
            models.CONTROL.bad = self.bad
            env.step(i, op[0])
            getattr(self, "op_" + op[0])(i, op)
            env.fs.clear_errors()
            env.probe(op[0])
            if env.findings:
                return
        self.bad = models.CONTROL.bad = []
        n = len(scn["ops"])
        env.step(n, "audit")
        # the databases are still what they were; the files once more without faults
        for db in self.dbs:
            if not env.findings:
                self.ask(db)
        if not env.findings:
            self.op_files(n, ["files", sorted(self.files), False, None, MODEL], True)
        for d in sorted(self.dirs):
            if not env.findings:
                self.reopen(d, self.dirs[d], [])


class C27(Prop):
    id = "C27"
    real = ["valori.utils.helpers.create_vectors_*", "valori.factory", "valori.processors, valori.parsers",
            "client, indices, memory and disk storage", "chardet, PyPDF2, python-docx, openpyxl, annoy"]
    stubs = ["file system (in-memory)", "embedding model (module sentence_transformers)", "modules clip, torch, PIL"]
    assumptions = ["documents do not change while the call that reads them runs; texts are not empty lists; LSH is "
                   "asked only for exact matches; a database on disk is judged after reopening it with an exact index"]
    rule = ("seeded sequences of the file, text, semantic-search, hybrid-search, image-search and document-database helpers over 1-8 documents "
            "of nine formats with I/O errors, short reads, model failures, a missing model library and failing storage; "
            "non-trivial: a fault fired or some document cannot be processed")
    quick = (40000, 25)
    thorough = (2000000, 600)

    def gen(self, rng, tier, seed):
        scn = gen_docs(rng, tier, seed)
        scn.pop("config")
        names = [f[0] for f in scn["files"]]
        toks = [t.split("^")[0] for f in scn["files"] if isinstance(f[1], list) for p in f[1][1] for t in p if t[0] == "t"]
        pool = ["alpha one", "beta", "gamma three", "delta", "beta", "Beta", "é", "x" * 50, "eps", "zeta six"]
        ms = [MODEL, MODEL, "m2"]
        many = rng.choice([35, 70, 130]) if rng.random() < 0.03 else 0
        if many:
            pool = ["item %d" % j for j in range(many)] + pool[:2]
        pics = ["a.png", "b.jpg", "c.png", "\u00e9 d.png", "e.png", "notes.gif", "f.png", "gone.png"]
        ops = []
        for _ in range(rng.choice([1, 2, 3, 4])):
            k = rng.choices(["files", "semantic", "text", "docdb", "put", "rm", "nolib", "image"], [5, 4, 1, 0.7, 1, 0.5, 0.3, 2])[0]
            if k == "files":
                ops.append([k, [rng.choice(names) for _ in range(rng.choice([1, 2, 4, 6] + [many] * bool(many)))] if rng.random() < 0.5
                            else rng.sample(names, len(names)), rng.random() < 0.5,
                            rng.choice([None, None, None, None, "text", "pdf", "nosuch"]), rng.choice(ms)])
            elif k == "semantic":
                d = rng.choice([None, None, None, 0, 0, 1])
                extra = rng.choice([None, None, [{}], [{"author": "a", "tags": ["x"]}, {"year": 3}], [{"text_length": -1}]])
                kind = "flat" if d is not None else rng.choice(["default", "annoy", "flat", "flat", "hnsw", "ivf", "lsh"])
                ops.append([k, [rng.choice(pool) for _ in range(rng.choice([1, 2, 3, 6, 12] + [many] * 3 * bool(many)))],
                            rng.choice(ms), kind, d, extra])
                if kind == "default" and extra is not None:
                    ops[-1][3] = "hnsw"
            elif k == "text":
                ops.append([k, [rng.choice(pool) for _ in range(rng.choice([1, 2, 5] + [many] * bool(many)))],
                            rng.choice(ms), rng.choice([1, 2, 32])])
            elif k == "docdb":
                ops.append([k, rng.sample(names, len(names)), rng.choice(["annoy", "hnsw", "flat"]), rng.choice(ms),
                            rng.choice([None, "euclidean", "cosine"])])
                if ops[-1][2] == "annoy" and ops[-1][4] == "cosine":
                    ops[-1][4] = "angular"
            elif k == "image":
                d = rng.choice([None, None, None, 0, 1])
                ops.append([k, [rng.choice(pics) for _ in range(rng.choice([1, 2, 4, 8]))],
                            "flat" if d is not None else rng.choice(["default", "annoy", "flat", "flat", "hnsw", "ivf", "lsh"]),
                            rng.random() < 0.5, rng.choice([None] * 8 + ["clip", "resnet"]),
                            rng.choice([None] * 12 + ["clip", "torch", "PIL"]), d])
            elif k == "put":
                f = rng.choice(scn["files"])
                if isinstance(f[1], list) and f[1][0] not in ("pdf", "xlsx", "docx", "pptx"):
                    ops.append([k, f[0], [f[1][0], [["new%dx" % rng.randrange(99)]], None]])
            elif k == "rm":
                ops.append([k, rng.choice(names)])
            else:
                ops.append([k])
        scn["ops"] = ops
        scn["images"] = [[n, t] for n, t in zip(pics, ["cat", "dog", "cat", "sun", "", None, "moon"])]
        scn["bad"] = []
        for i, op in enumerate(ops):
            if rng.random() < 0.5:
                if op[0] == "files" and toks:
                    scn["bad"].append([i, rng.choice(toks)])
                elif op[0] == "image":
                    scn["bad"].append([i, rng.choice(["cat", "dog", "moon"])])
                elif op[0] in ("semantic", "text") and rng.random() < 0.4:
                    scn["bad"].append([i, rng.choice(pool)])
        if rng.random() < 0.8:
            want = []
            for _ in range(rng.choice([1, 1, 2, 3])):
                want.append({"kind": rng.choice(["eio_read", "eio_read", "eio", "emfile", "short", "short"]),
                             "dur": rng.choice([1, 1, 1, 2, 3, 30]), "frac": round(rng.random(), 3), "prefer": ("read",)})
            dry = self.run(scn, kinds=True)
            ix = range(len(ops))
            scn["faults"] = place_faults(rng, dry.counts, dry.kinds, want, [o for o in ix if ops[o][0] in ("files", "docdb", "image")])
            disk = [o for o in ix if ops[o][0] == "semantic" and ops[o][4] is not None or ops[o][0] == "image" and ops[o][6] is not None]
            if disk:
                scn["faults"] += place_faults(rng, dry.counts, dry.kinds, [error_fault(rng)], disk)
        return scn

    def run(self, scn, keep_log=False, kinds=False):
        env = Env(scn, keep_log)
        env.fs.record_kinds = kinds
        with env:
            IngestWorld(env, scn).run()
        return Outcome(env)

    def nontrivial(self, scn, out):
        return bool(out.fired) or any(not isinstance(f[1], list) or f[1][2] for f in scn["files"])

    def shrink_values(self, scn):
        for j in range(len(scn["bad"])):
            c = copy.deepcopy(scn)
            del c["bad"][j]
            yield c
        for j in range(len(scn["files"])):
            c = copy.deepcopy(scn)
            n = c["files"].pop(j)[0]
            for op in c["ops"]:
                if op[0] in ("files", "docdb"):
                    op[1] = [x for x in op[1] if x != n] or [n]
            if not any(n in (op[1] if isinstance(op[1], list) else [op[1]]) for op in c["ops"]
                       if op[0] in ("files", "docdb", "put", "rm")):
                yield c

    def _drop(self, scn, a, b):
        c = super()._drop(scn, a, b)
        c["bad"] = [[o - (b - a) if o >= b else o, t] for o, t in c["bad"] if not a <= o < b]
        return c


PROPS = [C27()]

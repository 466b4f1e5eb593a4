"""C16: document pipeline over a failing file system and model.  C17: embeddings and their cache."""
import copy
import os
import re
import zlib
from pathlib import Path

import numpy as np

from .. import docs, models
from ..conc import conc_outcome, rsched, run_threads
from ..core import Env, Outcome, canon, place_faults, run_op, scribble
from ..prop import Prop

ROOT = "/simfs/docs"


# -- C16 -------------------------------------------------------------------------
class DocWorld:
    def __init__(self, env, scn):
        self.env, self.scn = env, scn
        self.files = {}         # name -> [kind, spec, mangle] | "dir"
        self.pipe = None
        self.solo_cache = {}
        self.bad = []           # tokens whose texts the model rejects at the moment

    def fail(self, sig, msg):
        self.env.fail(sig, msg)

    def new_pipe(self):
        from valori.processors.pipeline import ProcessingPipeline
        p = ProcessingPipeline(copy.deepcopy(self.scn["config"]))
        p.initialize()
        self.customize(p)
        return p

    def customize(self, p):
        """Parsers a user adds, for files another parser also takes."""
        from valori.parsers import TextParser
        for c in self.scn.get("custom", []):
            class Custom(TextParser):
                spec = c

                def can_parse(self, file_path):
                    return str(file_path).endswith(tuple(self.spec["suffixes"]))

                def parse(self, file_path):
                    data = super().parse(file_path)
                    if zlib.crc32(data["text"].encode()) % 3 == self.spec["picky"]:
                        raise [ValueError, KeyError, TypeError][self.spec["exc"]]("not for " + self.spec["name"])
                    data["text"] += "\n(by %s)" % self.spec["name"]
                    return data
            p.parser_registry.parser_priorities[c["name"]] = c["priority"]
            p.parser_registry.add_parser(c["name"], Custom, {"encoding": "utf-8", "chunk_size": 50, "chunk_overlap": 5})

    def path(self, name):
        return ROOT + "/" + name

    def solo(self, name, parser=None):
        """What a fresh pipeline makes of that file alone, without faults."""
        spec = self.files.get(name)
        key = (name, canon(spec), parser)
        if key not in self.solo_cache:
            models.CONTROL.quiet = True
            with self.env.quiet():
                p = self.new_pipe()
                r, v = run_op(self.env, lambda: p.process_document(self.path(name), *([parser] if parser else [])))
            models.CONTROL.quiet = False
            self.solo_cache[key] = (r, canon(v) if r == "ok" else str(v), v)
        return self.solo_cache[key]

    def put(self, name, spec):
        self.files[name] = spec
        fs = self.env.fs
        if spec == "dir":
            fs.makedirs_sim(self.path(name))
            return
        kind, toks, mangle = spec
        f = fs.put_file(self.path(name), docs.build(kind, tuple(tuple(p) for p in toks), mangle))
        f.mtime = 1.7e9         # an editor that preserves the modification time

    def tokens(self, name):
        spec = self.files.get(name)
        if not spec or spec == "dir" or spec[2] or spec[0] in ("bin", "utf16"):
            return None
        if self.scn["config"]["parsers"].get("text", {}).get("encoding", "auto") not in ("auto", "utf-8") and (
                spec[0] not in ("pdf", "docx", "xlsx", "pptx")):
            return None         # the configured encoding is not that of the file
        if any(ch in x for p in spec[1] for x in p for ch in "\0\r\x1a\x1b"):
            return None
        t = [x.split("^")[0] for p in spec[1] for x in p]
        cleaning = self.scn["config"]["processors"].get("cleaning")
        if cleaning and cleaning.get("remove_stopwords") and spec[0] == "csv":
            return None         # also removes words of more than 50 characters
        if cleaning is not None:
            t = [re.match(r"tok\d+x|[^^]*", x).group() for x in t]
        other = sum(not c.isascii() for x in t for c in x)
        if other and (other < 8 or cleaning is not None):
            return None         # too few for a sure detection of the encoding
        return t

    def whole(self, name, parser):
        """The characters of a text file, white space aside; None if the encoding is anyone's guess."""
        spec = self.files.get(name)
        cfg = self.scn["config"]
        if not spec or spec == "dir" or not name.lower().endswith((".txt", ".md", ".rst", ".log", ".csv")):
            return None
        if "cleaning" in cfg["processors"] or self.scn.get("custom") or parser not in (None, "text"):
            return None
        b = docs.build(spec[0], tuple(tuple(p) for p in spec[1]), spec[2])
        enc = cfg["parsers"].get("text", {}).get("encoding", "auto")
        if enc == "auto":
            if not b.isascii() or b"\0" in b or b"\x1b" in b or spec[2]:
                return None
            enc = "ascii"
        return "".join(b.decode(enc, "replace").split())

    def chunks(self, name, entry):
        """What the parser's chunks leave out of the text."""
        cs = entry.get("chunks")
        text = entry.get("text", "")
        if not cs or set(self.scn["config"]["processors"]) & {"cleaning", "chunking"} or self.scn.get("custom"):
            return
        pos = 0
        for c in cs:
            a, b = c["start_pos"], c["end_pos"]
            if text[pos:a].strip() or text[a:b].strip() != c["text"].strip():
                self.fail("chunks", "the chunks of %s lack %r or misplace %r (%d-%d)" % (
                    name, text[pos:a][:80], c["text"][:80], a, b))
                return
            pos = max(pos, b)
        if text[pos:].strip():
            self.fail("chunks", "the chunks of %s lack the end of the text, %r" % (name, text[pos:][:80]))

    def hit(self, name):
        """Could an injected fault have affected this document in the current operation?"""
        p = self.path(name)
        if any(f == p or f.rstrip("/") == p for f in self.env.fs.fault_paths):
            return True
        return any(b in self.words(name) for b in self.bad)

    def words(self, name):
        spec = self.files.get(name)
        return set() if not spec or spec == "dir" else {x.split("^")[0] for p in spec[1] for x in p}

    def judge(self, name, path, entry, clean, parser=None):
        r, want, _ = self.solo(name, parser)
        meta = entry.get("pipeline_metadata") if isinstance(entry, dict) else None
        if not isinstance(entry, dict) or not isinstance(meta, dict):
            self.fail("entry", "the entry for %s is %r" % (name, entry))
            return
        if meta.get("processing_complete"):
            if "error" in entry:
                self.fail("entry", "the entry for %s is complete and an error" % name)
            toks = self.tokens(name)
            if toks is not None:
                pos = 0
                for t in toks:
                    k = entry.get("text", "").find(t, pos)
                    if k < 0:
                        self.fail("truncated", "the result for %s is marked complete but lacks %r: %r" % (
                            name, t, entry.get("text", "")[:200]))
                        return
                    pos = k + len(t)
            whole = self.whole(name, parser)
            got = "".join(entry.get("text", "").split())
            if whole is not None and got != whole:
                self.fail("truncated", "the result for %s is marked complete, its text is %r, that of the file %r" % (
                    name, got[:200], whole[:200]))
                return
            self.chunks(name, entry)
            if r != "ok":
                self.fail("phantom", "%s cannot be processed alone (%s) but has a result" % (name, want))
            elif canon(entry) != want:
                self.fail("different", "the result for %s differs from that of processing it alone: %s" % (
                    name, self.diff(entry, name, parser)))
            return
        if not entry.get("error") or entry.get("file_path") != str(path):
            self.fail("entry", "the entry for %s is neither complete nor an error record naming it: %r" % (name, entry))
            return
        if r == "ok" and (clean or not self.hit(name)):
            self.fail("isolation", "%s was not hit by any fault but failed: %s" % (name, entry["error"]))

    def diff(self, entry, name, parser):
        want = self.solo(name, parser)[2]
        for k in sorted(set(entry) | set(want)):
            a, b = canon(entry.get(k)), canon(want.get(k))
            if a != b:
                return "%s: %s instead of %s" % (k, a[:150], b[:150])
        return "?"

    def op_batch(self, i, op, clean=False):
        env = self.env
        names = op[1]
        paths = [Path(self.path(n)) if op[2] else self.path(n) for n in names]
        for n in names:
            self.solo(n)
        env.fs.fault_paths = set()
        r, v = run_op(env, lambda: self.pipe.batch_process_documents(list(paths)))
        if r != "ok":
            self.fail("raise", "batch_process_documents raised %s: %s" % (type(v).__name__, v))
            return
        if not isinstance(v, list) or len(v) != len(names):
            self.fail("entries", "%d paths gave %r entries" % (len(names), len(v) if isinstance(v, list) else v))
            return
        for n, p, e in zip(names, paths, v):
            self.judge(n, p, e, clean)
        if self.scn.get("careless"):
            for e in v:
                scribble(e)

    def op_one(self, i, op, clean=False):
        env = self.env
        n = op[1]
        p = Path(self.path(n)) if op[2] else self.path(n)
        parser = op[3] if len(op) > 3 else None
        self.solo(n, parser)
        env.fs.fault_paths = set()
        r, v = run_op(env, lambda: self.pipe.process_document(p, *([parser] if parser else [])))
        if r == "err":
            from valori.exceptions import ValoriError
            if not isinstance(v, ValoriError):
                self.fail("error-type", "process_document raised %s: %s" % (type(v).__name__, v))
            if self.solo(n, parser)[0] == "ok" and (clean or not self.hit(n)):
                self.fail("isolation", "%s was not hit by any fault but failed: %s" % (n, v))
            return
        self.judge(n, p, v, clean, parser)
        if self.scn.get("careless"):
            scribble(v)

    def op_put(self, i, op):
        if self.files.get(op[1]) != "dir":
            self.put(op[1], op[2])

    def op_rm(self, i, op):
        if isinstance(self.files.get(op[1]), list):
            self.files[op[1]] = None
            d = self.env.fs._lookup_quiet(ROOT)
            d.entries.pop(op[1], None)
            d.durable.pop(op[1], None)

    def op_text(self, i, op):
        r, v = run_op(self.env, lambda: self.pipe.process_text(op[1]))
        if r == "ok" and self.scn.get("careless"):
            scribble(v)

    def op_reopen(self, i, op):
        run_op(self.env, self.pipe.close)
        if op[1] == "same":
            r, v = run_op(self.env, self.pipe.initialize)
            if r == "ok":
                self.customize(self.pipe)
        else:
            r, v = run_op(self.env, self.new_pipe)
            if r == "ok":
                self.pipe = v
        if r != "ok":
            self.fail("raise", "initialize raised %s" % v)

    def run(self):
        env, scn = self.env, self.scn
        models.CONTROL.reset(env, [])
        env.fs.makedirs_sim(ROOT)
        env.fs.fault_paths = set()
        for n, spec in scn["files"]:
            if spec:
                self.put(n, spec)
        env.step(900, "open")
        r, v = run_op(env, self.new_pipe)
        if r != "ok":
            env.fail("raise", "initialize raised %s" % v)
            return
        self.pipe = v
        for i, op in enumerate(scn["ops"]):
            self.bad = [t for o, t in scn["bad"] if o == i]
            models.CONTROL.bad = self.bad
            env.step(i, op[0])
            getattr(self, "op_" + op[0])(i, op)
            env.fs.clear_errors()
            env.probe(op[0])
            if env.findings:
                return
        self.bad = []
        models.CONTROL.bad = []
        n = len(scn["ops"])
        env.step(n, "audit")
        names = sorted(self.files)
        self.op_batch(n, ["batch", names, False], True)
        env.step(n + 1, "audit")
        for x in names:
            self.op_one(n + 1, ["one", x, True], True)


KINDS = ["txt", "txt", "txt", "md", "csv", "log", "pdf", "docx", "xlsx", "TXT", "bin", "utf16", "rst"]


def rdoc(rng, c, heavy=True):
    k = rng.choice(KINDS)
    if heavy and rng.random() < 0.04:
        k = "pptx"
    big = rng.random() < 0.25
    np_ = rng.choice([1, 2, 3]) if not big else rng.choice([4, 12])
    spec = []
    for _ in range(np_):
        p = []
        for _ in range(rng.choice([1, 2, 5]) if not big else rng.choice([5, 40])):
            c[0] += 1
            p.append("tok%dx" % c[0] if rng.random() < 0.97 else "ü%dé" % c[0])
            if k in ("txt", "md", "log", "csv") and rng.random() < 0.02:
                p[-1] += rng.choice(["\0", "\x0c", "\x0b", "\x1a", "\x7f", "\ufeff", "\u2028", "\u200b", "\U0001f600", "\x85",
                                     "\r", "\r\n", "e\u0301", "\ufb01", "\u212b", "\x08", '"', "'", "\\n", "&amp;", "<b>"]) + "q"
        spec.append(p)
    if k in ("pdf", "xlsx", "docx", "pptx"):
        spec = [["".join(ch for ch in t if ch.isascii()) or "z" for t in p] for p in spec]
    if k in ("txt", "md", "log", "TXT", "rst") and rng.random() < 0.05:
        m = rng.choice([1200, 2500, 2500, 14000, 14000, 220000 if rng.random() < 0.15 else 14000])
        spec.append(["tok%dx^%d" % (c[0] + 1, m)])
        spec.append(["tok%dx" % (c[0] + 2)] + (["üñéßçöâø%dé" % c[0]] if rng.random() < 0.6 else []))
        c[0] += 2
        c[1] = max(c[1], m)
    mangle = rng.choice(["half", "garbage", "flip", "empty"]) if rng.random() < 0.12 else None
    if k == "pdf" and mangle == "flip":
        mangle = "half"         # PyPDF2 may not return from a damaged page tree
    return [k, spec, mangle]


def gen_docs(rng, tier, seed):
    c = [0, 0]
    files = []
    for j in range(rng.choice([1, 2, 3, 5, 8])):
        r = rng.random()
        if r < 0.06:
            files.append(["gone%d.txt" % j, None])
        elif r < 0.1:
            files.append(["dir%d.txt" % j, "dir"])
        elif r < 0.13:
            files.append(["noext%d" % j, ["txt", [["a"]], None]])
        else:
            d = rdoc(rng, c)
            suf = {"utf16": "txt"}.get(d[0], d[0])
            if rng.random() < 0.03:
                suf = rng.choice(["xls", "docx", "pdf"])
            files.append(["%s%d.%s" % (rng.choice(["d", "d ", "é", "x.y"]), j, suf), d])
    names = [f[0] for f in files]
    ops = []
    for _ in range(rng.choice([1, 2, 3, 5])):
        k = rng.choices(["batch", "one", "put", "rm", "reopen", "text"], [6, 1.5, 1.5, 0.5, 0.5, 0.4])[0]
        if k == "batch":
            ops.append([k, [rng.choice(names) for _ in range(rng.choice([1, 2, 4, 6]))]
                        if rng.random() < 0.5 else rng.sample(names, len(names)), rng.random() < 0.5])
        elif k == "one":
            ops.append([k, rng.choice(names), rng.random() < 0.5])
            if rng.random() < 0.3:
                ops[-1].append(rng.choice(["text", "pdf", "office", "strict", "nonsense"]))
        elif k == "put":
            f = rng.choice(files)
            if isinstance(f[1], list):
                d = rdoc(rng, c, False)
                ops.append([k, f[0], [f[1][0], d[1] if f[1][0] not in ("pdf", "xlsx", "docx", "pptx") else
                                      [["n%dx" % (c[0] + 1)]], None]])
                c[0] += 1
        elif k == "rm":
            ops.append([k, rng.choice(names)])
        elif k == "reopen":
            ops.append([k, rng.choice(["same", "new"])])
        else:
            ops.append([k, "some raw text tok%dx" % rng.randrange(50)])
    cs = rng.choice([20, 100, 1000]) if c[1] < 10000 else 1000
    parsers = {p: {"chunk_size": cs, "chunk_overlap": rng.choice([0, 5, cs // 4])} for p in ("text", "pdf", "office")}
    for p in parsers:
        if rng.random() < 0.05:
            parsers[p]["max_file_size"] = 60
    if rng.random() < 0.1:
        parsers.pop(rng.choice(sorted(parsers)))
    if "text" in parsers and rng.random() < 0.35:
        parsers["text"]["encoding"] = rng.choice(["utf-8"] * 8 + ["latin-1", "utf-16", "cp1252", "utf-8-sig"])
    procs = {}
    if rng.random() < 0.5:
        procs["cleaning"] = rng.choice([{}, {"normalize_whitespace": True}, {"lowercase": True},
                                        {"remove_stopwords": True}])
    if rng.random() < 0.5:
        procs["chunking"] = {"chunk_size": cs, "chunk_overlap": rng.choice([0, 5, cs // 4]), "min_chunk_size": 5,
                             "strategy": rng.choice(["fixed_size", "semantic", "sliding_window"])}
    if rng.random() < 0.4:
        procs["embedding"] = {"cache_embeddings": rng.random() < 0.5, "model_name": "m"}
    custom = []
    if rng.random() < 0.3:
        for j in range(rng.choice([1, 1, 2])):
            custom.append({"name": ["strict", "other"][j], "suffixes": rng.choice([[".txt"], [".txt", ".md", ".log"], [".zzz"]]),
                           "picky": rng.choice([0, 1, 9]), "exc": rng.randrange(3), "priority": rng.choice([0, 1, 5, 9])})
    bad = []
    if "embedding" in procs and rng.random() < 0.6:
        toks = [t for f in files if isinstance(f[1], list) for p in f[1][1] for t in [x.split("^")[0] for x in p]
                if t[0] == "t"]
        for i, op in enumerate(ops):
            if op[0] == "batch" and toks and rng.random() < 0.7:
                bad.append([i, rng.choice(toks)])
    return {"seed": seed, "files": files, "ops": ops, "config": {"parsers": parsers, "processors": procs},
            "faults": [], "bad": bad, "custom": custom, "careless": rng.random() < 0.3, "buf": rng.choice([64, 512, 8192])}


class C16(Prop):
    id = "C16"
    real = ["valori.processors.pipeline, cleaning, chunking, embedding", "valori.parsers.*",
            "chardet, PyPDF2, python-docx, openpyxl, python-pptx, zipfile"]
    stubs = ["file system (in-memory)", "embedding model (module sentence_transformers)"]
    assumptions = ["documents do not change while the call that reads them runs; the embedding model is a function "
                   "of the text; docling and llama parsers are not installed and not covered"]
    rule = ("seeded batches over 1-8 documents of nine formats (some missing, unsupported, damaged or directories) "
            "with I/O errors, short reads and model failures, compared entry by entry with a fresh pipeline "
            "processing the file alone without faults; non-trivial: a fault fired or some document cannot be processed")
    quick = (40000, 25)
    thorough = (2000000, 600)

    def gen(self, rng, tier, seed):
        scn = gen_docs(rng, tier, seed)
        if rng.random() < 0.85:
            want = []
            for _ in range(rng.choice([1, 1, 2, 3])):
                want.append({"kind": rng.choice(["eio_read", "eio_read", "eio", "emfile", "short", "short"]),
                             "dur": rng.choice([1, 1, 1, 2, 3, 30]), "frac": round(rng.random(), 3),
                             "prefer": ("read",)})
            dry = self.run(scn, kinds=True)
            scn["faults"] = place_faults(rng, dry.counts, dry.kinds, want,
                                         [o for o in range(len(scn["ops"])) if scn["ops"][o][0] in ("batch", "one")])
        return scn

    def run(self, scn, keep_log=False, kinds=False):
        env = Env(scn, keep_log)
        env.fs.record_kinds = kinds
        with env:
            DocWorld(env, scn).run()
        return Outcome(env)

    def nontrivial(self, scn, out):
        return bool(out.fired) or any(not isinstance(f[1], list) or f[1][2] for f in scn["files"])

    def shrink_values(self, scn):
        for j in range(len(scn["files"])):
            c = copy.deepcopy(scn)
            n = c["files"].pop(j)[0]
            for op in c["ops"]:
                if op[0] == "batch":
                    op[1] = [x for x in op[1] if x != n]
            c["ops"] = [op for op in c["ops"] if not (op[0] in ("one", "put", "rm") and op[1] == n)]
            if len(c["ops"]) == len(scn["ops"]):
                yield c
        for k in list(scn["config"]["processors"]):
            c = copy.deepcopy(scn)
            del c["config"]["processors"][k]
            yield c
        for j in range(len(scn["bad"])):
            c = copy.deepcopy(scn)
            del c["bad"][j]
            yield c

    def _drop(self, scn, a, b):
        c = super()._drop(scn, a, b)
        c["bad"] = [[o - (b - a) if o >= b else o, t] for o, t in c["bad"] if not a <= o < b]
        return c


# -- C17 -------------------------------------------------------------------------
LONG = "word " * 120
TEXTS = ["a", "a ", " a", "A", "b", "a\n", "a b", "a_b", "a_m1", "m1", "é", "e\u0301", "\u212b", "\u00c5", "日本", "x" * 40,
         "x" * 41, LONG + "one", LONG + "two", LONG * 10 + "one", LONG * 10 + "two", LONG * 40 + "one",
         LONG * 40 + "two", "one " + LONG * 40, "two " + LONG * 40, "test", "TEST", "0", "1", "none",
         "a\tb", "a  b", ".", "a.", "\x00", "a\x00b", "😀"]


class EmbedWorld:
    def __init__(self, env, scn):
        self.env, self.scn = env, scn
        self.procs = []

    def want(self, j, text):
        c = self.scn["procs"][j]
        if c["model_type"] == "openai":
            v = models.answer(text, "text-embedding-ada-002", "openai").astype(float)
        elif c["model_type"] == "huggingface":
            v = models.answer(text[:c["max_length"]], c["model_name"], "hf").astype(float)
        else:
            v = models.answer(text, c["model_name"], "st").astype(float)
        if c.get("normalize_embeddings", True):
            v = v / np.linalg.norm(v)
        return v

    def judge(self, j, text, got, where):
        if not text.strip():
            return
        w = self.want(j, text)
        try:
            a = np.asarray(got, float)
        except Exception:
            a = None
        if a is None or a.shape != w.shape or not np.allclose(a, w, rtol=1e-5, atol=1e-6 * np.abs(w).max()):
            who = [repr(t[:30]) for t in TEXTS if a is not None and a.shape == w.shape and
                   np.allclose(a, self.want(j, t), rtol=1e-5, atol=1e-6)]
            self.env.fail("embedding", "%s: the embedding of %r (%d characters) is %s, the model says %s%s" % (
                where, text[:40], len(text), a, w, "; it is that of " + who[0] if who else ""))

    def one(self, thr, i, op):
        env = self.env
        k, j = op[0], op[1] % len(self.procs)
        p = self.procs[j]
        ctl = models.CONTROL
        if k == "process":
            data = {"text": op[2], "metadata": {}}
            if op[3] is not None:
                data["chunks"] = [{"id": n, "text": t} for n, t in enumerate(op[3])]
            fn = lambda: p.process(data)
        elif k == "batch":
            fn = lambda: p.batch_process(list(op[2]))
        elif k == "clear":
            fn = p.clear_cache
        elif k == "stats":
            fn = p.get_stats
        elif k == "reinit":
            def fn():
                p.close()
                p.initialize()
        for attempt in range(6):
            r, v = run_op(env, fn)
            if r == "ok":
                break
            env.probe("failed_call")
            if ctl.nfail == (0 if self.scn["conc"] else self.seen_fail):
                env.fail("raise", "%s raised without a model failure: %s: %s" % (k, type(v).__name__, v))
                return
            self.seen_fail = ctl.nfail
            if not op[-1]:
                return
        else:
            return
        self.seen_fail = ctl.nfail
        if k == "process":
            texts = [op[2]] + (op[3] or [])
            if not isinstance(v, dict) or "embedding" not in v:
                env.fail("shape", "process returned %r" % (v,))
                return
            got = [v["embedding"]] + list(v.get("chunk_embeddings") or [])
            if len(got) != len(texts):
                env.fail("shape", "%d chunks gave %d embeddings" % (len(texts) - 1, len(got) - 1))
                return
            for t, g in zip(texts, got):
                self.judge(j, t, g, "process")
            if self.scn["careless"]:
                scribble(v)
                for g in got:
                    scribble(g)
        elif k == "batch":
            if len(v) != len(op[2]):
                env.fail("shape", "%d texts gave %d embeddings" % (len(op[2]), len(v)))
                return
            for t, g in zip(op[2], v):
                self.judge(j, t, g, "batch_process")
            if self.scn["careless"]:
                for g in v:
                    scribble(g)

    def run(self):
        from valori.processors.embedding import EmbeddingProcessor
        env, scn = self.env, self.scn
        models.install_hf()
        ctl = models.CONTROL
        ctl.reset(env, scn["plan"])
        self.seen_fail = 0
        env.step(900, "open")
        for c in scn["procs"]:
            p = EmbeddingProcessor(dict(c))
            r, v = run_op(env, p.initialize)
            if r != "ok":
                env.fail("raise", "initialize raised %s" % v)
                return None
            self.procs.append(p)
        threads = {}
        for i, op in enumerate(scn["ops"]):
            threads.setdefault(op[0] if scn["conc"] else 0, []).append((i, op[1:]))
        sched = None
        if scn["conc"]:
            env.step(0, "conc")

            def body(t):
                for i, op in threads[t]:
                    self.one(t, i, op)
                    if env.findings:
                        return
            sched = run_threads(env, scn, [lambda t=t: body(t) for t in sorted(threads)])
            if sched.problem:
                env.fail("stuck", sched.problem)
                return sched
        else:
            for i, op in threads.get(0, []):
                env.step(i, op[0])
                self.one(0, i, op)
                env.probe(op[0])
                if env.findings:
                    return None
        # faults are over: every text once more, each must be the model's answer
        ctl.plan = {}
        env.step(901, "audit")
        seen = sorted({t for op in scn["ops"] if op[1] == "process" for t in [op[3]] + (op[4] or [])} |
                      {t for op in scn["ops"] if op[1] == "batch" for t in op[3]})
        for j, p in enumerate(self.procs):
            for t in seen:
                r, v = run_op(env, lambda: p.process({"text": t}))
                if r != "ok":
                    env.fail("raise", "process raised after the faults stopped: %s" % v)
                    return sched
                self.judge(j, t, v.get("embedding"), "audit")
        return sched


class C17(Prop):
    id = "C17"
    real = ["valori.processors.embedding"]
    stubs = ["embedding models (modules sentence_transformers, openai, transformers and torch) that fail and stall on "
             "demand", "clock"]
    assumptions = ["the model is a function of the text, never returns an all-zero vector and returns fresh arrays; "
                   "texts are valid Unicode and not blank; a Hugging Face model sees the first max_length tokens only"]
    rule = ("seeded histories of process, batch_process, clear_cache and get_stats over 1-2 processors by 1-3 threads "
            "under a seeded scheduler, with failing model calls and callers that overwrite the arrays they got; "
            "non-trivial: a text was embedded more than once, or a model call failed")
    quick = (40000, 25)
    thorough = (2000000, 600)

    def gen(self, rng, tier, seed):
        nthr = rng.choice([1, 1, 2, 3])
        conc = nthr > 1
        pool = rng.sample(TEXTS, rng.choice([2, 3, 5, 10]))
        many = 0
        if rng.random() < 0.04:
            many = rng.choice([40, 150, 300, 1100])
            pool = ["%s%d" % (rng.choice(["t", "text "]), j) for j in range(many)] + pool[:2]
        ops = []
        for _ in range(rng.choice([3, 5, 8, 14]) if not conc else rng.choice([3, 5, 8])):
            k = rng.choices(["process", "batch", "clear", "stats", "reinit"], [6, 2, 1, 0.5, 0 if conc else 0.4])[0]
            op = [rng.randrange(nthr), k, rng.randrange(2)]
            if k == "process":
                op += [rng.choice(pool), [rng.choice(pool) for _ in range(rng.choice([0, 1, 3]))]
                       if rng.random() < 0.4 else None]
            elif k == "batch":
                op += [[rng.choice(pool) for _ in range(rng.choice([1, 2, 5, 9, 40] + [many] * bool(many)))]]
            op.append(rng.random() < 0.6)
            ops.append(op)
        procs = []
        for j in range(rng.choice([1, 1, 2])):
            procs.append({"model_name": rng.choice(["m1", "m2", "m3", "sentence-transformers/all-MiniLM-L6-v2"]),
                          "model_type": rng.choice(["sentence_transformers"] * 4 + ["openai", "openai", "huggingface"]),
                          "cache_embeddings": rng.random() < 0.75, "normalize_embeddings": rng.random() < 0.6,
                          "batch_size": rng.choice([1, 2, 3, 32]), "device": rng.choice(["cpu", "cpu", "auto"]),
                          "max_length": rng.choice([512, 512, 40, 8000])})
        plan = []
        for n in range(30):
            f = {}
            if rng.random() < (0.15 if seed % 3 else 0):
                f = {"fail": True, "cls": rng.randrange(4)}
            if conc and rng.random() < 0.3:
                f["sleep"] = rng.choice([0.001, 1.0])
            if f:
                plan.append(dict(f, call=n))
        scn = {"seed": seed, "ops": ops, "procs": procs, "plan": plan, "conc": conc, "faults": [],
               "careless": rng.random() < 0.5, "buf": 8192}
        if conc:
            scn["sched"] = rsched(rng)
        return scn

    def run(self, scn, keep_log=False):
        env = Env(scn, keep_log)
        with env:
            sched = EmbedWorld(env, scn).run()
        return conc_outcome(env, sched)

    def nontrivial(self, scn, out):
        ts = [t for op in scn["ops"] if op[1] == "process" for t in [op[3]] + (op[4] or [])]
        return bool(out.fired) or len(ts) > len(set(ts))

    def shrink_values(self, scn):
        for j in range(len(scn["plan"])):
            c = copy.deepcopy(scn)
            del c["plan"][j]
            yield c
        if len(scn["procs"]) > 1:
            c = copy.deepcopy(scn)
            c["procs"].pop()
            yield c
        if scn["careless"]:
            yield dict(copy.deepcopy(scn), careless=False)


PROPS = [C16(), C17()]

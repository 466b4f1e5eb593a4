"""C28: what is logged arrives once, in order, and stays in the log files."""
import copy
import importlib.util
import logging
import os
import re
import sys

from ..boot import REPO
from ..conc import conc_outcome, rsched, run_threads
from ..core import Env, crash_fault, error_fault, place_faults, run_op
from ..prop import Prop

FILES = ["/simfs/log/app.log", "/simfs/l\u00f6g dir/deep/b", "/simfs/c.log"]
FORMATS = [None, "%(message)s", "%(levelname)s %(name)s %(message)s", "[%(asctime)s] %(threadName)s: %(message)s"]
LEVELS = {"DEBUG": 10, "INFO": 20, "WARNING": 30, "ERROR": 40, "CRITICAL": 50}
TEXTS = ["plain", "100% done %s %d", "{braces} {0}", "two\nlines", "caf\u00e9 \u4e2d", "", "x" * 120, "y" * 5000]
HELPERS = {"perf": 20, "mem": 20, "vec": 20, "idx": 20, "search": 20, "error": 40, "caught": 40, "warn": 30, "info": 20,
           "debug": 10, "own": 20, "ownerr": 40}


def tok(i):
    return "<%04d>" % i


class LogWorld:
    def __init__(self, env, scn):
        self.env, self.scn = env, scn
        self.mt = scn["conc"]
        self.state = "default"          # default | set | unknown
        self.level = 20
        self.file = None                # index of the current log file
        self.disk = {}                  # file index -> [[token, thread, required, pieces]]
        self.loose = set()              # files an I/O error hit since their last set-up
        self.crashed = set()
        self.touched = set()            # files an I/O error ever hit
        self.want = {}                  # token -> (text pieces) expected on the console (threads)
        self.mod = None

    def fail(self, sig, msg):
        self.env.fail(sig, msg)

    # -- a fresh process ------------------------------------------------------
    def boot(self):
        root = logging.getLogger()
        root.handlers[:] = []
        root.setLevel(logging.WARNING)
        for n in [n for n in logging.root.manager.loggerDict if n.startswith(("valori", "app"))]:
            del logging.root.manager.loggerDict[n]
        self.mod = {}
        for name in ("logging", "debugging"):
            spec = importlib.util.spec_from_file_location(
                "valori.utils." + name, os.path.join(REPO, "src/valori/utils/%s.py" % name))
            m = importlib.util.module_from_spec(spec)
            spec.loader.exec_module(m)
            self.mod[name] = m
        self.state, self.level, self.file = "default", 20, None

    def console(self):
        return sys.stderr if self.scn["api"] == "debugging" else sys.stdout

    def files_of(self, k):
        """[(number, text)] of a log file and its rotations, oldest first."""
        path = FILES[k]
        base, name = path.rsplit("/", 1)
        d = self.env.fs._lookup_quiet(base)
        out = []
        for n in (sorted(d.entries) if d is not None else []):
            if n == name:
                out.append((0, n))
            elif n.startswith(name + "."):
                out.append((int(n[len(name) + 1:]) if n[len(name) + 1:].isdigit() else 10 ** 6, n))
        return [(i, self.env.fs.read_file(base + "/" + n).decode("utf-8", "replace"))
                for i, n in sorted(out, reverse=True)]

    def params(self, k):
        """(largest size, backups) of log file k; one pair per file."""
        return self.scn["sizes"][k] if self.scn["api"] == "logging" else (0, 0)

    def audit(self, k):
        if k in self.loose:
            return
        fs = self.files_of(k)
        recs = self.disk.get(k, [])
        size, backups = self.params(k)
        rolls = size > 0 and backups > 0
        for n, text in fs:
            if n > (backups if rolls else 0):
                self.fail("files", "log file %s.%s beside a backup count of %d" % (FILES[k], n, backups))
                return
            if rolls and k not in self.touched and len(text) > size and len(re.findall(r"<\d{4}>", text)) > 1:
                self.fail("size", "%s.%d holds %d characters, the limit is %d" % (FILES[k], n, len(text), size))
                return
        text = "".join(t for _, t in fs)
        pos = {}
        for m in re.finditer(r"<\d{4}>", text):
            pos.setdefault(m.group(), []).append(m.start())
        known = {r[0] for r in recs}
        extra = [t for t in pos if t not in known]
        if extra:
            self.fail("stray", "%s contains %s, which was not to be logged there" % (FILES[k], extra[0]))
            return
        twice = [t for t in pos if len(pos[t]) > 1]
        if twice:
            self.fail("twice", "%s is %d times in %s" % (twice[0], len(pos[twice[0]]), FILES[k]))
            return
        seen = False
        last = {}
        starts = sorted(q[0] for q in pos.values())
        for t, thr, req, has in recs:
            if t in pos:
                seen = True
                if pos[t][0] < last.get(thr, -1):
                    self.fail("order", "%s comes in %s before a record logged earlier" % (t, FILES[k]))
                    return
                last[thr] = pos[t][0]
                if req and k not in self.touched and k not in self.crashed:
                    # the record lies between its neighbours' tokens
                    j = starts.index(pos[t][0])
                    part = text[starts[j - 1] + len(t) if j else 0:starts[j + 1] if j + 1 < len(starts) else len(text)]
                    miss = [h for h in has if h not in part]
                    if miss:
                        self.fail("content", "%r is not in the record %s in %s: %r" % (miss[0][:99], t, FILES[k], part[:300]))
                        return
            elif req and (seen and not self.mt or not rolls or
                          (k not in self.crashed and k not in self.touched and not any(n == backups for n, _ in fs))):
                self.fail("lost", "%s is missing from %s (%d files kept, limit %d bytes, %d backups)" % (
                    t, FILES[k], len(fs), size, backups))
                return
        if self.mt and rolls:
            # dropped records are the oldest of each thread
            for thr in {r[1] for r in recs}:
                there = [r[0] in pos for r in recs if r[1] == thr and r[2]]
                if there != sorted(there):
                    self.fail("lost", "a record is missing from the middle of %s" % FILES[k])
                    return
        if len(fs) > 1:
            self.env.probe("rotated")

    def hit(self):
        """Log files an injected error hit become loose until their next set-up."""
        env = self.env
        if not env.fired_in_op():
            return False
        for k, p in enumerate(FILES):
            base = p.rsplit("/", 1)[0]
            if any(q.startswith(base) or base.startswith(q) for q in env.fs.fault_paths):
                self.loose.add(k)
                self.touched.add(k)
                self.disk[k] = []
        env.fs.fault_paths.clear()
        return True

    # -- operations -----------------------------------------------------------
    def op_setup(self, op):
        level, fmt, k = op[1], op[2], op[3]
        if self.scn["api"] == "logging":
            cfg = {"level": level}
            if FORMATS[fmt]:
                cfg["format"] = FORMATS[fmt]
            if k is not None:
                cfg.update(log_to_file=True, log_file=FILES[k], max_file_size=self.scn["sizes"][k][0],
                           backup_count=self.scn["sizes"][k][1])
            if op[4] and k is None and fmt == 0 and level == "INFO":
                cfg = None
            r, v = run_op(self.env, lambda: self.mod["logging"].setup_logging(cfg))
        else:
            if k is not None:
                with self.env.quiet():
                    os.makedirs(FILES[k].rsplit("/", 1)[0], exist_ok=True)
            r, v = run_op(self.env, lambda: self.mod["debugging"].setup_logging(level, *([FILES[k]] if k is not None else [])))
        if r == "crash":
            return r
        faulty = self.hit()
        if r == "err":
            if not faulty:
                self.fail("raise", "setup_logging raised %s: %s" % (type(v).__name__, v))
            self.state = "unknown"
            return r
        self.state, self.level, self.file = "set", LEVELS[level.upper()], k
        if not faulty and k is not None and k in self.loose:
            self.loose.discard(k)
            # what an earlier handler still writes late, and what was there, may be found or not
            self.disk[k] = [[m, None, False, ()] for m in sorted(set(re.findall(
                r"<\d{4}>", "".join(t for _, t in self.files_of(k)))))]
        if faulty:
            self.env.probe("setup_despite_fault")

    def call(self, op, i):
        """(function, level, pieces of text the record has to contain)"""
        L = self.mod["logging"]
        h, x, y = op[1], op[2], op[3]
        t = tok(i)
        text = t + TEXTS[x]
        kw = {"extra_%d" % y: y, "c": TEXTS[x], "b": [y]} if op[4] else {}
        has = [t] + (["'extra_%d': %d" % (y, y), "'c': %r" % TEXTS[x], "'b': [%d]" % y] if kw else [])
        if self.scn["api"] == "debugging":
            lg = logging.getLogger("valori" + ["", ".storage", ".x.y"][y % 3])
            lv = HELPERS[h]
            return lambda: lg.log(lv, "%s", text), lv, [text]
        if h == "perf":
            return lambda: L.log_performance(t, y / 8, **kw), 20, has + [repr(y / 8)]
        if h == "mem":
            return lambda: L.log_memory_usage(t, 5 << 20, y << 19), 20, [t, "%.2f MB" % (y / 2 - 5)]
        if h == "vec":
            return lambda: L.log_vector_operation(t, y, 16, **kw), 20, has + ["'vector_count': %d" % y, "'vector_dim': 16"]
        if h == "idx":
            return lambda: L.log_index_stats(t, y, **kw), 20, has + ["'vector_count': %d" % y]
        if h == "search":
            return lambda: L.log_search_query(int(t[1:-1]), y, 3, t), 20, \
                [t, "'query_vector_dim': %d" % int(t[1:-1]), "'k': %d" % y, "'results_count': 3"]
        if h == "error":
            return lambda: L.log_error(ValueError("msg %d" % y), t), 40, [t, "ValueError", "msg %d" % y]
        if h == "caught":
            def fn():
                try:
                    raise KeyError("msg %d" % y)
                except KeyError as e:
                    L.log_error(e, t)
            return fn, 40, [t, "KeyError", "msg %d" % y, "Traceback"]
        if h in ("warn", "info", "debug"):
            f = {"warn": L.log_warning, "info": L.log_info, "debug": L.log_debug}[h]
            return lambda: f(text, **kw), HELPERS[h], [text] + has[1:]
        lv = HELPERS[h]
        return lambda: L.get_logger("app%d" % (y % 2)).log(lv, text), lv, [text]

    def op_log(self, op, i, thr=0):
        env = self.env
        fn, lv, has = self.call(op, i)
        t = tok(i)
        c = self.console()
        a = len(c.getvalue())
        to_file = self.state == "set" and self.file is not None and lv >= self.level
        rec = None
        if to_file:
            rec = [t, thr, False, has]
            self.disk.setdefault(self.file, []).append(rec)
        r, v = run_op(env, fn)
        if r == "crash":
            return r
        faulty = self.hit()
        if r == "err":
            self.fail("raise", "logging a record raised %s: %s%s" % (
                type(v).__name__, v, " (the log file failed)" if faulty else ""))
            return r
        if rec is not None and self.file not in self.loose:
            rec[2] = True
        if self.state == "unknown":
            return
        if self.scn["api"] == "debugging" and self.state != "set":
            return
        if self.mt:
            self.want[t] = lv >= self.level
            return
        text = c.getvalue()[a:]
        n = text.count(t)
        if lv < self.level:
            if n:
                self.fail("level", "a record below the level is on the console: %r" % text[:200])
        elif n != 1 and not (faulty and n > 1 and self.scn["api"] == "debugging"):
            self.fail("console", "a record of %s is %d times on the console" % (op[1], n))
        else:
            miss = [p for p in has if p not in text]
            if miss:
                self.fail("content", "%r is not in the record of %s: %r" % (miss[0][:99], op[1], text[:300]))
        env.probe("logged_to_file" if rec else "logged")
        if faulty:
            env.probe("logged_despite_fault")

    def audit_all(self):
        for k in sorted(self.disk):
            if not self.env.findings:
                self.audit(k)

    def do(self, i, op):
        return self.op_setup(op) if op[0] == "setup" else self.op_log(op, i)

    def body(self, thr, ops):
        for i, op in ops:
            self.env.log.add("iop", i, op[0])
            self.op_log(op, i, thr)

    def run(self):
        env, scn = self.env, self.scn
        root = logging.getLogger()
        saved = (list(root.handlers), root.level)
        logging.disable(logging.NOTSET)
        sched = None
        try:
            self.boot()
            ops = scn["ops"]
            n0 = 0
            if self.mt:
                while n0 < len(ops) and ops[n0][0] == "setup":
                    env.step(n0, "setup")
                    self.do(n0, ops[n0])
                    n0 += 1
                env.step(n0, "conc")
                threads = {}
                for i, op in enumerate(ops[n0:], n0):
                    threads.setdefault(op[5], []).append((i, op))
                sched = run_threads(env, scn, [lambda t=t: self.body(t, threads[t]) for t in sorted(threads)])
                if sched.problem:
                    env.fail("stuck", sched.problem)
                env.probe("concurrent")
                text = self.console().getvalue()
                for t, on in self.want.items():
                    if text.count(t) != on:
                        self.fail("console", "%s is %d times on the console, expected %d" % (t, text.count(t), on))
                        break
                self.audit_all()
                return sched
            for i, op in enumerate(ops):
                env.step(i, op[0], op[1])
                r = self.do(i, op)
                if r == "crash":
                    # the process is gone; what it logged is in the files
                    env.fs.reboot()
                    for k in self.disk:
                        self.crashed.add(k)
                    self.audit_all()
                    env.probe("killed")
                    self.boot()
                    env.fs.fault_paths.clear()
                else:
                    env.fs.clear_errors()
                    self.audit_all()
                if env.findings:
                    return sched
        finally:
            logging.disable(logging.CRITICAL)
            for h in list(root.handlers):
                if h not in saved[0]:
                    root.removeHandler(h)
            root.handlers[:] = saved[0]
            root.setLevel(saved[1])
        return sched


class C28(Prop):
    id = "C28"
    real = ["valori.utils.logging", "valori.utils.debugging.setup_logging", "the logging module below them"]
    stubs = ["file system (in-memory)", "standard output and error (captured)", "clock"]
    assumptions = ["text is valid Unicode; set-up runs in one thread; the two set-up functions are not mixed; before any set-up "
                   "loggers are not nested; what a log file lost to an I/O error is not owed (until the next set-up)"]
    rule = ("seeded sequences of set-ups and log calls of every kind, by 1-3 threads, with rotation, process kills and failing file "
            "calls; non-trivial: a fault fired, files rotated, or threads ran")
    quick = (60000, 25)
    thorough = (2000000, 600)

    def gen(self, rng, tier, seed):
        conc = rng.random() < 0.35
        api = "logging" if rng.random() < 0.8 else "debugging"
        sizes = [[rng.choice([0, 150, 300, 600, 2000]), rng.choice([0, 1, 2, 5])] for _ in FILES]

        def setup():
            return ["setup", rng.choice(["INFO", "INFO", "DEBUG", "debug", "WARNING", "ERROR"]), rng.choice([0, 0, 1, 2, 3]),
                    rng.choice([None, 0, 0, 0, 1, 2]), rng.random() < 0.3]
        names = sorted(HELPERS)
        fav = rng.sample(names, rng.choice([2, 4, len(names)]))
        ops = []
        if conc:
            for _ in range(rng.choice([0, 1, 1, 2])):
                ops.append(setup())
            if api == "debugging" and not ops:
                ops.append(setup())
            nthr = rng.choice([2, 2, 3])
            for _ in range(rng.choice([2, 4, 8])):
                ops.append(["log", rng.choice(fav), rng.randrange(len(TEXTS)), rng.randrange(4), rng.random() < 0.4,
                            rng.randrange(nthr)])
        else:
            for j in range(rng.choice([3, 6, 12, 25, 40])):
                if rng.random() < (0.6 if j == 0 else 0.1):
                    ops.append(setup())
                else:
                    ops.append(["log", rng.choice(fav), rng.randrange(len(TEXTS)), rng.randrange(4), rng.random() < 0.4, 0])
        scn = {"seed": seed, "ops": ops, "conc": conc, "api": api, "sizes": sizes, "faults": [], "buf": rng.choice([64, 8192])}
        if conc:
            scn["sched"] = rsched(rng)
        elif rng.random() < 0.6:
            dry = self.run(scn, kinds=True)
            want = [error_fault(rng) if rng.random() < 0.5 else crash_fault(rng, power=False)
                    for _ in range(rng.choice([1, 1, 2, 3]))]
            scn["faults"] = place_faults(rng, dry.counts, dry.kinds, want)
        return scn

    def run(self, scn, keep_log=False, kinds=False):
        env = Env(scn, keep_log)
        env.fs.record_kinds = kinds
        with env:
            sched = LogWorld(env, scn).run()
        return conc_outcome(env, sched)

    def nontrivial(self, scn, out):
        return bool(out.fired or scn["conc"] or out.probes.get("rotated"))

    def shrink_values(self, scn):
        for i, op in enumerate(scn["ops"]):
            if op[0] == "log":
                for j, v in ((2, 0), (3, 0), (4, False)):
                    if op[j] != v:
                        c = copy.deepcopy(scn)
                        c["ops"][i][j] = v
                        yield c


PROPS = [C28()]

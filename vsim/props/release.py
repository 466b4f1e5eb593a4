"""C31: the clean-up and release tools under failing deletes, failing builds and uploads, and kills."""
import builtins
import copy
import fnmatch
import importlib.util
import os
import shlex
import subprocess
import sys

from ..boot import REPO
from ..core import Env, Outcome, crash_fault, error_fault, place_faults
from ..ctx import SimCrash
from ..prop import Prop

ROOT, HOME = "/simfs/proj", "/simfs/home"
EXTS = (".whl", ".tar.gz", ".zip", ".tar.bz2")
TOKENS = {"PYPI_API_TOKEN": "pypi-real-secret", "TEST_PYPI_API_TOKEN": "pypi-test-secret"}
VERSIONS = ["0.1.0", "0.1.1", "0.1.10", "0.2.0", "1.0.0rc1", "2024.1", "0.1.1.post1"]
OTHERS = ["notes.txt", "valori.txt", "valori-0.0.1.txt", "valori-0.0.1.whl.bak", "valori_tools-0.0.1.tar.gz",
          "valori-tools-0.0.1.tar.gz", "other-0.0.1.tar.gz", "xvalori-0.0.1.zip", "valori-0.0.1.tar.gz.asc", ".hidden",
          "checksum-valori-0.0.1.zip", "valori-0.0.1.egg", "valori-0.0.1.tar.xz", "VALORI-0.0.1.zip", "valori-0.0.1.gz", "valori-0.0.1.bz2",
          "old/valori-0.0.1.tar.gz"]
FORMS = ["%s-%s-py3-none-any.whl", "%s-%s.tar.gz", "%s-%s.zip", "%s-%s.tar.bz2", "%s-%s-cp312-cp312-manylinux_2_17_x86_64.whl"]


class World:
    def __init__(self, env, scn):
        self.env, self.scn = env, scn
        self.events = []
        self.op = None
        self.procs = 0

    def install(self):
        w = self

        class Process:
            """A child process: python -m build / pip / twine, as the scenario says they end."""
            pid = 4242

            def __init__(self, args, *a, **k):
                self.args = args
                self.returncode = w.spawn(args, k)

            def wait(self, timeout=None):
                return self.returncode

            def poll(self):
                return self.returncode

            def communicate(self, input=None, timeout=None):
                return None, None

            def kill(self):
                pass
            terminate = kill
            stdin = stdout = stderr = None

            def __enter__(self):
                return self

            def __exit__(self, *a):
                return False

        self.saved = [(o, n, getattr(o, n)) for o, n in ((subprocess, "Popen"), (os, "getcwd"), (os, "system"),
                                                        (builtins, "input"))]
        subprocess.Popen = Process
        os.getcwd = lambda: ROOT
        os.system = lambda cmd: self.spawn(cmd, {}) << 8
        builtins.input = self.ask
        self.environ = dict(os.environ)
        for v in list(TOKENS) + ["TWINE_USERNAME", "TWINE_PASSWORD"]:
            os.environ.pop(v, None)
        os.environ["HOME"] = HOME

    def restore(self):
        for o, n, v in self.saved:
            setattr(o, n, v)
        os.environ.clear()
        os.environ.update(self.environ)

    def load(self, name):
        spec = importlib.util.spec_from_file_location("valori_" + name, os.path.join(REPO, "scripts", name + ".py"))
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        return m

    # -- what the tools talk to -------------------------------------------------
    def ask(self, prompt=""):
        a = self.op.get("answer")
        self.events.append(("ask", a))
        if a is None:
            raise EOFError
        if a == "^C":
            raise KeyboardInterrupt
        return a

    def spawn(self, args, k):
        self.procs += 1
        words = shlex.split(args) if isinstance(args, str) else [os.fspath(a) for a in args]
        self.env.log.add("spawn", " ".join(words).replace(sys.executable, "python"))
        envir = k.get("env")
        envir = dict(os.environ) if envir is None else dict(envir)
        for t in TOKENS.values():
            if any(t in w for w in words):
                self.env.fail("token", "the token is on the command line of %s" % words[:4])
        tail = words[words.index("-m") + 1:] if "-m" in words else [os.path.basename(words[0])] + words[1:]
        with self.env.quiet():
            dist = ROOT + "/dist"
            if tail[0] == "build":
                if os.fspath(k.get("cwd") or ROOT) != ROOT:
                    self.env.fail("cwd", "built in %s" % k.get("cwd"))
                i = sum(e[0] == "build" for e in self.events)
                ok = not self.op["build"][i:i + 1] == [False]
                self.events.append(("build", ok, self.files()))
                if self.name and (ok or self.op.get("partial")):
                    both = ["%s-%s.tar.gz" % (self.name, self.version), "%s-%s-py3-none-any.whl" % (self.name, self.version)]
                    for n in both if ok else both[:1]:
                        self.env.fs.put_file(dist + "/" + n, b"built %d" % self.procs)
                return 0 if ok else 1
            if tail[0] == "pip":
                ok = self.op.get("pip", True)
                self.events.append(("pip", ok))
                return 0 if ok else 1
            if tail[0] == "twine" and tail[1:2] == ["upload"]:
                url, pats = None, []
                rest = iter(tail[2:])
                for a in rest:
                    if a == "--repository-url":
                        url = next(rest)
                    elif a.startswith("--repository-url="):
                        url = a.split("=", 1)[1]
                    elif not a.startswith("-"):
                        pats.append(a)
                sent = set()
                for p in pats:
                    p = p if p.startswith("/") else "%s/%s" % (k.get("cwd") or ROOT, p)
                    sent.update(f for f in self.files() if fnmatch.fnmatchcase(f, p))
                ok = self.op.get("upload", True)
                self.events.append(("upload", ok, sorted(sent), url, envir.get("TWINE_USERNAME"),
                                    envir.get("TWINE_PASSWORD"), self.files()))
                return 0 if ok else 1
        self.events.append(("other", words))
        return 0

    def files(self):
        """{path: content} of everything below the project and the home directory."""
        out = {}

        def walk(p):
            d = self.env.fs._lookup_quiet(p)
            if d is None:
                return
            if hasattr(d, "entries"):
                for n in sorted(d.entries):
                    walk(p + "/" + n)
            else:
                out[p] = bytes(d.data)
        walk(ROOT)
        walk(HOME)
        return out

    def old(self, path):
        """Is this one the clean-up removes?  None: left open (a version that begins with the current one)."""
        d, n = path.rsplit("/", 1)
        if d != ROOT + "/dist" or not n.endswith(EXTS) or not self.name or not n.startswith(self.name + "-"):
            return False
        rest = n[len(self.name) + 1:]
        if not rest[:1].isdigit():
            return False
        if rest.startswith(self.version):
            return False if rest[len(self.version):].startswith(("-",) + EXTS) else None
        return None if self.version in rest else True

    # -- operations -------------------------------------------------------------
    def describe(self, kind):
        """(name, version) the project files give, (None, None) if they give none."""
        s = self.scn["project"][kind]
        self.name = self.version = None
        if s["where"] != "none":
            self.name, self.version = "valori", s["version"]
        text = {"py": '[build-system]\nrequires = ["setuptools"]\n\n[project]\nname = "valori"\nversion = "%s"\n'
                      'description = "x"\n[tool.black]\ntarget-version = ["py38"]\n',
                "py2": '[project]\n  version   = "%s"\nname="valori"\nauthors = [{name = "A", email = "a@b"}]\n',
                "dyn": '[project]\nname = "valori"\ndynamic = ["version"]\n'}
        cfg = "[flake8]\nmax-line-length = 88\n[metadata]\nname = valori\nversion = %s\n[options]\npackages = find:\n"
        fs = self.env.fs
        for n in ("pyproject.toml", "setup.cfg"):
            d = fs._lookup_quiet(ROOT)
            d.entries.pop(n, None)
            d.durable.pop(n, None)
        v = s["version"]
        w = s["where"]
        if w in ("py", "py2"):
            fs.put_file(ROOT + "/pyproject.toml", (text[w] % v).encode())
            if s["both"]:
                fs.put_file(ROOT + "/setup.cfg", (cfg % "9.9.9").encode())
        elif w == "cfg":
            fs.put_file(ROOT + "/setup.cfg", (cfg % v).encode())
            if s["both"]:
                fs.put_file(ROOT + "/pyproject.toml", text["dyn"].encode())
        elif s["both"]:
            fs.put_file(ROOT + "/pyproject.toml", text["dyn"].encode())

    def go(self, fn):
        try:
            return "rc", fn()
        except SimCrash:
            return "crash", None
        except SystemExit as e:
            return "rc", e.code
        except (Exception, KeyboardInterrupt) as e:
            return "raise", e

    def run_op(self, i, op):
        env = self.env
        self.op, self.events = op, []
        self.describe(op["proj"])
        for n, c in op.get("put", []):
            if n.endswith("/"):
                env.fs.makedirs_sim(ROOT + "/dist/" + n)
            elif env.fs._lookup_quiet(ROOT + "/dist/" + n) is None:
                env.fs.put_file(ROOT + "/dist/" + n, c.encode())
        for v in TOKENS:
            os.environ.pop(v, None)
        for v in op.get("tokens", []):
            os.environ[v] = TOKENS[v]
        for p in (HOME + "/.pypirc", ROOT + "/.pypirc"):
            d = env.fs._lookup_quiet(p.rsplit("/", 1)[0])
            d.entries.pop(".pypirc", None)
            d.durable.pop(".pypirc", None)
            if p in op.get("rc", []):
                env.fs.put_file(p, b"[pypi]\n")
        before = self.files()
        env.open_op(i)
        sys.stdout.seek(0)
        sys.stdout.truncate()
        if op["op"] == "clean":
            argv, sys.argv = sys.argv, ["clean_dist.py"]
            try:
                r, rc = self.go(self.mod["clean_dist"].main)
            finally:
                sys.argv = argv
        else:
            r, rc = self.go(lambda: self.mod["release"].main(list(op["args"])))
        after = self.files()
        env.log.add(r, rc if isinstance(rc, (int, type(None))) else type(rc).__name__, len(after))
        self.judge(op, r, rc, before, after)
        return r

    def judge(self, op, r, rc, before, after):
        env, fail, ev = self.env, self.env.fail, self.events
        faulty = env.fired_in_op()
        release = op["op"] == "release"
        args = op.get("args", [])
        dry = "--dry-run" in args
        yes = "--yes" in args or "-y" in args
        asked = [e for e in ev if e[0] == "ask"]
        agreed = bool(asked) and str(asked[-1][1]).strip().lower() in ("y", "yes")
        builds = [e for e in ev if e[0] == "build"]
        uploads = [e for e in ev if e[0] == "upload"]
        text = sys.stdout.getvalue() + sys.stderr.getvalue()
        for t in TOKENS.values():
            if t in text:
                fail("token", "the token was printed")
        if [e for e in ev if e[0] == "other"]:
            return fail("command", "ran %r" % [e for e in ev if e[0] == "other"][0][1][:6])
        # nothing but old distributions goes, and only what the build made comes
        for p in before:
            if p not in after:
                if self.old(p) is False:
                    return fail("removed", "%s was removed, the current version is %s %s" % (p, self.name, self.version))
                if release and (dry or not (yes or agreed) or "--skip-clean" in args):
                    return fail("unasked", "%s was removed by release %s, answer %r" % (p, args, asked))
            elif after[p] != before[p] and not builds:
                return fail("changed", "%s was changed" % p)
        for p in after:
            if p not in before and not builds:
                return fail("created", "%s was created" % p)
        if not self.name and (r == "rc" and rc in (0, None) or ev):
            return fail("nameless", "no name and version to be found, but %r and %r" % (rc, ev))
        old = sorted(p for p in before if self.old(p))
        if not release:
            if r == "rc" and rc in (0, None) and self.name and not faulty:
                left = [p for p in old if p in after]
                if left:
                    return fail("left", "%s was left by the clean-up, the current version is %s" % (left[0], self.version))
            elif r != "crash" and self.name and not faulty:
                return fail("raise", "the clean-up ended with %r" % (rc,))
            self.others_go(r, old, after, faulty)
            return
        if dry and (ev or after != before):
            return fail("dry", "a dry run did %r" % [e[:2] for e in ev])
        refused = asked and not agreed
        if refused and (builds or uploads or after != before):
            return fail("refused", "went on after the answer %r" % (asked[-1][1],))
        if asked and (yes or not [p for p in before if self.old(p) is not False]):
            return fail("asked", "asked with --yes, or with nothing to delete")
        if old and not yes and not dry and "--skip-clean" not in args and builds and not asked:
            return fail("unasked", "went on to build without asking, %s is there" % old[0])
        if builds and not faulty and "--skip-clean" not in args:
            left = [p for p in old if p in builds[0][2]]
            if left:
                return fail("left", "%s was still there at the build of %s (args %s, answer %r)" % (
                    left[0], self.version, args, asked and asked[-1][1]))
        if builds and "--skip-clean" not in args:
            self.others_go("rc", old, builds[0][2], faulty)
        test = "--test" in args
        var = "TEST_PYPI_API_TOKEN" if test else "PYPI_API_TOKEN"
        creds = var in op.get("tokens", []) or bool(op.get("rc"))
        for k, e in enumerate(ev):
            if e[0] == "upload":
                prior = [b[1] for b in ev[:k] if b[0] == "build"]
                if not prior or not prior[-1]:
                    return fail("unbuilt", "uploaded, but the build %s" % ("failed" if prior else "did not run"))
                if not creds:
                    return fail("credentials", "uploaded without a token or .pypirc")
                want = TOKENS[var] if var in op.get("tokens", []) else None
                if e[5] != want or want and e[4] != "__token__":
                    return fail("token", "uploaded as %r with %r" % (e[4], e[5]))
                if ("test.pypi.org" in (e[3] or "")) != test or e[3] and not test:
                    return fail("where", "uploaded to %s with %s" % (e[3], args))
                made = {p for p in e[6] if p.rsplit("/", 1)[1].startswith("%s-%s" % (self.name, self.version))
                        and p.startswith(ROOT + "/dist/") and e[6][p].startswith(b"built")}
                if not made <= set(e[2]):
                    return fail("upload", "uploaded %s without %s" % (e[2], sorted(made)))
                if any(not p.startswith(ROOT + "/dist/") for p in e[2]):
                    return fail("upload", "uploaded %s" % e[2])
                env.probe("uploaded" if e[1] else "upload_failed")
        done = any(e[1] for e in uploads)
        if sum(e[1] for e in uploads) > 1:
            return fail("twice", "uploaded %d times" % len(uploads))
        if r == "rc" and rc in (0, None) and not dry and not done:
            return fail("success", "release %s reports success, nothing was uploaded: %r" % (args, [e[:2] for e in ev]))
        if done and r != "crash" and not (r == "rc" and rc in (0, None)) and not faulty:
            return fail("failure", "uploaded, but the release ended with %r" % (rc,))
        if not faulty and r != "crash" and self.name and not refused:
            if dry:
                if r != "rc" or rc not in (0, None):
                    return fail("dry", "a dry run ended with %r" % (rc,))
            elif op["build"][:1] == [True] and creds and op.get("upload", True) and not done:
                return fail("nothing", "release %s uploaded nothing and ended with %r" % (args, rc))
        if builds and not builds[-1][1]:
            env.probe("build_failed")
        if dry:
            env.probe("dry_run")
        if refused:
            env.probe("refused")
        if agreed:
            env.probe("agreed")

    def others_go(self, r, old, after, faulty):
        """One file that cannot be deleted does not keep the others."""
        fs = self.env.fs
        if faulty and r == "rc":
            hit = set(fs.fault_paths)
            if any(not str(p).startswith(ROOT + "/dist/") for p in hit):
                return
            left = [p for p in old if p in after and p not in hit]
            if left:
                self.env.fail("left", "%s was left after %s could not be deleted" % (left[0], sorted(hit)))
            else:
                self.env.probe("delete_failed")

    def run(self):
        env = self.env
        env.fs.makedirs_sim(HOME)
        env.fs.makedirs_sim(ROOT)
        if self.scn["dist"]:
            env.fs.makedirs_sim(ROOT + "/dist")
        self.mod = {n: self.load(n) for n in ("clean_dist", "release")}
        for i, op in enumerate(self.scn["ops"]):
            env.step(i, op["op"])
            env.fs.fault_paths.clear()
            r = self.run_op(i, op)
            if r == "crash":
                power = bool((env.fs.crash_info or {}).get("power"))
                env.probe("reboot_power" if power else "reboot_kill")
                env.fs.reboot()
                # what was not old is still there
                env.fs.clear_errors()
            if env.findings:
                return
            env.fs.clear_errors()


class C31(Prop):
    id = "C31"
    rule = ("seeded sequences of clean-up and release runs over dist/ directories with files of this and other versions, "
            "other packages and other kinds, with unlink, listing and read errors, kills at random file-system calls, "
            "builds, installs and uploads that fail, every combination of flags, credentials and answers; non-trivial: a "
            "fault fired, a child process failed, or a file was to be deleted")
    assumptions = ["a version that begins with the current one (0.1.10 beside 0.1.1) may be kept or removed; the child "
                   "processes (build, pip, twine) are stubs; the process starts in the project's root"]
    real = ["scripts/clean_dist.py", "scripts/release.py", "pathlib, subprocess (above Popen), argparse"]
    stubs = ["file system (in-memory)", "child processes: python -m build / pip / twine", "terminal input",
             "process environment and working directory"]
    quick = (30000, 25)
    thorough = (1000000, 600)

    def gen(self, rng, tier, seed):
        proj = [{"where": rng.choice(["py", "py", "py2", "cfg", "cfg", "none"]) if rng.random() < 0.5 else "py",
                 "version": rng.choice(VERSIONS), "both": rng.random() < 0.4} for _ in range(2)]
        ops = []
        for _ in range(rng.choice([1, 1, 2, 3, 4])):
            put = []
            for _ in range(rng.choice([0, 1, 2, 3, 6])):
                if rng.random() < 0.7:
                    n = rng.choice(FORMS) % ("valori", rng.choice(VERSIONS))
                else:
                    n = rng.choice(OTHERS)
                if rng.random() < 0.05:
                    n += "/"
                put.append([n, "c%d" % len(put)])
            op = {"op": rng.choice(["clean", "release", "release"]), "proj": rng.randrange(2), "put": put}
            if op["op"] == "release":
                op["args"] = [a for a, p in (("--yes", 0.5), ("-y", 0.05), ("--dry-run", 0.2), ("--test", 0.3),
                                             ("--skip-clean", 0.15)) if rng.random() < p]
                op["answer"] = rng.choice(["y", "yes", "Y", " yes ", "n", "", "no", "maybe", "yess", None, "^C"])
                op["build"] = rng.choice([[True], [True], [True], [False, True], [False, False], [False]])
                op["pip"] = rng.random() < 0.8
                op["partial"] = rng.random() < 0.5
                op["upload"] = rng.random() < 0.8
                op["tokens"] = [t for t in sorted(TOKENS) if rng.random() < 0.5]
                op["rc"] = [p for p in (HOME + "/.pypirc", ROOT + "/.pypirc") if rng.random() < 0.2]
            ops.append(op)
        scn = {"seed": seed, "project": proj, "ops": ops, "faults": [], "dist": rng.random() < 0.9}
        r = rng.random()
        if r < 0.7:
            if r < 0.45:
                want = [error_fault(rng) for _ in range(rng.choice([1, 1, 2]))]
            else:
                want = [crash_fault(rng)]
            dry = self.run(scn, kinds=True)
            scn["faults"] = place_faults(rng, dry.counts, dry.kinds, want)
        return scn

    def run(self, scn, keep_log=False, kinds=False):
        env = Env(scn, keep_log)
        env.fs.record_kinds = kinds
        with env:
            w = World(env, scn)
            w.install()
            try:
                w.run()
            finally:
                w.restore()
        return Outcome(env)

    def shrink_values(self, scn):
        for i, op in enumerate(scn["ops"]):
            for j in range(len(op["put"])):
                c = copy.deepcopy(scn)
                del c["ops"][i]["put"][j]
                yield c
            for j in range(len(op.get("args", []))):
                c = copy.deepcopy(scn)
                del c["ops"][i]["args"][j]
                yield c

    def nontrivial(self, scn, out):
        return bool(out.fired) or any(o["put"] for o in scn["ops"]) or any(
            not o.get("upload", True) or False in o.get("build", []) for o in scn["ops"])


PROPS = [C31()]

"""Search over seeds, minimisation, replay files, evidence."""
import gc
import hashlib
import json
import mmap
import os
import pickle
import random
import select
import signal
import struct
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPLAYS = os.path.join(HERE, "replays")
KNOWN = os.path.join(HERE, "known_findings.json")
PY = sys.executable


def real_time():
    from .boot import REAL
    return REAL["monotonic"]()


def seed_of(master, prop, i):
    h = hashlib.sha256(("%s/%s/%s" % (master, prop, i)).encode()).digest()
    return int.from_bytes(h[:7], "big")


def load_known(prop):
    try:
        d = json.load(open(KNOWN))
    except FileNotFoundError:
        return []
    return [k for k in d.get("findings", []) if k["property"] == prop]


class Hang(BaseException):
    pass


def _alarm(sig, frm):
    raise Hang()


def guarded_run(prop, scn, keep_log=False, limit=90):
    """Run a scenario with a wall-clock guard against code under test that never returns."""
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    try:
        return prop.run(scn, keep_log)
    finally:
        signal.alarm(0)


def guarded_gen(prop, rng, tier, seed, running, limit=180):
    """Generate a scenario under the same guard; running: the scenario of an unfinished trial run."""
    real = prop.run

    def run(scn, *a, **k):
        running[:] = [scn]
        out = real(scn, *a, **k)
        running[:] = []
        return out
    prop.run = run
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    try:
        return prop.gen(rng, tier, seed)
    finally:
        signal.alarm(0)
        prop.__dict__.pop("run", None)


def from_code_under_test(e):
    """Did an exception that escaped the harness originate in the code under test?"""
    from .boot import REPO
    pre = os.path.join(REPO, "src") + os.sep
    tb = e.__traceback__
    while tb is not None:
        if tb.tb_frame.f_code.co_filename.startswith(pre):
            return True
        tb = tb.tb_next
    return False


def escaped(e):
    """Signature for an exception that escaped a run, None for a fault of the harness itself.
    "malformed": the code under test gave an answer the oracle could not even interpret."""
    if from_code_under_test(e):
        return "unhandled"
    if not isinstance(e, Exception) or isinstance(e, (MemoryError, OSError, ImportError)):
        return None
    pre = os.path.join(os.path.dirname(os.path.abspath(__file__)), "props") + os.sep
    tb = e.__traceback__
    while tb is not None:
        if tb.tb_frame.f_code.co_filename.startswith(pre):
            return "malformed"
        tb = tb.tb_next
    return None


def unhandled(e):
    return [{"sig": escaped(e), "msg": "".join(traceback.format_exception(e))[-1500:], "op": -1}]


def worker(prop, tier, master, wid, nworkers, nruns, deadline, known_sigs, wfd, flags):
    """flags: shared array, per worker the index of the run that violated (0: none, else index + 1);
    no worker goes on beyond the lowest such run."""
    def stop():
        low = [x for x in struct.unpack("%dQ" % nworkers, flags[:8 * nworkers]) if x]
        return low and i >= min(low)

    res = {"runs": 0, "fired": {}, "probes": {}, "digests": set(), "states": set(), "sim_time": 0.0,
           "fs_calls": 0, "switches": 0, "known": {}, "viol": None, "errors": [], "ops": 0,
           "nontrivial": 0, "samples": [], "next": 0}
    i = wid
    cnt = 0
    running = []        # the scenario of a trial run made by the generator that raised or hangs
    try:
        while i < nruns and real_time() < deadline and not stop():
            seed = seed_of(master, prop.id, i)
            scn = None
            running[:] = []
            try:
                scn = guarded_gen(prop, random.Random(seed), tier, seed, running)
                out = guarded_run(prop, scn)
            except Hang:
                scn = scn or (running and running[0])
                if not scn:
                    res["errors"].append((i, seed, "the generator did not finish"))
                    break
                res["viol"] = (i, seed, scn, [{"sig": "hang", "msg": "run did not finish", "op": -1}])
                break
            except BaseException as e:
                scn = scn or (running[0] if running else None)
                if scn is not None and escaped(e):
                    res["viol"] = (i, seed, scn, unhandled(e))
                    break
                res["errors"].append((i, seed, traceback.format_exc()))
                if len(res["errors"]) > 3:
                    break
                i += nworkers
                continue
            res["runs"] += 1
            res["ops"] += len(scn.get("ops", []))
            for k, v in out.fired.items():
                res["fired"][k] = res["fired"].get(k, 0) + v
            for k, v in out.probes.items():
                res["probes"][k] = res["probes"].get(k, 0) + v
            dg = out.digest
            if dg not in res["digests"]:
                res["digests"].add(dg)
                if prop.nontrivial(scn, out):
                    res["nontrivial"] += 1
            if len(res["states"]) < 200000:
                res["states"] |= out.states
            res["sim_time"] += out.sim_time
            res["fs_calls"] += out.fs_calls
            res["switches"] += out.switches
            if len(res["samples"]) < 1 and prop.nontrivial(scn, out) and len(json.dumps(scn)) < 3000:
                res["samples"].append({"seed": seed, "digest": dg, "scenario": scn})
            bad = []
            for f in out.findings:
                if f["sig"] in known_sigs:
                    k = res["known"].setdefault(f["sig"], [0, seed, f["msg"]])
                    k[0] += 1
                else:
                    bad.append(f)
            if bad:
                if out.decisions is not None:
                    scn = prop.with_decisions(scn, out.decisions)
                res["viol"] = (i, seed, scn, bad)
                break
            cnt += 1
            if cnt % 25 == 0:
                gc.collect()
            i += nworkers
        res["next"] = i
        if res["viol"]:
            flags[8 * wid:8 * wid + 8] = struct.pack("Q", i + 1)
    except BaseException:
        res["errors"].append((i, 0, traceback.format_exc()))
    data = pickle.dumps(res)
    with os.fdopen(wfd, "wb") as f:
        f.write(data)
    os._exit(0)


def fork_workers(nw, fn):
    """Run fn(wid, wfd) in forked children; return their pickled results (None if one died)."""
    kids = {}
    for w in range(nw):
        r, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            for o in kids:
                os.close(o)
            try:
                fn(w, wr)
            except BaseException:
                traceback.print_exc(file=sys.__stderr__)
                sys.__stderr__.flush()
            finally:
                os._exit(1)
        os.close(wr)
        kids[r] = (w, pid, [])
    out = [None] * nw
    open_fds = set(kids)
    while open_fds:
        rd, _, _ = select.select(list(open_fds), [], [])
        for r in rd:
            b = os.read(r, 1 << 20)
            if b:
                kids[r][2].append(b)
            else:
                os.close(r)
                open_fds.discard(r)
    for r, (w, pid, bufs) in kids.items():
        st = os.waitpid(pid, 0)[1]
        if not bufs:
            print("worker %d ended with status %d" % (w, st), file=sys.stderr)
        d = b"".join(bufs)
        out[w] = pickle.loads(d) if d else None
    return out


def sub_run(prop, scn, limit=90):
    """Run one scenario in a forked child: (findings, digest, decisions) or an error string."""
    def child(w, wfd):
        try:
            out = guarded_run(prop, scn, limit=limit)
            r = ("ok", out.findings, out.digest, out.decisions)
        except Hang:
            r = ("ok", [{"sig": "hang", "msg": "run did not finish", "op": -1}], "hang", None)
        except BaseException as e:
            if escaped(e):
                r = ("ok", unhandled(e), "unhandled", None)
            else:
                r = ("error", traceback.format_exc(), None, None)
        with os.fdopen(wfd, "wb") as f:
            f.write(pickle.dumps(r))
        os._exit(0)
    return fork_workers(1, child)[0]


def minimise(prop, scn, sig, known_sigs, deadline):
    """Greedy shrink: keep a smaller scenario as long as the same violation class remains.
    A smaller concurrent scenario is tried under its recorded schedule and some fresh ones."""
    if sig == "hang":
        return scn, 0

    def once(s):
        try:
            out = guarded_run(prop, s, limit=30)
        except BaseException as e:
            return s if sig == escaped(e) else None
        if any(f["sig"] == sig for f in out.findings):
            return prop.with_decisions(s, out.decisions) if out.decisions is not None else s
        return None

    def fails(s, structural):
        r = once(s)
        if r is None and structural and s.get("sched"):
            base = {k: v for k, v in s["sched"].items() if k != "replay"}
            for salt in range(1, 25):
                if real_time() > deadline:
                    break
                r = once(dict(s, sched=dict(base, salt=salt)))
                if r is not None:
                    break
        return r

    steps = 0
    changed = True
    while changed and real_time() < deadline:
        changed = False
        for cand in prop.shrink(scn):
            if real_time() > deadline:
                break
            steps += 1
            r = fails(cand, len(cand.get("ops", ())) < len(scn.get("ops", ())))
            if r is not None:
                scn = r
                changed = True
                break
    return scn, steps


def write_replay(prop, scn, findings, digest, master, index):
    os.makedirs(REPLAYS, exist_ok=True)
    path = os.path.join(REPLAYS, "%s-%s.json" % (prop.id, scn["seed"]))
    with open(path, "w") as f:
        json.dump({"property": prop.id, "master_seed": master, "run": index, "seed": scn["seed"],
                   "findings": findings, "digest": digest, "scenario": scn,
                   "how": "%s %s/run.py replay %s" % (PY, HERE, path)}, f, indent=1)
    return path


def check(prop, tier, master):
    t0 = real_time()
    nw = int(os.environ.get("VERIF_WORKERS", str(min(8, os.cpu_count() or 1))))
    nruns, cap = prop.budget(tier)
    if os.environ.get("VERIF_RUNS"):
        nruns = int(os.environ["VERIF_RUNS"])
    if os.environ.get("VERIF_CAP"):
        cap = float(os.environ["VERIF_CAP"])
    known = load_known(prop.id)
    known_sigs = {k["signature"] for k in known}
    deadline = t0 + cap
    print("%s: tier=%s seed=%d runs<=%d cap=%.0fs workers=%d" % (prop.id, tier, master, nruns, cap, nw), flush=True)
    exit_code = 0
    # directed scenarios: one per known finding, so that it is shown on every run
    known_seen = {}
    directed_bad = None
    for k in known:
        scn = k.get("scenario")
        if not scn:
            continue
        r = sub_run(prop, scn)
        if r and r[0] == "ok":
            for f in r[1]:
                if f["sig"] in known_sigs:
                    known_seen[f["sig"]] = f["msg"]
                elif directed_bad is None:
                    directed_bad = (-1, scn["seed"], scn, [f])

    flags = mmap.mmap(-1, max(4096, 8 * nw))

    def child(w, wfd):
        worker(prop, tier, master, w, nw, nruns, deadline, known_sigs, wfd, flags)

    parts = fork_workers(nw, child)
    tot = {"runs": 0, "fired": {}, "probes": {}, "digests": set(), "states": set(), "sim_time": 0.0,
           "fs_calls": 0, "switches": 0, "ops": 0, "nontrivial": 0, "samples": []}
    viols, errors = [], []
    if directed_bad:
        viols.append(directed_bad)
    for p in parts:
        if p is None:
            errors.append((-1, 0, "worker died"))
            continue
        for k in ("runs", "sim_time", "fs_calls", "switches", "ops", "nontrivial"):
            tot[k] += p[k]
        for k in ("fired", "probes"):
            for a, b in p[k].items():
                tot[k][a] = tot[k].get(a, 0) + b
        tot["digests"] |= p["digests"]
        tot["states"] |= p["states"]
        tot["samples"] += p["samples"]
        for s, (n, seed, msg) in p["known"].items():
            known_seen.setdefault(s, msg)
        if p["viol"]:
            viols.append(p["viol"])
        errors += p["errors"]
    search_s = real_time() - t0
    for k in known:
        if k["signature"] in known_seen:
            print("KNOWN-FINDING: property=%s %s [%s]" % (prop.id, k["title"], known_seen[k["signature"]][:160]))
    replay = None
    if viols:
        exit_code = 1
        viols.sort(key=lambda v: (v[0] == -1, v[0]))
        idx, seed, scn, bad = viols[0]
        sig = bad[0]["sig"]
        small, steps = minimise(prop, scn, sig, known_sigs, real_time() + float(
            os.environ.get("VERIF_SHRINK", "60" if tier == "quick" else "240")))
        r = sub_run(prop, small)
        findings, digest = (r[1], r[2]) if r and r[0] == "ok" else (bad, None)
        replay = write_replay(prop, small, findings, digest, master, idx)
        # reproduce in a fresh process
        p = subprocess.run([PY, os.path.join(HERE, "run.py"), "replay", replay], capture_output=True, text=True,
                           timeout=300)
        print("violation: seed=%d run=%d sig=%s: %s" % (seed, idx, sig, bad[0]["msg"]))
        print("minimised in %d trials to %d operations, %d faults; fresh-process replay: %s" % (
            steps, len(small.get("ops", [])), len(small.get("faults", [])),
            "reproduced, same event digest" if p.returncode == 1 and "digest equal" in p.stdout
            else "rc=%d %s" % (p.returncode, p.stdout[-300:])))
        print("VIOLATION property=%s replay=%s" % (prop.id, replay), flush=True)
    if errors:
        for e in errors[:2]:
            print("HARNESS ERROR run=%s seed=%s\n%s" % e, file=sys.stderr)
        if exit_code == 0:
            exit_code = 3
    wall = real_time() - t0
    ev = {
        "property": prop.id, "tier": tier, "seed": master, "level": "exploration",
        "wall_s": round(wall, 2), "violations": len(viols),
        "assumptions": prop.assumptions,
        "coverage": {
            "evaluations": tot["runs"],
            "distinct_nontrivial": tot["nontrivial"],
            "rule": prop.rule,
            "samples": tot["samples"][:2] or ["none"],
            "simulated_runs_per_hour": int(tot["runs"] / max(search_s, 1e-6) * 3600),
            "seeds_used": tot["runs"],
            "operations_executed": tot["ops"],
            "simulated_seconds": round(tot["sim_time"], 3),
            "fault_injections_fired": tot["fired"],
            "file_system_calls": tot["fs_calls"],
            "thread_switches": tot["switches"],
            "distinct_executions_by_event_digest": len(tot["digests"]),
            "distinct_preemption_sites": len(tot["states"]),
            "rare_condition_probes": tot["probes"],
            "real_components": prop.real,
            "stubbed_components": prop.stubs,
            "known_findings_seen": sorted(known_seen),
            "workers": nw,
        },
    }
    if replay:
        ev["coverage"]["replay"] = replay
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop.id + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s: %d runs, %d distinct, %d non-trivial, %.1f sim s, faults %s, probes %s, %.1fs wall -> exit %d" % (
        prop.id, tot["runs"], len(tot["digests"]), tot["nontrivial"], tot["sim_time"], tot["fired"],
        tot["probes"], wall, exit_code), flush=True)
    return exit_code


def replay(props, path):
    d = json.load(open(path))
    prop = props[d["property"]]
    r = sub_run(prop, d["scenario"])
    if not r or r[0] != "ok":
        print("replay error:", r[1] if r else "child died")
        return 3
    known_sigs = {k["signature"] for k in load_known(prop.id)}
    bad = [f for f in r[1] if f["sig"] not in known_sigs]
    for f in r[1]:
        print("finding: op=%s %s: %s" % (f["op"], f["sig"], f["msg"]))
    print("digest", r[2], "digest equal" if r[2] == d.get("digest") else "digest DIFFERENT from %s" % d.get("digest"))
    if bad:
        print("VIOLATION property=%s replay=%s" % (prop.id, path))
        return 1
    return 0


def determinism(prop, master, n, out):
    """Print one line per seed: digest of the event log (for diffing across processes)."""
    for i in range(n):
        seed = seed_of(master, prop.id, i)
        scn = prop.gen(random.Random(seed), "quick", seed)
        o = guarded_run(prop, scn)
        out.write("%s %d %d %s\n" % (prop.id, i, seed, o.digest))
        if i % 25 == 0:
            gc.collect()

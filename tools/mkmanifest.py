"""Writes /verif/MANIFEST.json from the list of claimed checks."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
COMMON = ("Seeded search, not proof: the property held in every simulated run executed. Real valori code runs in one "
          "process under a simulator that decides %s. Trusted: the simulator's models and the reference model.")
T = "deterministic simulation with fault injection: "
CLAIMED = {
    "C01": (T + "seeded histories against a map model", "file system behaviour, listing order and short transfers"),
    "C02": (T + "kill and power-loss injection at every file-system step, map model with in-doubt sets",
            "the file system, crash points and what survives them"),
    "C03": (T + "file-system error injection, map model with in-doubt sets", "every file-system error"),
    "C04": (T + "error injection and tier comparison", "file-system errors, crashes and thread schedules"),
    "C05": (T + "seeded thread schedules, per-id linearizability of the recorded history",
            "every thread switch and file-system error"),
    "C06": (T + "seeded thread schedules, whole-database linearizability of the recorded history",
            "every thread switch"),
    "C07": (T + "seeded histories with failing storage and rejected calls, exact distances from a map model",
            "storage failures, restarts and randomness"),
    "C08": (T + "seeded histories with failing storage and rejected calls, brute-force nearest neighbours",
            "storage failures, restarts and randomness"),
    "C09": (T + "kill and power-loss injection into a whole client, map model with in-doubt sets after restart",
            "the file system, crash points and what survives them"),
    "C10": (T + "seeded histories with failing storage, dead and superseded vectors tracked in a map model",
            "storage failures, restarts and randomness"),
    "C11": (T + "kill, power-loss and error injection, map model with in-doubt sets",
            "the file system, crash points and what survives them"),
    "C12": (T + "kill, power-loss, error and clock-jump injection, map model with in-doubt sets",
            "the file system, crash points and what survives them, and the wall clock"),
    "C13": (T + "kill, power-loss, error and clock-jump injection, log records matched with acknowledged saves",
            "the file system, crash points and what survives them, and the wall clock"),
    "C14": (T + "failing and slow client calls under the batch manager, item-by-item accounting model",
            "which client calls fail and when, file-system errors and randomness"),
    "C15": (T + "seeded schedules of the worker pool with failing and slow client calls, compared with the sequential "
            "result", "every thread switch, completion order, client failure and delay"),
    "C16": (T + "failing reads and corrupt documents in a batch, compared with each document processed alone",
            "file-system errors, directory order and thread schedules"),
    "C17": (T + "failing and slow model calls under thread schedules, compared with the model's answer",
            "model failures and delays, and every thread switch"),
    "C18": (T + "rejected calls and storage failures injected into client histories, map model",
            "storage failures, file-system errors and randomness"),
    "C19": (T + "seeded start/stop/read schedules in simulated time with failing and slow samplers, recorded samples "
            "checked against windows of certainty", "time, sampler readings and every thread switch"),
    "C21": (T + "kill, power-loss and error injection, map model with in-doubt sets",
            "the file system, crash points and what survives them"),
    "C22": (T + "life-cycle histories with I/O errors during start-up and close, map model",
            "every file-system error"),
    "C20": (T + "seeded histories with a caller that scribbles over everything it owns, map model",
            "storage failures, restarts and randomness"),
    "C25": (T + "failing allocations and concurrent readers in quantizer histories, compared with a quantizer trained "
            "once", "which numeric call fails and every thread switch"),
    "C26": (T + "failing functions, readings and writes and thread schedules under the instrumentation, compared with the "
            "bare call and bracketing times", "time, psutil readings, file-system errors and every thread switch"),
    "C27": (T + "failing reads, models and storage below the ingestion helpers, compared with each item alone",
            "file-system errors, model failures and randomness"),
    "C28": (T + "kills, file errors and thread schedules under log set-ups and log calls, compared with the list of records "
            "logged", "file-system calls, kills and every thread switch"),
    "C29": (T + "careless callers, failing creations, kills and thread schedules over presets and factories, compared with "
            "the presets as written and a record list per database", "file-system errors, kills and every thread switch"),
    "C30": (T + "kills, power losses, I/O errors and failing builds in Annoy save/load/build histories, compared with the same "
            "vectors in a new index in memory", "file-system calls (annoy's own included), crashes and build failures"),
    "C31": (T + "failing deletes, builds and uploads and kills in clean-up and release histories, judged by rules over dist/ and "
            "the commands run", "file-system calls, child processes, the terminal and the environment"),
}
NA = {
    "C23": "Quantizers are pure in-memory numeric functions of their input (no I/O, time, concurrency or multi-party "
           "behaviour); there is nothing for a simulator to schedule or fail.",
    "C24": "Similarity, validation, chunking and cleaning are pure functions of their arguments; no schedule, fault "
           "or crash can influence them.",
}


def main():
    ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
    checks, na = [], []
    for i in ids:
        if i in CLAIMED:
            tech, seam = CLAIMED[i]
            checks.append({"property": i, "quick_cmd": "%s run.py check %s --tier quick" % (PY, i),
                           "thorough_cmd": "%s run.py check %s --tier thorough" % (PY, i),
                           "technique": tech, "level": "exploration", "level_note": COMMON % seam})
        else:
            na.append({"property": i, "reason": NA.get(i, "Check not built yet.")})
    m = {"version": 1, "setup_cmd": "%s run.py list" % PY, "checks": checks, "not_applicable": na,
         "notes": "No hooks in /repo are needed: every seam is installed from /verif by patching the standard library "
                  "before valori is imported. See DESIGN.md."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()

#!/opt/venv/bin/python
"""check <property> [--tier quick|thorough] | replay <file> | determinism <property> <n> | list"""
import os
import sys

# the interpreter state a run depends on is pinned before anything is imported
WANT = {"PYTHONHASHSEED": os.environ.get("VERIF_HASHSEED", "0"), "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1",
        "MKL_NUM_THREADS": "1", "PYTHONDONTWRITEBYTECODE": "1"}
if any(os.environ.get(k) != v for k, v in WANT.items()):
    env = dict(os.environ, **WANT)
    os.execve(sys.executable, [sys.executable] + sys.argv, env)

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)


def main(argv):
    from vsim import boot
    boot.install()
    props = boot.load()
    from vsim import runner
    if argv and argv[0] == "list":
        for p in props.values():
            print(p.id, p.budget("quick"), p.budget("thorough"))
        return 0
    if len(argv) >= 2 and argv[0] == "check":
        tier = os.environ.get("VERIF_TIER", "quick")
        if "--tier" in argv:
            tier = argv[argv.index("--tier") + 1]
        return runner.check(props[argv[1]], tier, int(os.environ.get("VERIF_SEED", "1")))
    if len(argv) == 2 and argv[0] == "replay":
        return runner.replay(props, argv[1])
    if len(argv) >= 2 and argv[0] == "determinism":
        runner.determinism(props[argv[1]], int(os.environ.get("VERIF_SEED", "1")),
                           int(argv[2]) if len(argv) > 2 else 200, sys.stdout)
        return 0
    print(__doc__)
    return 2


if __name__ == "__main__":
    rc = 3
    try:
        rc = main(sys.argv[1:])
    except SystemExit:
        raise
    except BaseException:
        import traceback
        traceback.print_exc()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)

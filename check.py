#!/usr/bin/env python3
"""check.py <PROPERTY> [--tier quick|thorough] [--seed N] [--runs N] [--wall S] [--workers N] [--replay FILE]
              [--determinism OUT --runs N]
Decides one property by deterministic simulation.  Exit 0: held on everything explored; 1: VIOLATION; 2: error."""
import os
import sys

PY = "/opt/venv/bin/python"
ENV = dict(PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1",
           MKL_NUM_THREADS="1", MPLBACKEND="Agg", PYTHONUTF8="1", PYTHONSAFEPATH="1", LC_ALL="C.UTF-8", TZ="UTC")


def main():
    if os.environ.get("VSIM_CHILD") != "1":
        e = dict(os.environ)
        for k, v in ENV.items():
            if k == "PYTHONHASHSEED" and "VSIM_HASHSEED" in e:
                v = e["VSIM_HASHSEED"]
            e[k] = v
        for k in ("PYTHONPATH", "PYTHONSTARTUP", "PYTHONWARNINGS"):
            e.pop(k, None)
        e["VSIM_CHILD"] = "1"
        py = PY if os.path.exists(PY) else sys.executable
        os.execve(py, [py, os.path.abspath(__file__)] + sys.argv[1:], e)
    os.environ.pop("VSIM_CHILD", None)
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--runs", type=int)
    ap.add_argument("--wall", type=float)
    ap.add_argument("--workers", type=int, default=8)
    ap.add_argument("--replay")
    ap.add_argument("--determinism")
    a = ap.parse_args()
    here = os.path.dirname(os.path.abspath(__file__))
    sys.path.insert(0, here)
    sys.dont_write_bytecode = True
    sys.pycache_prefix = "/nonexistent/vsim-no-pyc"      # never trust stale byte code of the tree under test
    from sim import boot
    prop = boot.boot(a.prop)
    from sim import runner
    import fcntl
    lock = open("/dev/shm/vsim-%s.lock" % a.prop, "w")
    if os.environ.get("VSIM_NOLOCK") != "1" and not a.replay:
        fcntl.flock(lock, fcntl.LOCK_EX)
    if a.replay:
        return runner.main_replay(prop, a.replay)
    if a.determinism:
        runner.main_determinism(prop, a.tier, a.seed, a.runs or 200, a.determinism, a.workers)
        return 0
    return runner.main_check(prop, a.tier, a.seed, a.runs, a.wall, a.workers)


if __name__ == "__main__":
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:
        import traceback
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)

"""Seeded search over simulated runs: worker pool, fresh-process references, minimisation, replay files, evidence."""
import ctypes
import gc
import hashlib
import json
import os
import pickle
import random
import re
import select
import shutil
import signal
import subprocess
import sys
import time
import traceback

from . import refserver, seams, world
from .seams import R
from .world import Hang

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
REPLAYS = os.path.join(HERE, "replays")
RUN_WALL = 120.0
REAL_HANG = 'does-not-end'


def now():
    return R.monotonic()


class ChildDied(Exception):
    pass


_libc = ctypes.CDLL(None)


def die_with_parent():
    _libc.prctl(1, signal.SIGKILL)       # PR_SET_PDEATHSIG


def in_child(fn, wall=RUN_WALL):
    """Run fn() in a forked child; returns its (pickled) value, raises ChildDied when it dies or hangs."""
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            R.os_close(r)
            die_with_parent()
            os.setpgid(0, 0)
            try:
                out = ("ok", fn())
            except BaseException:
                out = ("exc", traceback.format_exc())
            b = pickle.dumps(out)
            mv = memoryview(b)
            while mv:
                n = R.os_write(w, mv)
                mv = mv[n:]
        except BaseException:
            code = 4
        os._exit(code)
    R.os_close(w)
    buf = bytearray()
    end = now() + wall
    hung = False
    while True:
        left = end - now()
        if left <= 0:
            hung = True
            break
        rl, _, _ = select.select([r], [], [], min(left, 5.0))
        if rl:
            d = R.os_read(r, 1 << 20)
            if not d:
                break
            buf += d
    R.os_close(r)
    if hung:
        try:
            os.killpg(pid, signal.SIGKILL)
        except OSError:
            pass
        try:
            os.kill(pid, signal.SIGKILL)
        except OSError:
            pass
    _, st = os.waitpid(pid, 0)
    try:
        os.killpg(pid, signal.SIGKILL)     # anything the run left behind
    except OSError:
        pass
    if hung:
        raise ChildDied("hang: no answer in %.0f s" % wall)
    if not buf:
        raise ChildDied("child died, status %d" % st)
    kind, val = pickle.loads(bytes(buf))
    if kind == "exc":
        raise ChildDied(val)
    return val


# --------------------------------------------------------------------------------------------------

def base_dir(prop):
    return "/dev/shm/vsim-%s" % prop.ID


def scratch(prop, slot):
    return "%s/%02d" % (base_dir(prop), slot)


_refs = {}


def get_refs(prop, sc):
    """References for a scenario: prop.refs(sc) -> {key: callable}; each runs in its own pristine child."""
    if not hasattr(prop, "refs"):
        return {}
    fns = prop.refs(sc)
    if len(_refs) > 4000:
        _refs.clear()
    need = [k for k in fns if k not in _refs]
    if need and SERVER["path"]:
        for k, (kind, val) in refserver.ask(SERVER["path"], prop.ROOT, sc, need).items():
            if kind == "exc":
                raise ChildDied(val)
            _refs[k] = val
    elif need:
        for k in need:
            _refs[k] = in_child(fns[k])
    return {k: _refs[k] for k in fns}


SERVER = dict(path=None, proc=None)


def set_up(prop):
    """What a property needs before the first run: its own set-up, and the interpreter that computes its references."""
    shutil.rmtree(base_dir(prop), ignore_errors=True)
    os.makedirs(base_dir(prop))
    if getattr(prop, "REF_SERVER", False):
        SERVER["path"] = "/dev/shm/vsim-ref-%d.sock" % os.getpid()
        SERVER["proc"] = refserver.start(prop.ID, SERVER["path"])
    if hasattr(prop, "setup"):
        prop.setup()


def tear_down(prop):
    if SERVER["proc"] is not None:
        refserver.stop(SERVER["proc"])
        if os.path.exists(SERVER["path"]):
            os.unlink(SERVER["path"])
        SERVER.update(path=None, proc=None)
    if hasattr(prop, "teardown"):
        prop.teardown()
    shutil.rmtree(base_dir(prop), ignore_errors=True)


def run_one(prop, sc, slot, explicit=None):
    """One simulated run in a fresh child of this (pristine) process."""
    root = scratch(prop, slot)
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs(root)
    prop.ROOT = root
    refs = get_refs(prop, sc)
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs(os.path.join(root, "tmp"))

    def go():
        gc.disable()
        os.chdir(root)
        devnull = R.os_open("/dev/null", os.O_WRONLY)
        os.dup2(devnull, 1)
        os.dup2(devnull, 2)
        try:
            return prop.execute(sc, refs, root, explicit)
        except Hang as e:
            w = world.LAST
            return dict(viol={"class": "hang", "detail": str(e)}, record=w.decider.record(), hash=loghash(w.log), faults=w.decider.fired,
                        steps=w.steps, trace=[str(x) for x in w.log[-100:]])
    try:
        return in_child(go)
    except ChildDied as e:
        if not str(e).startswith("hang:"):
            raise
        return dict(viol={"class": REAL_HANG, "detail": str(e)}, record=explicit, hash=REAL_HANG)
    finally:
        shutil.rmtree(root, ignore_errors=True)


def loghash(log):
    """Digest of the recorded history.  Names derived by hashing (cache entries are named by a digest of their arguments,
    which include the scratch directory) are numbered in order of first appearance."""
    names = {}
    txt = re.sub(r"[0-9a-f]{32,}", lambda m: names.setdefault(m.group(), "#%d" % len(names)),
                 json.dumps(log, sort_keys=True, default=str))
    txt = re.sub(r"/dev/shm/vsim-[^/\s]+/[0-9]+", "/SCRATCH", txt)
    return hashlib.sha1(txt.encode()).hexdigest()[:16]


def seed_scenario(prop, seed, tier):
    rng = random.Random("%s/%d" % (prop.ID, seed))
    sc = prop.generate(rng, tier)
    sc["seed"] = seed
    return sc


def worker(prop, k, nworkers, seeds, tier, wfd, deadline):
    try:
        for i, seed in enumerate(seeds):
            if i % nworkers != k:
                continue
            if now() > deadline:
                break
            sc = seed_scenario(prop, seed, tier)
            try:
                res = run_one(prop, sc, k)
            except ChildDied:
                try:                                     # once more: the machine may have been short of memory
                    res = run_one(prop, sc, k)
                    res["retried"] = 1
                except ChildDied as e:
                    res = dict(harness=str(e)[-3000:])
            res["seed"] = seed
            res["slot"] = k
            if res.get("viol"):
                res["sc"] = sc
            b = pickle.dumps(res)
            R.os_write(wfd, len(b).to_bytes(4, "big"))
            mv = memoryview(b)
            while mv:
                n = R.os_write(wfd, mv)
                mv = mv[n:]
    except BaseException:
        sys.stderr.write(traceback.format_exc())
        os._exit(5)
    os._exit(0)


def explore(prop, seeds, tier, deadline, nworkers=8, on_result=None, stop_on_violation=True):
    """Runs all seeds on nworkers forked workers; yields nothing, calls on_result(res).  Returns list of violations."""
    fds = {}
    pids = {}
    for k in range(nworkers):
        r, w = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            R.os_close(r)
            for f in fds:
                R.os_close(f)
            die_with_parent()
            os.setpgid(0, 0)
            worker(prop, k, nworkers, seeds, tier, w, deadline)
        R.os_close(w)
        fds[r] = bytearray()
        pids[r] = pid
    viols = []
    stop = False
    bad_exit = False
    while fds:
        rl, _, _ = select.select(list(fds), [], [], 5.0)
        for r in rl:
            d = R.os_read(r, 1 << 20)
            if not d:
                R.os_close(r)
                del fds[r]
                _, st = os.waitpid(pids.pop(r), 0)
                if st != 0 and not stop:
                    bad_exit = True
                continue
            buf = fds[r]
            buf += d
            while len(buf) >= 4:
                n = int.from_bytes(buf[:4], "big")
                if len(buf) < 4 + n:
                    break
                res = pickle.loads(bytes(buf[4:4 + n]))
                del buf[:4 + n]
                on_result(res)
                if res.get("viol"):
                    viols.append(res)
        if viols and stop_on_violation and not stop:
            stop = True
            for pid in pids.values():
                for f in (os.killpg, os.kill):
                    try:
                        f(pid, signal.SIGKILL)
                    except OSError:
                        pass
    if bad_exit:
        raise RuntimeError("a worker process failed")
    return viols


# --------------------------------------------------------------------------------------------------
# Minimisation

def _try(prop, sc, rec, cls):
    try:
        res = run_one(prop, sc, 0, explicit=rec)
    except ChildDied:
        return None
    v = res.get("viol")
    if v and v["class"] == cls:
        return res
    return None


def ddmin_list(items, test, deadline):
    """Greedy chunked removal."""
    n = len(items)
    size = max(1, n // 2)
    while items and size >= 1:
        i = 0
        while i < len(items):
            if now() > deadline:
                return items
            cand = items[:i] + items[i + size:]
            if test(cand):
                items = cand
            else:
                i += size
        if size == 1:
            break
        size //= 2
    return items


def minimise(prop, res, budget=90.0):
    sc, rec, cls = res["sc"], res["record"], res["viol"]["class"]
    deadline = now() + budget
    sc = json.loads(json.dumps(sc))
    best = _try(prop, sc, rec, cls)
    if best is None:
        return None
    state = dict(sc=sc, rec=rec, res=best)

    def attempt(sc2, rec2):
        r = _try(prop, sc2, rec2, cls)
        if r is not None:
            state.update(sc=sc2, rec=rec2, res=r)
            return True
        return False

    def shrink_ops():
        done = set()
        while now() < deadline:
            path = next((p for p in prop.op_lists(state["sc"]) if str(p) not in done), None)
            if path is None:
                return
            done.add(str(path))

            def test(cand):
                sc2 = json.loads(json.dumps(state["sc"]))
                o = sc2
                for p in path[:-1]:
                    o = o[p]
                o[path[-1]] = cand
                return attempt(sc2, state["rec"])
            o = state["sc"]
            for p in path:
                o = o[p]
            ddmin_list(list(o), test, deadline)
    # 1. operations
    shrink_ops()
    # 2. faults, switches
    for key in ("faults", "switches"):
        def test(cand, key=key):
            return attempt(state["sc"], dict(state["rec"], **{key: cand}))
        ddmin_list(list(state["rec"].get(key, [])), test, deadline)
    for node in list((state["rec"].get("tswitches") or {})):
        def test(cand, node=node):
            return attempt(state["sc"], dict(state["rec"], tswitches=dict(state["rec"]["tswitches"], **{node: cand})))
        ddmin_list(list(state["rec"]["tswitches"][node]), test, deadline)
    # 3. property-specific simplifications
    for sc2 in (prop.simplify(state["sc"]) if hasattr(prop, "simplify") else ()):
        if now() > deadline:
            break
        attempt(sc2, state["rec"])
    # operations again, now with fewer faults
    shrink_ops()
    return state


def write_replay(prop, sc, rec, res, seed, tag):
    os.makedirs(REPLAYS, exist_ok=True)
    path = os.path.join(REPLAYS, "%s-%s-%s.json" % (prop.ID, seed, tag))
    d = dict(property=prop.ID, seed=seed, scenario=sc, decisions=rec, violation=res["viol"], log_hash=res["hash"],
             trace=res.get("trace", []), how="python /verif/check.py %s --replay %s" % (prop.ID, path))
    with R.open(path, "w") as f:
        json.dump(d, f, indent=1, default=str)
    return path


def replay_fresh(prop, path):
    """Replay in a new interpreter: returns (reproduced, output)."""
    p = subprocess.run([sys.executable, os.path.join(HERE, "check.py"), prop.ID, "--replay", path],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
    return p.returncode == 1, p.stdout


def report(prop, res):
    """Minimise, write the replay file, confirm it in a fresh interpreter.  Returns path or None if it never reproduced."""
    seed = res["seed"]
    raw = write_replay(prop, res["sc"], res["record"], res, seed, "raw")
    st = None
    try:
        st = minimise(prop, res) if res["viol"]["class"] != REAL_HANG else None
    except Exception:
        sys.stderr.write("minimisation failed:\n" + traceback.format_exc())
    if st is not None:
        path = write_replay(prop, st["sc"], st["rec"], st["res"], seed, "min")
        ok, out = replay_fresh(prop, path)
        if ok:
            return path
        sys.stderr.write("minimised replay did not reproduce in a fresh process:\n%s\n" % out[-2000:])
    for _ in range(5 if res["viol"]["class"] != REAL_HANG else 1):
        ok, out = replay_fresh(prop, raw)
        if ok:
            return raw
    sys.stderr.write("seed %s: violation %r did not reproduce in fresh processes\n%s\n" % (seed, res["viol"], out[-1500:]))
    return None


# --------------------------------------------------------------------------------------------------

def known_findings(prop):
    out = []
    try:
        with R.open(os.path.join(HERE, "known_findings.txt")) as f:
            for line in f:
                if line.startswith("known: property=%s " % prop.ID):
                    out.append(line.strip()[len("known: "):])
    except FileNotFoundError:
        pass
    return out


def main_check(prop, tier, base_seed, runs=None, wall=None, nworkers=8):
    t0 = now()
    n = runs or prop.RUNS[tier]
    budget = wall or prop.WALL[tier]
    first = base_seed * 1_000_000
    seeds = list(range(first, first + n))
    agg = dict(runs=0, nontrivial=0, hashes=set(), shapes=set(), faults={}, probes={}, sim_time=0.0, steps=0, ops=0,
               switches=0, harness=[], lines=0, unreproduced=0, retried=0)
    samples = []
    done = set()

    def on_result(r):
        done.add(r["seed"])
        if "harness" in r:
            agg["harness"].append((r["seed"], r["harness"]))
            return
        agg["runs"] += 1
        agg["retried"] += r.get("retried", 0)
        for k, v in r.get("faults", {}).items():
            agg["faults"][k] = agg["faults"].get(k, 0) + v
        for k, v in r.get("probes", {}).items():
            agg["probes"][k] = agg["probes"].get(k, 0) + int(v)
        agg["sim_time"] += r.get("sim_time", 0.0)
        agg["steps"] += r.get("steps", 0)
        agg["ops"] += r.get("ops", 0)
        agg["switches"] += r.get("switches", 0)
        new = r["hash"] not in agg["hashes"]
        agg["hashes"].add(r["hash"])
        if new and r.get("nontrivial"):
            agg["nontrivial"] += 1
        if r.get("nontrivial") and len(samples) < 3 and r.get("sample") is not None:
            samples.append(dict(seed=r["seed"], case=r["sample"]))
    rc = 0
    pending = seeds
    try:
        set_up(prop)
        t_explore, lost = 0.0, []
        for _ in range(4):
            t1 = now()
            viols = explore(prop, pending, tier, t0 + budget, nworkers, on_result)
            t_explore += now() - t1
            if not viols:
                break
            viols.sort(key=lambda r: r["seed"])
            path = None
            for v in viols[:4]:
                path = report(prop, v)
                if path:
                    break
                agg["unreproduced"] += 1
                lost.append(v)
            if path:
                print("VIOLATION property=%s replay=%s" % (prop.ID, path))
                print("  seed %d: %s: %s" % (v["seed"], v["viol"]["class"], str(v["viol"]["detail"])[:600]))
                rc = 1
                break
            # nothing that can be replayed: go on with the seeds that have not run
            pending = [s for s in pending if s not in done]
        if lost and rc == 0:
            if any(v["viol"]["class"] != REAL_HANG for v in lost):
                rc = 2
                print("error: a violation was observed but did not replay; see stderr")
            else:
                print("note: a run took longer than %d s of real time but ended when repeated" % RUN_WALL)
        if agg["harness"]:
            sys.stderr.write("%d runs ended in a harness error; first (seed %d):\n%s\n" % (
                len(agg["harness"]), agg["harness"][0][0], agg["harness"][0][1]))
            if rc == 0:
                rc = 2
        for k in known_findings(prop):
            print("KNOWN-FINDING: " + k)
    finally:
        tear_down(prop)
    wall_s = now() - t0
    ev = dict(property=prop.ID, tier=tier, seed=base_seed, level="exploration", wall_s=round(wall_s, 2),
              violations=1 if rc == 1 else 0,
              coverage=dict(
                  evaluations=agg["runs"], distinct_nontrivial=agg["nontrivial"], rule=prop.RULE, samples=samples,
                  seeds="%d..%d" % (first, first + n - 1), seeds_planned=n,
                  runs_per_hour=int(agg["runs"] / max(t_explore, 1e-3) * 3600) if agg["runs"] else 0,
                  simulated_seconds=round(agg["sim_time"], 3), scheduling_steps=agg["steps"],
                  context_switches=agg["switches"], operations=agg["ops"],
                  faults_fired=dict(sorted(agg["faults"].items())),
                  distinct_event_logs=len(agg["hashes"]), distinct_measure="distinct hashes of the full event log (schedule, "
                  "I/O steps, faults, operation outcomes)",
                  probes=dict(sorted(agg["probes"].items())), harness_errors=len(agg["harness"]),
                  unreproduced=agg["unreproduced"], runs_repeated_after_child_death=agg["retried"],
                  components=prop.COMPONENTS),
              assumptions=prop.ASSUMPTIONS)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with R.open(os.path.join(HERE, "evidence", prop.ID + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s: %d runs (%d distinct non-trivial), %d faults fired, %.1f s -> %s" % (
        prop.ID, tier, agg["runs"], agg["nontrivial"], sum(agg["faults"].values()), wall_s,
        {0: "held", 1: "VIOLATED", 2: "error"}[rc]))
    return rc


def main_replay(prop, path):
    with R.open(path) as f:
        d = json.load(f)
    try:
        set_up(prop)
        res = run_one(prop, d["scenario"], 0, explicit=d["decisions"])
    finally:
        tear_down(prop)
    v = res.get("viol")
    if v:
        print("VIOLATION property=%s replay=%s" % (prop.ID, path))
        print("  %s: %s" % (v["class"], v["detail"]))
        for t in res.get("trace", [])[-60:]:
            print("   ", t)
        print("  event log %s (%s)" % (res["hash"], "identical" if res["hash"] == d["log_hash"] else "DIFFERENT from the recording"))
        return 1
    print("no violation on replay (event log %s)" % res["hash"])
    return 0


def main_determinism(prop, tier, base_seed, n, out, nworkers):
    """Writes {seed: loghash} for n seeds (used to diff runs across worker counts, hash seeds and interpreters)."""
    h = {}
    first = base_seed * 1_000_000

    def on(r):
        h[r["seed"]] = r.get("hash") or "harness:" + r.get("harness", "")[-200:]
        if r.get("record") is not None and "hash" in r:
            h["%d/rec" % r["seed"]] = hashlib.sha1(json.dumps(r["record"], sort_keys=True).encode()).hexdigest()[:12]
    try:
        set_up(prop)
        explore(prop, list(range(first, first + n)), tier, now() + 1e6, nworkers, on, stop_on_violation=False)
    finally:
        tear_down(prop)
    with R.open(out, "w") as f:
        json.dump({str(k): v for k, v in h.items()}, f, indent=0, sort_keys=True)

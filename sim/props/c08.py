"""C08 parallel map."""
import random

from .. import seams, mp
from ..world import World, Decider, Hang
from .common import *

ID = "C08"
TECHNIQUE = "seeded worker life cycles, failures and kills around the real parallel map"
LEVEL_NOTE = "seeded search over worker schedules and faults; process start/exit and clocks are simulated, worker bodies are real"
RUNS = dict(quick=2600, thorough=60000)
WALL = dict(quick=200, thorough=1200)
RULE = ("a case is one seeded call (or sequence of calls) of the parallel map: arguments, container type, limit, poll pause, and per "
        "worker its duration, set order, failure, kill or start error; non-trivial when at least two workers ran and either their "
        "lifetimes overlapped out of order or a fault fired")
COMPONENTS = dict(real=["sureal.tools.misc.parallel_map", "sureal.tools.stats.vectorized_convolution_of_two_logistics",
                        "worker bodies (run in real forked children)"],
                  stub=["multiprocessing.Process life cycle, Manager, Queue, cpu_count", "time.sleep and clocks"])
ASSUMPTIONS = ["a worker's effects on shared objects become visible together when it ends",
               "pools and executors of the standard library, if the code used them, would run unsimulated"]


class Arg:
    """An argument that cannot be pickled."""
    def __init__(self, v):
        self.v = v
        self.f = lambda: v


def plain(a):
    return a[0] if isinstance(a, tuple) and a else a


def generate(rng, tier):
    calls = []
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        n = rng.choice([0, 1, 2, 3, 4, 5, 6, 8, 12, rng.randint(0, 30)]) if rng.random() < .985 else rng.randint(60, 260)
        pause = rng.choice([0.01, 0.01, 0.1, 0.001, None, 0.0])
        shape = rng.choice(["uniform", "reverse", "instant", "mixed", "stall"])
        procs = {}
        faults = rng.random() < 0.4
        pf = rng.choice([0.05, 0.2, 0.5])
        scale = 0.03 if pause in (None, 0.0) else rng.choice([0.02, 0.3, 1.0 if pause >= 0.01 else 0.1])
        for i in range(n):
            d = {"uniform": rng.random(), "reverse": (n - i) / max(n, 1), "instant": 0.0,
                 "mixed": rng.choice([0, 0.01, 1.0]), "stall": 3.0 if rng.random() < 0.2 else 0.05}[shape] * scale
            f = None
            if faults and rng.random() < pf:
                f = rng.choice(["kill", "kill_late", "start", "manager", "raise", "raise", "exit", "badval"])
            procs[str(i)] = dict(dur=d, fault=f, hash=rng.randrange(1000))
        if n and rng.random() < .03:                  # a worker that lasts very much longer than a look at the workers
            pause = rng.choice([pause, pause, 5.0])
            procs[str(rng.randrange(n))].update(dur=rng.choice([300., 2000., 4000.]) * (pause if pause and pause >= .01 else .003))
        calls.append(dict(n=n, container=rng.choice(["list", "list", "tuple", "generator", "zip", "map", "dict_keys", "range", "set1"]),
                          vals=rng.choice(["int", "same", "falsy", "big", "unpicklable", "nested", "neg", "str"]),
                          processes=rng.choice([None, None, 1, 2, 3, 4, 7, 40]), pause=pause, procs=procs,
                          cpus=rng.choice([1, 2, 4, 8, 16]), api=rng.choice(["pmap"] * 9 + ["conv"])))
        if rng.random() < .06 and n <= 8:             # the mapped function uses workers of its own
            calls[-1].update(nest=dict(k=rng.randint(1, 3), fail=rng.random() < .25), vals=rng.choice(["int", "neg"]), api="pmap")
            if rng.random() < .1 and n:
                calls[-1]["nest"]["bytes"] = 70000
    return dict(calls=calls)


def op_lists(sc):
    return [["calls"]]


def simplify(sc):
    import json
    for ci in range(len(sc["calls"])):
        for n in (2, 3, 4, 6):
            c = json.loads(json.dumps(sc))
            if c["calls"][ci]["n"] > n:
                c["calls"][ci]["n"] = n
                yield c
        for i in list(sc["calls"][ci]["procs"]):
            c = json.loads(json.dumps(sc))
            c["calls"][ci]["procs"][i] = dict(dur=0.0, fault=None, hash=int(i))
            yield c


def _args(c):
    n = c["n"]
    k = c["vals"]
    vals = {"int": list(range(n)), "same": [7] * n, "falsy": [[0, "", None, False, 0.0][i % 5] for i in range(n)],
            "big": ["x" * 2000 + str(i) for i in range(n)], "unpicklable": [Arg(i) for i in range(n)],
            "nested": [(i, [i, {"k": i}]) for i in range(n)], "neg": [-i for i in range(n)],
            "str": [chr(97 + i % 26) * (i % 3 + 1 + i // 78 * 3) for i in range(n)]}[k]
    ct = c["container"]
    if ct == "zip":
        return vals, [(v, i) for i, v in enumerate(vals)], zip(vals, range(n))
    if ct == "dict_keys" and k in ("int", "big"):
        d = {v: 1 for v in vals}
        return vals, vals, d.keys()
    if ct == "range" and k == "int":
        return vals, vals, range(n)
    if ct == "set1" and n <= 1 and k == "int":
        return vals, vals, set(vals)
    if ct == "tuple":
        return vals, vals, tuple(vals)
    if ct == "generator":
        return vals, vals, (v for v in vals)
    if ct == "map":
        return vals, vals, map(lambda v: v, vals)
    return vals, vals, list(vals)


def execute(sc, refs, root, explicit):
    from sureal.tools.misc import parallel_map
    probes, faults, log = {}, {}, []
    v = None
    sim_t = 0.0
    nontriv = False
    for ci, c in enumerate(sc["calls"]):
        w = World(root=None, seed=sc["seed"], trace_lines=False)
        plan = c["procs"]
        m = mp.MPSim(w, plan, dict(dur=0.01, fault=None), c["cpus"], 1e-3,
                     5000 + int(20 * sum(p["dur"] for p in plan.values()) / 1e-3))
        w.mp = m
        seams.set_world(w)
        try:
            t0 = w.mono
            if c["api"] == "conv" and c["n"] > 0:
                res, viols = _conv(c, m)
            else:
                _, items, it = _args(c)
                raising = {i for i in range(c["n"]) if plan.get(str(i), {}).get("fault") in ("raise", "exit", "badval")}

                def func(a, items=items, m=m):
                    idx = [i for i, x in enumerate(items) if x is a or (x == a and type(x) is type(a))]
                    m.calls.append(idx)
                    if len(idx) == 1 and not multi:
                        i = idx[0]
                        k = plan.get(str(i), {}).get("fault")
                        if k == "raise":
                            raise ValueError("worker %d" % i)
                        if k == "exit":
                            raise SystemExit(3)
                        if k == "badval":
                            return lambda: 1            # cannot be sent back
                    if isinstance(plain(a), Arg):
                        return ("r", plain(a).v)
                    if nest:
                        def inner(y):
                            if nest["fail"] and y == nest["k"] - 1 and idx[0] == c["n"] - 1:
                                raise ValueError("inner")
                            return "x" * nest.get("bytes", 0) + str(y)
                        return ("r", a[0] if isinstance(a, tuple) else a, parallel_map(inner, list(range(nest["k"]))))
                    return falsify(a)
                falsify = (lambda a: a) if c["vals"] == "falsy" else (lambda a: ("r", a))
                multi = c["vals"] in ("same", "falsy")
                nest = c.get("nest")
                if multi:
                    raising = set()
                if nest and nest["fail"] and c["n"]:
                    raising.add(c["n"] - 1)
                kw = {}
                if c["processes"] is not None:
                    kw["processes"] = c["processes"]
                if c["pause"] != 0.01:
                    kw["pause_sec"] = c["pause"]
                expected = [("r", x[0] if isinstance(x, tuple) else x, ["x" * nest.get("bytes", 0) + str(y) for y in range(nest["k"])]) for x in items] if nest else [
                    ("r", plain(x).v) if isinstance(plain(x), Arg) else falsify(x) for x in items]
                try:
                    res = outcome(lambda: parallel_map(func, it, **kw))
                except Hang as e:
                    res = ("hang", str(e))
                limit = c["processes"] if c["processes"] is not None else c["cpus"]
                bad = {i for i in range(c["n"]) if plan.get(str(i), {}).get("fault") in ("kill", "start", "manager")} | raising
                started_bad = bool(m.fired.get("worker_killed") or m.fired.get("start_error") or m.fired.get("manager_lost")
                                   or m.fired.get("worker_raised") and raising or (m.fired.get("worker_killed_late")))
                must_raise = bool(m.fired.get("worker_killed") or m.fired.get("start_error") or m.fired.get("manager_lost")
                                  or bool(raising) and not multi)
                if res[0] == "hang":
                    v = v or viol("hang", "call %d: %s" % (ci, res[1]))
                elif res[0] == "ok":
                    if must_raise and bad:
                        v = v or viol("failure-hidden", "call %d returned %r although workers failed: %s" % (
                            ci, res[1], {i: plan[str(i)]["fault"] for i in sorted(bad)}))
                    elif type(res[1]) is not list or res[1] != expected or [type(x) for x in res[1]] != [type(x) for x in expected]:
                        v = v or viol("wrong-result", "call %d: got %r expected %r" % (ci, res[1], expected))
                    else:
                        cnt = {}
                        for idx in m.call_log:
                            bump(cnt, str(idx))
                        tot = sum(cnt.values())
                        if tot != c["n"] or (not multi and any(x != 1 for x in cnt.values())):
                            v = v or viol("not-exactly-once", "call %d: function calls per argument: %r" % (ci, cnt))
                else:
                    if not started_bad and not bad:
                        v = v or viol("spurious-error", "call %d raised %r with no worker failing" % (ci, res))
                    if any(x != 1 for x in [sum(1 for y in m.call_log if y == [i]) for i in range(c["n"])
                                            ] if x > 1) and not multi:
                        v = v or viol("not-exactly-once", "call %d repeated a call" % ci)
                if m.max_alive > limit:
                    v = v or viol("too-many-workers", "call %d: %d alive, limit %d" % (ci, m.max_alive, limit))
            if c["api"] == "conv" and c["n"] > 0:
                v = v or viols
            ends = [e[1] for e in m.log if e[0] == "end"]
            overl = ends != sorted(ends)
            if overl:
                bump(probes, "finished_out_of_order")
            if m.max_alive >= 2:
                bump(probes, "workers_overlapped")
            if m.max_alive == (c["processes"] or c["cpus"]):
                bump(probes, "limit_reached")
            if c["container"] in ("zip", "generator", "map"):
                bump(probes, "iterator_argument")
            if m.started >= 2 and (overl or m.fired):
                nontriv = True
            for k, x in m.fired.items():
                bump(faults, k, x)
            sim_t += w.mono - t0
            log.append([ci, m.log, res[0], repr(res[1])[:2000]])
        finally:
            seams.set_world(None)
    return dict(viol=v, record=dict(switches=[], faults=[]), hash=loghash(log), faults=faults, probes=probes, sim_time=sim_t,
                steps=sum(len(x[1]) for x in log), ops=len(sc["calls"]), switches=0, nontrivial=nontriv,
                sample=sc["calls"][0], trace=[str(x) for x in log])


def _conv(c, m):
    """The library's own user of the parallel map: rows must come out as each row does alone."""
    import numpy as np
    from sureal.tools.stats import vectorized_convolution_of_two_logistics as conv
    n = max(1, min(c["n"], 4))
    rows = [np.array([[-1. + i, .3 * i], [.5 + i, -.2]]) for i in range(n)]
    xs = np.array(rows)
    o = np.ones_like(xs)
    a = [xs, .1 * xs, .7 * o, -.05 * xs, 1.1 * o]
    for i in list(m.plan):
        m.plan[i] = dict(m.plan[i], fault=None)
    w = seams.WORLD
    expected = []
    for i in range(n):
        w.mp = mp.MPSim(w, {}, dict(dur=0.0, fault=None), 4, 1e-3, 30000)
        expected.append(outcome(lambda: conv(*[x[i:i + 1] for x in a])))
    w.mp = m
    try:
        res = outcome(lambda: np.asarray(conv(*a)))
    except Hang as e:
        return ("hang", str(e)), viol("hang", e)
    if any(e[0] != "ok" for e in expected):
        return res, viol("conv-error", expected[0])
    if res[0] != "ok":
        return res, viol("conv-error", res)
    want = np.concatenate([e[1] for e in expected])
    if want.shape != res[1].shape or not np.allclose(want, res[1], rtol=1e-9, atol=0):
        return res, viol("wrong-result", "convolution rows: %r expected %r" % (res[1].tolist(), want.tolist()))
    if m.max_alive > c["cpus"]:
        return res, viol("too-many-workers", "%d alive, %d cpus" % (m.max_alive, c["cpus"]))
    return res, None

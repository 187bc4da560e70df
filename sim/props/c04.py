"""C04 the directory result cache."""
import json

from .. import gen, canon
from ..procs import Cluster
from .common import *
from . import cachesim, c01

ID = "C04"
TECHNIQUE = "seeded schedules of processes and threads sharing one cache directory, with crash, torn or short write, full disk or I/O error at any I/O step, then a fault-free recovery phase; history checked against the values really computed"
LEVEL_NOTE = "seeded search; real decorator on real files behind a simulated raw layer; a crash is the real death of the simulated process"
RUNS = dict(quick=3000, thorough=150000)
WALL = dict(quick=200, thorough=1500)
RULE = ("a case is one seeded history: one to four generations of one to three processes with one to three threads each calling cached "
        "functions with arguments that resemble each other, functions that raise, are slow or call the cache again, faults and "
        "crashes at drawn I/O steps, and a fault-free recovery; non-trivial when at least two calls ended")
COMPONENTS = dict(real=["sureal.tools.decorator persist_to_dir", "sureal.tools.misc atomic_write", "sureal.routine _get_sample_stats_wrapper_persistent", "Python json, io", "Linux file system (scratch)"],
                  stub=["process and thread scheduler", "raw file I/O results", "entropy and process ids", "the cached functions"])
ASSUMPTIONS = ["arguments are told apart by their printed form and one function uses one name", "values are compared in their JSON form",
               "a crash is the death of a process (what it handed to the kernel survives) or a loss of power (names survive, data as far as they were fsynced)"]


def generate(rng, tier):
    if rng.random() < .06:
        return stats_scenario(rng)
    return cachesim.generate(rng, tier, ID)


def op_lists(sc):
    if "stats" in sc:
        return [["phases"]] + [["phases", i] for i in range(len(sc["phases"]))] + \
            [["phases", i, j] for i, p in enumerate(sc["phases"]) for j in range(len(p))]
    return cachesim.op_lists(sc)


def execute(sc, refs, root, explicit):
    if "stats" in sc:
        return stats_execute(sc, root, explicit)
    return cachesim.execute(sc, root, explicit, ID)


# ---- the library's own user of the cache: sampled statistics of models over subjects

def stats_scenario(rng):
    specs = [gen.raw_spec(rng, style="list", small=True) for _ in range(2)]
    calls = [[rng.randrange(2), rng.choice([None, .5, .7, 1.0]), rng.choice(["MOS", "SR_MOS", "MLE_CO_AP"]), rng.choice([1, 2])]
             for _ in range(rng.randint(1, 4))]

    def node():
        return [rng.randrange(len(calls)) for _ in range(rng.randint(1, 3))]
    return dict(stats=1, specs=specs, calls=calls, phases=[[node() for _ in range(rng.choice([1, 2]))] for _ in range(rng.choice([1, 2, 3]))],
                p_io=rng.choice([.1, .5]), p_fault=rng.choice([0, .03, .1]), bufsize=rng.choice([64, 8192]), chunk=rng.choice([100, 8192]),
                fault_kinds=["crash", "power", "torn", "nospace", "EIO", "ENOSPC", "short"])


def stats_execute(sc, root, explicit):
    import importlib
    import warnings
    import numpy as np
    import sureal.config
    import sureal.routine as routine
    sureal.config.PYTHON_ROOT = root
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        routine = importlib.reload(routine)
    cl = c01.classes()
    for i, s in enumerate(sc["specs"]):
        gen.write("%s/d%d.py" % (root, i), gen.as_py(s))
    args = [({"path": "%s/d%d.py" % (root, a)}, f, m, r) for a, f, m, r in sc["calls"]]

    def ref(a):
        out = routine.get_sample_stats([a[0]], [cl[a[2]]], subj_fraction=a[1], random_seed=a[3])
        for r in out:
            r[0].pop("raw_scores", None)
            r[0].pop("reconstructions", None)
        return canon.canon(json.loads(json.dumps(out)))
    exp = [outcome(lambda: ref(a)) for a in args]
    d = Decider(sc["seed"], dict(p_switch_io=sc["p_io"], p_fault=sc["p_fault"], fault_kinds=sc["fault_kinds"], max_faults=2), explicit)
    c = Cluster(root, d, dict(bufsize=sc["bufsize"], chunk=sc["chunk"], target_prefixes=TARGETS), seed=sc["seed"],
                tswitches=None if explicit is None else explicit.get("tswitches", {}))

    def node(name, idx):
        def go(w):
            real = routine.get_sample_stats

            def counted(*a, **k):
                w.event(ev="compute")
                return real(*a, **k)
            routine.get_sample_stats = counted
            for i, ci in enumerate(idx):
                w.event(ev="call", i=ci)
                w.begin_op("%s.%d" % (name, i))
                r = outcome(lambda: routine._get_sample_stats_wrapper_persistent(*args[ci]))
                w.end_op()
                w.event(ev="return", i=ci, ok=r[0] == "ok", v=canon.canon(json.loads(json.dumps(r[1]))) if r[0] == "ok" else list(r[1:]))
            return 0
        return go
    v, hang = None, None
    every = list(range(len(args)))
    phases = sc["phases"] + [[every], [every]]
    try:
        for pi, ph in enumerate(phases):
            if pi == len(sc["phases"]):
                d.cfg["p_fault"] = 0
            c.phase([("p%dn%d" % (pi, ni), node("p%dn%d" % (pi, ni), n)) for ni, n in enumerate(ph)])
            if c.hang:
                hang = c.hang
                break
    except Hang as e:
        hang = str(e)
    returned, cur, nret, hits = {}, {}, 0, 0
    for i, e in enumerate(c.events):
        n = e.get("node")
        if e["ev"] == "call":
            cur[n] = dict(i=e["i"], at=i, fault=False, n=0)
        elif e["ev"] == "fault" and e["kind"] != "short" and n in cur:
            cur[n]["fault"] = True
        elif e["ev"] == "compute":
            x = cur[n]
            x["n"] += 1
            r = returned.get(str(args[x["i"]]))
            if r is not None and r < x["at"] and not x["fault"]:
                v = v or viol("computed-again", "%s computed the statistics of %s again" % (n, args[x["i"]]))
        elif e["ev"] == "return":
            x = cur[n]
            nret += 1
            hits += not x["n"]
            want = exp[x["i"]]
            if e["ok"]:
                returned.setdefault(str(args[x["i"]]), i)
                if want[0] != "ok" or not canon.same(want[1], e["v"]):
                    v = v or viol("wrong-value", "%s: statistics for %s are not those of the data: %s" % (
                        n, args[x["i"]], canon.diff(want[1], e["v"]) if want[0] == "ok" else "an error was expected"))
            elif want[0] == "ok" and not x["fault"]:
                v = v or viol("failed-without-cause", "%s: %s raised %s" % (n, args[x["i"]], e["v"]))
    if hang:
        v = v or viol("hang", hang)
    rec = d.record()
    rec["tswitches"] = {}
    return dict(viol=v, record=rec, hash=loghash([c.log]), faults=d.fired, probes=dict(sample_statistics_calls=nret, statistics_hits=hits),
                sim_time=.01 * len(c.log), steps=c.steps, ops=nret, switches=len(d.switches), nontrivial=nret >= 2,
                sample=dict(calls=sc["calls"], phases=sc["phases"]), trace=[str(x)[:300] for x in c.log[-200:]])

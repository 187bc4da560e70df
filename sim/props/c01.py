"""C01 model results depend only on dataset and options."""
import io
import json
import random
import sys

from .. import seams, gen, canon
from ..world import World, Decider, Hang, FAULTS_FOR
from .common import *

ID = "C01"
TECHNIQUE = "seeded line-level thread schedules, interruptions and histories of model runs, compared with the same run alone in a fresh process"
LEVEL_NOTE = "seeded search; the library runs unmodified, switched and interrupted at line granularity inside sureal; numpy/scipy calls are atomic"
REF_SERVER = True          # references come from an interpreter with another string-hash seed
RUNS = dict(quick=1800, thorough=60000)
WALL = dict(quick=200, thorough=1500)
RULE = ("a case is one seeded history of model runs (datasets that resemble each other, options, shared or short-lived readers, "
        "one to three threads, interruptions at chosen lines, failing progress output, clock steps, draws from the global random "
        "generators, plotting); non-trivial when at least two runs overlapped or followed each other on related datasets")
COMPONENTS = dict(real=["sureal.subjective_model", "sureal.pc_subjective_model", "sureal.experimental", "sureal.dataset_reader",
                        "sureal.routine.run_subjective_models", "numpy, scipy, matplotlib"],
                  stub=["thread scheduler", "clocks and sleep", "standard output", "files (real files behind a simulated layer)"])
ASSUMPTIONS = ["a call into numpy or scipy is atomic for the schedule", "results are compared with relative tolerance 1e-9"]

FAST = ["MOS", "DMOS", "LIVE_DMOS", "LS", "MLE_SO", "MLE_CO_AP", "MLE_CO_AP2", "SR_MOS", "SR_MOS_PCC", "SR_MOS_SRCC", "ZS_MOS",
        "ZS_SR_MOS", "SR_DMOS", "ZS_SR_DMOS", "PERSUBJECT", "BR_MOS", "BR_SR_MOS", "BR_SR_MOS_PCC", "BR_SR_MOS_SRCC",
        "Subject_MLE_Projection", "Subject_MLE_Projection2", "P910", "P913", "BT500"]
SLOW = ["MLE", "MLE", "MLE_CO", "MLE_CO", "DMOS_MLE", "DMOS_MLE_CO", "MLE_BSTP", "MLE_CO_BSTP", "MLE_legacy"]
PC = ["THURSTONE_MLE", "THURSTONE_MLE", "BT_MLE", "BT_NR"]
DERIVED = ["synthetic", "logistic", "missing", "selectdis", "select2"]
PLOTS = ["raw_scores", "raw_counts", "raw_counts_per_subject", "quality_scores", "subject_scores", "content_scores",
         "raw_scores_minus_quality_scores", "quality_scores_vs_raw_scores", "raw_scores_minus_quality_scores_and_observer_bias"]


def model_opts(rng, t):
    o = {}
    if rng.random() < .2:
        o["normalize_final"] = True
    if rng.random() < .2:
        o["transform_final"] = {k: round(rng.uniform(-2, 2), 3) for k in rng.sample(["p0", "p1", "p2"], rng.randint(1, 3))}
    if t in ("MOS", "MLE", "MLE_CO", "MLE_CO_AP", "PERSUBJECT", "LS") and rng.random() < .35:
        for k in ("dscore_mode", "zscore_mode", "bias_offset", "subject_rejection"):
            if rng.random() < .3:
                o[k] = True
    if t in SLOW:
        o["delta_thr"] = rng.choice([.3, .1, .02, .005])
        if t != "MLE_legacy" and rng.random() < .3:
            o["gradient_method"] = "original"
        if rng.random() < .2:
            o["force_subjbias_zeromean"] = rng.random() < .5
    elif t in ("MLE_CO_AP", "MLE_CO_AP2", "Subject_MLE_Projection", "P910") and rng.random() < .3:
        o["force_subjbias_zeromean"] = rng.random() < .5
    if t.endswith("BSTP"):
        o["n_bootstrap"] = rng.choice([1, 1, 2])
        o["delta_thr"] = .1
    if t in PC and rng.random() < .3:
        o["zscore_output"] = True
    return o


def perturb(rng, spec):
    """A dataset that resembles spec: same name and ids, other scores and (or) another arrangement of the same things."""
    s = json.loads(json.dumps(spec))
    how = rng.choice(["scores", "scores", "scores", "arrange", "arrange", "both"])
    if how != "scores":
        for _ in range(rng.choice([1, 1, 2])):
            arrange(rng, s)
        if how == "arrange":
            return s
    if s["kind"] == "pc":
        for v in s["dis"]:
            for e in v["os"]:
                if e[2] != .5 and rng.random() < .3:
                    e[2] = 1 - e[2] if e[2] in (0, 1) else e[2]
    else:
        f = (lambda x: round(x + rng.choice([-1, 0, 1]), 3) if isinstance(x, float) else x + rng.choice([-1, 0, 0, 1]))
        for v in s["dis"]:
            o = v["os"]
            if isinstance(o, dict):
                v["os"] = {k: [f(y) for y in x] if isinstance(x, list) else f(x) for k, x in o.items()}
            else:
                v["os"] = [[f(y) for y in x] if isinstance(x, list) else f(x) for x in o]
    if rng.random() < .3:
        s["attrs"]["ref_score"] = rng.choice([1.0, 5.0, 9.0])
    return s


def arrange(rng, s):
    k = rng.choice(["order", "order", "reference", "contents", "names", "paths", "drop"])
    dis = s["dis"]
    if k == "order":
        rng.shuffle(dis)
    elif k == "reference":                    # another video of the content is its reference
        for r in s["refs"]:
            vs = [v for v in dis if v["content_id"] == r["content_id"]]
            if len(vs) > 1 and rng.random() < .7:
                a, b = rng.sample(vs, 2)
                a["path"], b["path"] = b["path"], a["path"]
    elif k == "contents" and len(s["refs"]) > 1:
        a, b = rng.sample(s["refs"], 2)
        a["path"], b["path"] = b["path"], a["path"]
        a["content_name"], b["content_name"] = b["content_name"], a["content_name"]
    elif k == "names":                        # the same votes by other people
        names = sorted({n for v in dis for n in (v["os"] if isinstance(v["os"], dict) else [e[0] for e in v["os"]] if s["kind"] == "pc" else [])})
        to = dict(zip(names, rng.sample(names, len(names)) if rng.random() < .5 else ["z" + n for n in names]))
        for v in dis:
            if s["kind"] == "pc":
                v["os"] = [[to[e[0]], e[1], e[2]] for e in v["os"]]
            elif isinstance(v["os"], dict):
                v["os"] = {to[n]: x for n, x in v["os"].items()}
    elif k == "paths":
        for v in s["refs"] + dis:
            v["path"] = "other/" + v["path"]
    elif k == "drop" and s["kind"] != "pc" and len(dis) > 3:
        v = rng.choice(dis)
        if sum(x["content_id"] == v["content_id"] for x in dis) > 1:
            dis.remove(v)
            for i, x in enumerate(dis):
                x["asset_id"] = i


def generate(rng, tier):
    pc = rng.random() < .2
    mk = (lambda: gen.pc_spec(rng)) if pc else (lambda: gen.raw_spec(rng, small=True))
    specs = [mk()]
    while len(specs) < rng.choice([1, 2, 2, 3]):
        specs.append(rng.choice([lambda: perturb(rng, specs[0]), lambda: perturb(rng, specs[0]), mk])())
    nth = rng.choice([1, 1, 2, 2, 3])
    slow_ok = rng.random() < .35
    palette = [rng.choice(PC if pc else (FAST + SLOW if slow_ok else FAST)) for _ in range(rng.choice([1, 2, 3]))]
    if slow_ok and not pc and rng.random() < .5:
        palette.append(rng.choice(SLOW))
    optsets = {t: [model_opts(rng, t) for _ in range(2)] for t in palette}

    def model_op():
        t = rng.choice(palette)
        o = dict(op="model", ds=rng.randrange(len(specs)), cls=t, opts=rng.choice(optsets[t]),
                 reader=rng.choice(["shared", "shared", "temp", "temp"] + (["select", "select"] + DERIVED if not pc else ["temp"])), again=rng.random() < .25, reuse=rng.random() < .4)
        if rng.random() < .15:
            o["cancel"] = [round(rng.random(), 4), rng.choice(["KeyboardInterrupt", "MemoryError", "Cancelled"])]
        if rng.random() < .1:
            o["opts"] = dict(o["opts"], gradient_method="bogus", transform_final=5)
        return o

    def op():
        r = rng.random()
        if r < .62:
            return model_op()
        if r < .76:
            ts = [rng.choice(palette) for _ in range(rng.choice([1, 2, 2]))]
            o = dict(op="rsm", ds=rng.randrange(len(specs)), clss=ts, opts=rng.choice(optsets[ts[0]]),
                     plots=[rng.choice(PLOTS)] if rng.random() < .2 and not pc else [], fmt=rng.choice(["py", "json"]) if not pc else "py")
            if o["plots"] and rng.random() < .5:
                o["opts"] = dict(o["opts"], **rng.choice([dict(sort_quality_scores_in_plot=True), dict(plot_type="bar"), dict(raw_score_residue_range=[-1, 1])]))
                o["plots"] = rng.choice([["quality_scores"], ["quality_scores"], ["quality_scores", "subject_scores"], [rng.choice(PLOTS), rng.choice(PLOTS)], "all"])
            if o["plots"] and rng.random() < .3:
                o["axd"] = True
            if any(t in SLOW for t in ts):
                o["opts"] = dict(o["opts"], delta_thr=.1)
            for k in ("dscore_mode", "zscore_mode", "bias_offset", "subject_rejection"):
                o["opts"] = {a: b for a, b in o["opts"].items() if a != k}
            if rng.random() < .1:
                o["cancel"] = [round(rng.random(), 4), "KeyboardInterrupt"]
            return o
        if r < .8:
            t = rng.choice(palette)
            o = dict(op="route", ds=rng.randrange(len(specs)), cls=t, opts=rng.choice(optsets[t]), how=rng.choice(["file", "file"] if pc else ["file", "file", "stats", "validate"]),
                     frac=rng.choice([None, .5, 1.0]), sd=rng.choice([0, 1, 7]), sub=rng.choice([None, None, 0, 1]), miss=rng.choice([None, .2]))
            if o["how"] in ("stats", "validate") and rng.random() < .25:
                o["axes"] = True
            if rng.random() < .1:
                o["cancel"] = [round(rng.random(), 4), "KeyboardInterrupt"]
            return o
        if r < .86:
            return dict(op="rng", n=rng.randint(0, 5), seed=rng.choice([None, rng.randrange(1000)]))
        if r < .93 and not pc:
            return dict(op="convert", ds=rng.randrange(len(specs)), how=rng.choice(["agg", "pc", "dict", "persub", "format"]))
        return dict(op="sleep", s=round(rng.uniform(0, 2), 3))
    n = rng.choice([2, 3, 4, 5, 6])
    threads = [[op() for _ in range(max(1, n // nth))] for _ in range(nth)]
    for th in threads:
        for o in [o for o in th if o["op"] == "route" and o["how"] == "file"]:     # the same file with another selection
            if rng.random() < .6:
                th.append(dict(o, sub=rng.choice([x for x in (None, 0, 1) if x != o["sub"]]), cancel=None))
    return dict(specs=specs, threads=threads, p_switch=rng.choice([.002, .01, .05, .2]), p_io=.3,
                p_fault=rng.choice([0, 0, 0, .05]), jumps=[[round(1000 + rng.expovariate(20), 4), rng.choice([-1e5, -3.0, 1e4])]
                                                           for _ in range(rng.choice([0, 0, 1, 3]))],
                tail=[model_op() for _ in range(rng.choice([0, 1, 1, 2]))])


def op_lists(sc):
    return [["threads", i] for i in range(len(sc["threads"]))] + [["tail"]]


def classes():
    from sureal.subjective_model import SubjectiveModel

    def subs(c):
        for s in c.__subclasses__():
            yield s
            yield from subs(s)
    return {c.TYPE: c for c in subs(SubjectiveModel) if isinstance(c.__dict__.get("TYPE"), str)}


def make_reader(spec, kind="plain", obj=None):
    from sureal.dataset_reader import RawDatasetReader, PairedCompDatasetReader, SelectSubjectRawDatasetReader
    obj = obj if obj is not None else gen.as_object(spec)
    if spec["kind"] == "pc":
        return PairedCompDatasetReader(obj)
    if kind in DERIVED:
        from . import c03
        S = min(spec["S"], len({k for v in spec["dis"] for k in v["os"]}) if isinstance(spec["dis"][0]["os"], dict) else spec["S"])
        E = len(spec["dis"])
        nums = [1 + (7 * i) % 5 * .8 for i in range(E)] + [.1 + .07 * (i % 11) for i in range(99)]
        return c03.make(dict(kind="select" if kind == "select2" else kind, nums=nums, seed=3, subj=[S - 1, 0], prob=0, dis=[E - 1] + list(range(E - 1))),
                        spec, obj)[0]
    if kind == "select":
        n = min(spec["S"], len({k for v in spec["dis"] for k in v["os"]}) if isinstance(spec["dis"][0]["os"], dict) else spec["S"])
        return SelectSubjectRawDatasetReader(obj, input_dict={"selected_subjects": [i for i in (0, 2, 1) if i < n]})
    return RawDatasetReader(obj)


class Stdout(io.TextIOBase):
    """Progress output: every write is a step of the schedule and can fail."""

    def writable(self):
        return True

    def write(self, s):
        w = seams.WORLD
        if w is not None:
            w.io("stdout", "stdout")
        return len(s)


def ds_file(root, specs, i, fmt):
    p = "%s/d%d_set.%s" % (root, i, fmt)
    if not os.path.exists(p):
        gen.write(p, gen.as_py(specs[i]) if fmt == "py" else gen.as_json(specs[i]))
    return p


def mkey(sc, op):
    return "m|%s|%s|%s|%s" % (json.dumps(sc["specs"][op["ds"]], sort_keys=True), op["cls"], json.dumps(op["opts"], sort_keys=True),
                              "plain" if op["reader"] in ("shared", "temp") else op["reader"])


def rkey(sc, op, t):
    return "r|%s|%s|%s|%s" % (json.dumps(sc["specs"][op["ds"]], sort_keys=True), t, json.dumps(op["opts"], sort_keys=True), op["fmt"])


def all_ops(sc):
    return [o for th in sc["threads"] for o in th] + sc["tail"]


def solo(fn, limit=25000):
    """Runs fn alone with line counting; returns (outcome, lines).  A run that is too long is given up ("exc", "Cancelled")."""
    w = World(root=None, target_prefixes=TARGETS)
    seams.set_world(w)

    def go():
        w.begin_op("ref", (limit, "Cancelled"))
        return outcome(fn)
    try:
        r = w.run_traced(go)
    finally:
        seams.set_world(None)
    return r, w.main.lines


RSM_AXES = ["ax_raw_scores", "ax_raw_counts", "ax_raw_counts_per_subject", "ax_raw_scores_minus_quality_scores",
            "ax_raw_scores_minus_quality_scores_and_observer_bias", "ax_quality_scores", "ax_observer_bias", "ax_observer_inconsistency",
            "ax_rejected", "ax_rejected_1st_stats", "ax_rejected_2nd_stats", "ax_content_ambiguity"]
SYN_AXES = ["quality_scores", "quality_scores_std", "observer_bias", "observer_inconsistency", "quality_ambiguity"]


def axes(names):
    """The caller's own axes, one per name."""
    import matplotlib.pyplot as plt
    return dict(zip(names, plt.subplots(3, 4)[1].flatten()))


def rsm(sc, root, op, clss, plots):
    from sureal.routine import run_subjective_models
    from sureal.dataset_reader import PairedCompDatasetReader, RawDatasetReader
    cl = classes()
    opts = json.loads(json.dumps(op["opts"]))
    pc = sc["specs"][op["ds"]]["kind"] == "pc"
    if plots and op.get("axd"):
        opts["ax_dict"] = axes(RSM_AXES)
    return run_subjective_models(ds_file(root, sc["specs"], op["ds"], op["fmt"]), [cl[t] for t in clss], do_plot=plots,
                                 dataset_reader_class=PairedCompDatasetReader if pc else RawDatasetReader, **opts)


def okey(sc, op):
    return "o|%s|%s" % (json.dumps(sc["specs"][op["ds"]], sort_keys=True), json.dumps({k: x for k, x in op.items() if k not in ("ds", "cancel", "axes")}, sort_keys=True))


def route(sc, root, op, plot=False):
    """The other ways to a model's result."""
    import numpy as np
    from sureal import routine, dataset_reader as dr
    cls = classes()[op["cls"]]
    spec = sc["specs"][op["ds"]]
    opts = json.loads(json.dumps(op["opts"]))
    p = ds_file(root, sc["specs"], op["ds"], "py")
    if op["how"] == "file":
        kw = {} if op["sub"] is None or spec["kind"] == "pc" else dict(content_ids=[spec["refs"][0]["content_id"]]) if op["sub"] == 0 else dict(
            asset_ids=[v["asset_id"] for v in spec["dis"][:-1]])
        return cls.from_dataset_file(p, **kw).run_modeling(**opts)
    if op["how"] == "stats":
        return routine.get_sample_stats([dict(path=p)], [cls], do_plot=plot, plot_type="errorbar" if op["sd"] else "bar", subj_fraction=op["frac"],
                                        random_seed=op["sd"])[0][0]
    E, S, C = len(spec["dis"]), spec["S"], len(spec["refs"])
    syn = dict(quality_scores=[1 + (7 * i) % 5 * .8 for i in range(E)], observer_bias=np.array([.1 * i for i in range(S)]), observer_inconsistency=np.array([.5] * S),
               content_bias=np.zeros(C), content_ambiguity=np.array([.3] * C), quality_scores_std=[.5] * E, quality_ambiguity=[.4] * E, seed=op["sd"])
    more = {} if op["miss"] is None else dict(missing_probability=op["miss"])
    return routine.validate_with_synthetic_dataset(dr.SyntheticRawDatasetReader, [cls], p, syn, axes(SYN_AXES) if plot else None,
                                                   **dict(opts, do_errorbar=bool(op["sd"]), **more))["results"]


def refs(sc):
    out = {}
    root = ROOT                                                                   # noqa

    def mref(op):
        def go():
            import os as _os
            _silence()
            rd = make_reader(sc["specs"][op["ds"]], op["reader"])
            m = classes()[op["cls"]](rd)
            opts = json.loads(json.dumps(op["opts"]))
            return solo(lambda: canon.canon(m.run_modeling(**opts)), 25000)
        return go

    def rref(op, t):
        def go():
            _silence()
            return solo(lambda: canon.canon(rsm(sc, root, op, [t], [])[2][0]),
                        25000)
        return go
    def oref(op):
        def go():
            _silence()
            return solo(lambda: canon.canon(route(sc, root, op)), 25000)
        return go
    for o in all_ops(sc):
        if o["op"] == "route":
            out[okey(sc, o)] = oref(o)
        elif o["op"] == "model":
            out[mkey(sc, o)] = mref(o)
        elif o["op"] == "rsm":
            for t in o["clss"]:
                out[rkey(sc, o, t)] = rref(o, t)
    return out


def _silence():
    import os as _os
    n = seams.R.os_open("/dev/null", _os.O_WRONLY)
    _os.dup2(n, 1)


def execute(sc, refs, root, explicit):
    import numpy as np
    import random as rnd
    import matplotlib.pyplot as plt
    cl = classes()
    d = Decider(sc["seed"], dict(p_switch=sc["p_switch"], p_switch_io=sc["p_io"], p_fault=sc["p_fault"], max_faults=2,
                                 fault_steps=["stdout"], fault_kinds=["EPIPE", "ENOSPC", "EIO"]), explicit)
    w = World(root=root, decider=d, seed=sc["seed"], target_prefixes=TARGETS)
    w.clock_jumps = sorted(map(tuple, sc["jumps"]))
    for i in range(len(sc["specs"])):
        for f in ("py", "json"):
            if not (f == "json" and sc["specs"][i]["kind"] == "pc"):
                ds_file(root, sc["specs"], i, f)
    shared = [make_reader(s) for s in sc["specs"]]
    shared_obj = [r.dataset for r in shared]
    kept = []                # (label, result, snapshot)
    last, models = {}, {}    # model object -> the results it may hold now; (thread, class, dataset, reader) -> model object
    st = dict(v=None, n=0)
    probes, outc = {}, []

    def bad(cls, msg):
        if st["v"] is None:
            st["v"] = viol(cls, msg)

    def check(label, op, res, ref, what):
        exp = ref[0]
        outc.append([label, res[0], res[1] if res[0] == "exc" else None])
        if res[0] == "ok":
            if exp[0] != "ok":
                bad("result-instead-of-error", "%s %s: returned, but alone it raises %s" % (label, what, exp[1:]))
            elif not canon.same(exp[1], res[1]):
                bad("different-result", "%s %s: %s" % (label, what, canon.diff(exp[1], res[1])))
        elif exp[0] == "ok":
            bad("error-instead-of-result", "%s %s: raised %s %s, but alone it returns" % (label, what, res[1], res[2]))
        elif exp[1] != res[1]:
            bad("different-error", "%s %s: raised %s, alone %s" % (label, what, res[1:], exp[1:]))

    def do(label, op):
        k = op["op"]
        if k == "rng":
            if op["seed"] is not None:
                np.random.seed(op["seed"])
                rnd.seed(op["seed"])
            np.random.rand(op["n"] + 1)
            rnd.random()
            w.yield_point("rng")
            return
        if k == "sleep":
            w.sleep(op["s"])
            return
        if k == "convert":
            w.begin_op(label)
            outcome(lambda: convert(op))
            w.end_op()
            return
        cancel = None
        fired0 = dict(d.fired)
        nf = len(d.faults)
        if k == "model":
            ref = refs[mkey(sc, op)]
            if ref[0][1] == "Cancelled":
                bump(probes, "skipped_too_long")
                return
            if op.get("cancel"):
                cancel = (max(1, int(op["cancel"][0] * ref[1])), op["cancel"][1])
            rd = shared[op["ds"]] if op["reader"] == "shared" else make_reader(sc["specs"][op["ds"]], op["reader"],
                                                                               shared_obj[op["ds"]] if len(label) % 2 else None)
            m, mk = None, (op["cls"], op["ds"], op["reader"])
            if op.get("reuse"):            # run a model object of this thread (after the threads: of any thread) once more
                for k2, x in models.items():
                    if k2[1:] == mk and (k2[0] == label.split(".")[0] or label.startswith("tail")):
                        m = x
                        bump(probes, "model_reused")
            if m is None:
                m = cl[op["cls"]](rd)
            models[(label.split(".")[0],) + mk] = m
            del rd
            for rep in range(2 if op["again"] else 1):
                opts = json.loads(json.dumps(op["opts"]))
                w.begin_op("%s.%d" % (label, rep), cancel)
                res = outcome(lambda: m.run_modeling(**opts))
                w.end_op()
                st["n"] += 1
                hit = faulted("%s.%d" % (label, rep)) or (cancel and res[0] == "exc")
                if res[0] == "ok":
                    snap = canon.canon(res[1])
                    check(label, op, ("ok", snap), ref, op["cls"])
                    kept.append((label, res[1], snap))
                    last[id(m)] = (label + " model_result", m, [snap])
                elif not hit:
                    check(label, op, res, ref, op["cls"])
                else:
                    bump(probes, "interrupted_runs")
                    outc.append([label, "interrupted", res[1]])
                    if id(m) in last and ref[0][0] == "ok":      # cut off before or after keeping its result
                        last[id(m)][2].append(ref[0][1])
                cancel = None
            return
        if k == "route":
            ref = refs[okey(sc, op)]
            if ref[0][1] == "Cancelled":
                bump(probes, "skipped_too_long")
                return
            if op.get("cancel"):
                cancel = (max(1, int(op["cancel"][0] * ref[1])), op["cancel"][1])
            if op.get("axes"):
                w.enter_atomic()
            w.begin_op(label, cancel)
            res = outcome(lambda: route(sc, root, op, bool(op.get("axes"))))
            w.end_op()
            if op.get("axes"):
                plt.close("all")
                w.exit_atomic()
                bump(probes, "plotted")
            st["n"] += 1
            bump(probes, "route_%s_%s" % (op["how"], res[0]))
            if res[0] == "ok":
                snap = canon.canon(res[1])
                check(label, op, ("ok", snap), ref, "%s %s" % (op["how"], op["cls"]))
                kept.append((label, res[1], snap))
            elif not (faulted(label) or cancel or op.get("axes")):
                check(label, op, res, ref, "%s %s" % (op["how"], op["cls"]))
            else:
                bump(probes, "interrupted_runs")
            return
        if k == "rsm":
            rr = [refs[rkey(sc, op, t)] for t in op["clss"]]
            if any(r[0][1] == "Cancelled" for r in rr):
                bump(probes, "skipped_too_long")
                return
            if op.get("cancel"):
                cancel = (max(1, int(op["cancel"][0] * sum(r[1] for r in rr))), op["cancel"][1])
            if op["plots"]:
                w.enter_atomic()
            w.begin_op(label, cancel)
            res = outcome(lambda: rsm(sc, root, op, op["clss"], op["plots"]))
            w.end_op()
            if op["plots"]:
                plt.close("all")
                w.exit_atomic()
                bump(probes, "plotted")
            st["n"] += 1
            if res[0] == "ok":
                _, ms, results = res[1]
                for t, r, x, m in zip(op["clss"], rr, results, ms):
                    snap = canon.canon(x)
                    check(label, op, ("ok", snap), r, "run_subjective_models " + t)
                    kept.append((label, x, snap))
            elif not (faulted(label) or cancel):
                if not op["plots"] or all(r[0][0] != "ok" for r in rr):
                    if not any(r[0][0] != "ok" for r in rr):
                        check(label, op, res, rr[0], "run_subjective_models")
            else:
                bump(probes, "interrupted_runs")

    def faulted(label):
        return any(f[0] == label for f in d.faults)

    def convert(op):
        r = shared[op["ds"]]
        n = len(sc["specs"][op["ds"]]["dis"])
        if op["how"] == "agg":
            r.to_aggregated_dataset(list(range(n)))
        elif op["how"] == "pc":
            r.to_pc_dataset(sampling_seed=1, sampling_rate=.5)
        elif op["how"] == "dict":
            r.to_dictionary_style_dataset()
        elif op["how"] == "persub":
            r.to_persubject_dataset(r.opinion_score_3darray[:, :, 0])
        elif op["how"] == "format":
            from sureal.routine import format_output_of_run_subjective_models
            m = cl["MOS"](r)
            format_output_of_run_subjective_models(r.dataset, [m], [dict(m.run_modeling(), dis_video_names=["x"] * n)])

    def thread(ti):
        def go():
            for oi, op in enumerate(sc["threads"][ti]):
                do("t%d.%d" % (ti, oi), op)
        return go
    seams.set_world(w)
    old = sys.stdout
    sys.stdout = Stdout()
    np.random.seed(sc["seed"] % 2**31)
    rnd.seed(sc["seed"])
    try:
        w.run_threads([("t%d" % i, thread(i)) for i in range(len(sc["threads"]))])
        d.cfg["p_fault"] = 0
        if sc["tail"]:
            w.run_threads([("tail", lambda: [do("tail.%d" % i, o) for i, o in enumerate(sc["tail"])])])
    finally:
        sys.stdout = old
        seams.set_world(None)
    for label, o, snap in kept:
        now = canon.canon(o)
        if not canon.same(now, snap):
            bad("kept-result-changed", "%s: a returned result was changed later: %s" % (label, canon.diff(snap, now)))
    for label, m, snaps in last.values():
        if not any(canon.same(canon.canon(m.model_result), x) for x in snaps):
            bad("kept-result-changed", "%s: changed later: %s" % (label, canon.diff(snaps[0], canon.canon(m.model_result))))
        elif sc["specs"][0]["kind"] != "pc":
            a = outcome(lambda: [v["groundtruth"] for v in m.to_aggregated_dataset().dis_videos])
            q = m.model_result["quality_scores"]
            if a[0] == "ok" and np.ndim(q) == 1 and not canon.same(canon.canon(list(q)), canon.canon(a[1])):
                bad("kept-result-changed", "%s: aggregated scores %r are not the model's %r" % (label, a[1], q))
    bump(probes, "model_runs", st["n"])
    if len(sc["threads"]) > 1 and w.switch_count > 2:
        bump(probes, "overlapping_runs")
    if w.jumps_fired:
        bump(probes, "clock_stepped", w.jumps_fired)
    return dict(viol=st["v"], record=d.record(), hash=loghash([w.log, outc, [k[2] for k in kept]]), faults=d.fired, probes=probes,
                sim_time=w.mono - 1000.0, steps=w.steps, ops=st["n"], switches=w.switch_count,
                nontrivial=st["n"] >= 2, sample=dict(threads=sc["threads"], p_switch=sc["p_switch"]),
                trace=[str(x) for x in w.log[-300:]] + [str(x) for x in outc])

"""C03 operations never alter what they are given."""
import json
import os
import random
import sys
import types

from .. import seams, gen, canon
from ..world import World, Decider, Hang
from .common import *
from . import c01

ID = "C03"
TECHNIQUE = "seeded line-level schedules, interruptions and write faults over operations that share datasets, with snapshots of all inputs compared at every context switch and after every operation"
LEVEL_NOTE = "seeded search; real readers, converters, models and exporters; inputs are watched at every switch between threads"
RUNS = dict(quick=2500, thorough=100000)
WALL = dict(quick=200, thorough=1500)
RULE = ("a case is one seeded history of reads, conversions, exports, model runs and metric evaluations that share datasets, readers and "
        "option values, in one to three threads, some interrupted at a chosen line or with a failing disk, with the caller scribbling on "
        "what it got; non-trivial when at least two operations used the same dataset")
COMPONENTS = dict(real=["sureal.dataset_reader", "sureal.subjective_model", "sureal.pc_subjective_model", "sureal.experimental", "sureal.routine",
                        "sureal.perf_metric", "numpy, scipy"],
                  stub=["thread scheduler", "disk (real files behind a simulated layer)", "clocks", "standard output"])
ASSUMPTIONS = ["datasets hold plain data (numbers, strings, lists, tuples, dicts)",
               "extra attributes of a dataset (name, subject list) may be shared between a source and its conversions; videos and scores may not"]

MODELS = ["MOS", "DMOS", "MLE_CO_AP", "SR_MOS", "ZS_SR_DMOS", "PERSUBJECT", "BR_SR_MOS", "Subject_MLE_Projection", "P910", "BT500",
          "LIVE_DMOS", "LS", "MLE_CO", "MLE"]
METRICS = ["RmsePerfMetric", "SrccPerfMetric", "PccPerfMetric", "KendallPerfMetric"]
READERS = ["raw", "raw", "select", "selectdis", "synthetic", "logistic", "missing", "corruptsubj", "corruptdata"]


def generate(rng, tier):
    pc = rng.random() < .12
    mk = (lambda: gen.pc_spec(rng)) if pc else (lambda: gen.raw_spec(rng, small=True))
    specs = [mk()]
    if rng.random() < .6:
        specs.append(rng.choice([lambda: c01.perturb(rng, specs[0]), mk])())
    readers = [dict(ds=i, kind="pc" if pc else "raw") for i in range(len(specs))]
    for _ in range(rng.choice([0, 1, 2, 3]) if not pc else 0):
        i = rng.randrange(len(specs))
        s = specs[i]
        k = rng.choice(READERS)
        readers.append(dict(ds=i, kind=k, seed=rng.choice([None, rng.randrange(99)]), behavior=rng.choice(
            [None, "shuffle", "flip", "min", "mid", "max", "constant"]), prob=rng.choice([None, .3, .7]),
            subj=rng.sample(range(s["S"]), rng.randint(1, s["S"])), dis=rng.sample(range(len(s["dis"])), rng.randint(2, len(s["dis"]))),
            nums=[round(rng.uniform(1, 4), 3) for _ in range(len(s["dis"]) + 2 * s["S"] + 2 * len(s["refs"]))]))
    nth = rng.choice([1, 1, 2, 2, 3])
    pal = [rng.choice(c01.PC if pc else MODELS) for _ in range(2)]

    def op():
        r = rng.random()
        o = dict(r=rng.randrange(len(readers)))
        if r < .15:
            o.update(op="read")
        elif r < .65 and not pc:
            how = rng.choice(["agg", "agg", "persub", "pc", "pc", "comb", "comb", "dict", "dict", "tods", "file"])
            o.update(op="conv", how=how, file=rng.random() < .25, r2=rng.randrange(len(readers)), size=rng.choice([None, 1, 2]),
                     n=[round(rng.uniform(1, 5), 3) for _ in range(3)], aids=rng.choice([None, None, [0, 1], [1, 2, 5]]),
                     std=rng.random() < .3, arr=rng.random() < .4,
                     pcopt=rng.choice([{}, {}, dict(sampling_seed=3, sampling_rate=.5), dict(pc_type="within_subject"),
                                       dict(tiebreak_method="coin_toss"), dict(per=1, noise=1), dict(per=1, coin=1), dict(per=1, mean=1),
                                       dict(pc_type="bad")]))
        elif r < .8:
            t = rng.choice(pal)
            opts = c01.model_opts(rng, t)
            if t in c01.SLOW:
                opts["delta_thr"] = .3
            o.update(op="model", cls=t, opts=opts, agg=rng.random() < .5)
        elif r < .88 and not pc:
            o.update(op="rsm", plots=rng.choice([[rng.choice(c01.PLOTS)], [rng.choice(c01.PLOTS), rng.choice(c01.PLOTS)], "all"]) if rng.random() < .12 else [],
                     axd=rng.random() < .4, ds=rng.randrange(len(specs)), cls=[rng.choice(MODELS[:8]) for _ in range(rng.choice([1, 2]))],
                     reader=rng.choice(["raw", "select"]), transform=rng.choice([None, dict(p1=2.0, p0=1.0)]))
        elif r < .91 and not pc:
            o.update(op="validate", axes=rng.random() < .15, ds=rng.randrange(len(specs)), cls=rng.choice(["MOS", "MLE_CO_AP", "Subject_MLE_Projection"]),
                     miss=rng.choice([None, .3]), out=rng.random() < .5, seed=rng.choice([None, 3]))
        elif r < .95:
            o.update(op="metric", cls=rng.choice(METRICS), map=rng.random() < .5, arr=rng.random() < .5,
                     n=[round(rng.uniform(1, 5), 3) for _ in range(rng.randint(8, 16))])
        else:
            o.update(op="export")
        if rng.random() < .2:
            o["cancel"] = [rng.choice([rng.randint(1, 40), rng.randint(1, 300)]), rng.choice(["KeyboardInterrupt", "MemoryError", "Cancelled"])]
        o["scribble"] = rng.random() < .5
        return o
    return dict(specs=specs, readers=readers, threads=[[op() for _ in range(rng.randint(2, 7 if nth == 1 else 4))] for _ in range(nth)],
                p_switch=rng.choice([.01, .05, .2]), p_io=.3, p_fault=rng.choice([0, 0, .1, .3]), bufsize=rng.choice([64, 600, 8192]))


def op_lists(sc):
    return [["threads", i] for i in range(len(sc["threads"]))]


def strict(x):
    """exact, type-aware text of plain data"""
    import numpy as np
    if isinstance(x, np.ndarray):
        return "nd(%s,%s,%s)" % (x.dtype, x.shape, strict(x.tolist()))
    if isinstance(x, np.generic):
        return "%s(%r)" % (type(x).__name__, x.item())
    if isinstance(x, dict):
        return "{%s}" % ",".join("%s:%s" % (strict(k), strict(v)) for k, v in x.items())
    if isinstance(x, list):
        return "[%s]" % ",".join(map(strict, x))
    if isinstance(x, tuple):
        return "(%s)" % ",".join(map(strict, x))
    if x is None or isinstance(x, (int, float, str, bytes, bool)):
        return repr(x)
    return "<%s>" % type(x).__name__


def ds_snap(d):
    return repr([(k, v) for k, v in vars(d).items() if not k.startswith("__")])


def make(r, spec, obj):
    import numpy as np
    from sureal import dataset_reader as dr
    k = r["kind"]
    if k in ("raw", "pc"):
        return c01.make_reader(spec, obj=obj), None
    S, E, C = spec["S"], len(spec["dis"]), len(spec["refs"])
    if k in ("synthetic", "logistic"):
        n = r["nums"]
        d = dict(quality_scores=list(n[:E]), observer_bias=np.array(n[E:E + S]), observer_inconsistency=np.array(n[E + S:E + 2 * S]),
                 content_bias=np.array(n[E + 2 * S:E + 2 * S + C]), content_ambiguity=np.array(n[E + 2 * S + C:E + 2 * S + 2 * C]), seed=r["seed"])
        return (dr.SyntheticRawDatasetReader if k == "synthetic" else dr.SyntheticLogisticRawDatasetReader)(obj, input_dict=d), d
    if k == "missing":
        d = dict(missing_probability=.2, seed=r["seed"])
        return dr.MissingDataRawDatasetReader(obj, input_dict=d), d
    if k == "select":
        d = dict(selected_subjects=list(r["subj"]) if r["prob"] else np.array(r["subj"]))
        return dr.SelectSubjectRawDatasetReader(obj, input_dict=d), d
    if k == "selectdis":
        d = dict(selected_dis_videos=list(r["dis"]))
        return dr.SelectDisVideoRawDatasetReader(obj, input_dict=d), d
    if k == "corruptsubj":
        d = dict(selected_subjects=list(r["subj"]), corrupt_behavior=r["behavior"], corrupt_probability=r["prob"])
        return dr.CorruptSubjectRawDatasetReader(obj, input_dict=d), d
    d = dict(corrupt_probability=.3)
    return dr.CorruptDataRawDatasetReader(obj, input_dict=d), d


def scribble_nested(v):
    for k, x in v.items():
        if k in ("os", "groundtruth"):
            continue
        if isinstance(x, list):
            x.append(-77)
        elif isinstance(x, dict):
            scribble_nested(x)
            x["scribble"] = -77


def scribble_ds(d):
    for v in d.dis_videos + d.ref_videos:
        scribble_nested(v)
    for v in d.dis_videos:
        o = v.get("os")
        if isinstance(o, dict):
            for k in list(o):
                if isinstance(o[k], list):
                    o[k].append(-77)
                else:
                    o[k] = -77
            o["scribble"] = -77
        elif isinstance(o, list):
            for i, x in enumerate(o):
                if isinstance(x, list):
                    x.append(-77)
                elif hasattr(x, "fill"):
                    x.fill(-77)
                else:
                    o[i] = -77
            o.append(-77)
        g = v.get("groundtruth")
        if isinstance(g, list):
            g[:] = [-77]
        elif hasattr(g, "fill"):
            g.fill(-77)
        v["scribble"] = [1]
        v["content_id"] = -77
    for v in d.ref_videos:
        v["content_name"] = "scribble"
    d.dis_videos.append({})
    d.ref_videos.append({})


def execute(sc, refs, root, explicit):
    import numpy as np
    import random as rnd
    from sureal import dataset_reader as dr, perf_metric, routine
    import matplotlib.pyplot as plt
    cl = c01.classes()
    d = Decider(sc["seed"], dict(p_switch=sc["p_switch"], p_switch_io=sc["p_io"], p_fault=sc["p_fault"], max_faults=2,
                                 fault_steps=["write", "open_w", "close", "rename", "fsync"],
                                 fault_kinds=["nospace", "EIO", "ENOSPC", "short"]), explicit)
    w = World(root=root, decider=d, seed=sc["seed"], target_prefixes=TARGETS, bufsize=sc["bufsize"])
    specs = sc["specs"]
    for i, s in enumerate(specs):
        gen.write("%s/d%d.py" % (root, i), gen.as_py(s))
    objs = [gen.as_object(s) for s in specs]
    watched = []                      # [name, object, snapshot function, snapshot]
    st = dict(v=None, n=0)
    probes, outc = {}, []
    used = {}

    def bad(cls, msg):
        if st["v"] is None:
            st["v"] = viol(cls, msg)

    def watch(name, o, f=strict):
        e = [name, o, f, f(o)]
        watched.append(e)
        return e
    for i, o in enumerate(objs):
        watch("dataset %d" % i, o, ds_snap)
    readers = []
    for i, r in enumerate(sc["readers"]):
        try:
            rd, idict = make(r, specs[r["ds"]], objs[r["ds"]])
        except Exception as e:
            rd, idict = c01.make_reader(specs[r["ds"]], obj=objs[r["ds"]]), None
            bump(probes, "reader_fallback:" + type(e).__name__)
        readers.append(rd)
        if idict is not None:
            watch("input_dict of reader %d (%s)" % (i, r["kind"]), idict)
    first = {}

    def stable(i):
        r = sc["readers"][i]
        return r["kind"] in ("raw", "pc", "select", "selectdis") or (r["kind"] in ("synthetic", "logistic", "missing") and r["seed"] is not None)

    def scan(where):
        for e in watched:
            now = e[2](e[1])
            if now != e[3]:
                a, b = e[3], now
                k = next((j for j in range(min(len(a), len(b))) if a[j] != b[j]), min(len(a), len(b)))
                bad("input-altered", "%s: %s was altered: ...%s... became ...%s..." % (where, e[0], a[max(0, k - 60):k + 80], b[max(0, k - 60):k + 80]))
                e[3] = now
        for i, rd in enumerate(readers):
            if rd.dataset is not objs[sc["readers"][i]["ds"]]:
                bad("reader-altered", "%s: reader %d has another dataset" % (where, i))
    w.on_switch = lambda: scan("at a switch between threads") if st["v"] is None else None

    def arg(name, v, f=strict):
        """an input of one operation: watched from now to the end"""
        watch(name, v, f)
        return v

    def names(axes):
        return sorted((k, id(v)) for k, v in axes.items())

    def do(label, op):
        r = readers[op["r"]]
        ri = sc["readers"][op["r"]]
        s = specs[ri["ds"]]
        bump(used, ri["ds"])
        k = op["op"]
        E = len(r.dis_videos) if hasattr(r, "dis_videos") else 0
        res_ds, res_arr = [], []

        def conv():
            how = op["how"]
            kw = {}
            if op["size"]:
                kw = dict(quality_width=op["size"] * 100, quality_height=None)
            path = "%s/out_%s.py" % (root, label)
            if how == "agg":
                sc_ = [op["n"][j % 3] + j for j in range(E)]
                if op["arr"]:
                    sc_ = np.array(sc_) if op["std"] else np.array([[x, x] for x in sc_])
                sc_ = arg(label + " aggregate_scores", sc_)
                if op["std"]:
                    kw["scores_std"] = arg(label + " scores_std", [.1 * j for j in range(E)])
                if op["aids"]:
                    kw["aggregate_asset_ids"] = arg(label + " asset ids", list(op["aids"]))
                if op["file"]:
                    return r.to_aggregated_dataset_file(path, sc_, **kw)
                return r.to_aggregated_dataset(sc_, **kw)
            if how == "persub":
                m = arg(label + " quality_scores", r.opinion_score_3darray[:, :, 0])
                return r.to_persubject_dataset_file(path, m, **kw) if op["file"] else r.to_persubject_dataset(m, **kw)
            if how == "pc":
                po = dict(op["pcopt"])
                if po.pop("per", None):
                    l = arg(label + " per-asset list", [.1 + .05 * j for j in range(E)])
                    po = {{"noise": "per_asset_noise_levels", "coin": "per_asset_cointoss_rates", "mean": "per_asset_mean_scores"}[
                        list(po)[0]]: l}
                po.update(kw)
                return r.to_pc_dataset_file(path, **po) if op["file"] else r.to_pc_dataset(**po)
            if how == "comb":
                r2 = readers[op["r2"]]
                if op["file"]:
                    return r.to_combined_overlap_dataset_file(path, r2, **kw)
                return r.to_combined_overlap_dataset(r2, **kw)
            if how == "dict":
                return r.to_dictionary_style_dataset_file(path, **kw) if op["file"] else r.to_dictionary_style_dataset(**kw)
            if how == "tods":
                return r.to_dataset()
            c, a = arg(label + " content_ids", [0, 1]), arg(label + " asset_ids", [0, 1, 2])
            m = cl["MOS"].from_dataset_file("%s/d%d.py" % (root, ri["ds"]), c, a)
            m.run_modeling()
            return m.to_aggregated_dataset()

        def go():
            if k == "read":
                a = r.opinion_score_3darray
                res_arr.append(a)
                return a
            if k == "conv":
                x = conv()
                if x is not None:
                    res_ds.append(x)
                return x
            if k == "model":
                opts = arg(label + " options", json.loads(json.dumps(op["opts"])))
                m = cl[op["cls"]](r)
                x = m.run_modeling(**opts)
                if isinstance(x.get("raw_scores"), np.ndarray):
                    res_arr.append(x["raw_scores"])
                if op["agg"] and s["kind"] != "pc":
                    res_ds.append(m.to_aggregated_dataset())
                return x
            if k == "rsm":
                info = arg(label + " reader info", {"selected_subjects": [0, 1, 2]} if op["reader"] == "select" else {})
                lst = arg(label + " classes", [cl[t] for t in op["cls"]], lambda l: str([c.__name__ for c in l]))
                kw = {}
                if op["transform"]:
                    kw["transform_final"] = arg(label + " transform_final", dict(op["transform"]))
                kw["do_plot"] = arg(label + " do_plot", op["plots"] if op["plots"] == "all" else list(op["plots"]))
                kw["raw_score_residue_range"] = arg(label + " range", [None, 3])
                kw["ax_dict"] = arg(label + " ax_dict", c01.axes(c01.RSM_AXES) if op["plots"] and op["axd"] else {}, names)
                return routine.run_subjective_models("%s/d%d.py" % (root, op["ds"]), lst, dataset_reader_class=dr.RawDatasetReader if
                                                     op["reader"] == "raw" else dr.SelectSubjectRawDatasetReader,
                                                     dataset_reader_info_dict=info, **kw)
            if k == "validate":
                s2 = specs[op["ds"]]
                S, E2, C = s2["S"], len(s2["dis"]), len(s2["refs"])
                syn = arg(label + " synthetic_result", dict(
                    quality_scores=[1.0 + .3 * j for j in range(E2)], observer_bias=np.linspace(-1, 1, S),
                    observer_inconsistency=np.linspace(.1, .5, S), content_bias=np.zeros(C), content_ambiguity=np.ones(C) * .2,
                    quality_scores_std=[.5] * E2, quality_ambiguity=[.4] * E2, seed=op["seed"]))
                more = dict(color_dict=arg(label + " color_dict", {op["cls"]: "blue"}), marker_dict=arg(label + " marker_dict", {}))
                if op["miss"] is not None:
                    more["missing_probability"] = op["miss"]
                if op["out"]:
                    more["output_synthetic_dataset_filepath"] = "%s/syn_%s.py" % (root, label)
                return routine.validate_with_synthetic_dataset(dr.SyntheticRawDatasetReader, arg(label + " classes", [cl[op["cls"]]], lambda l: str(l)),
                                                               "%s/d%d.py" % (root, op["ds"]), syn, arg(label + " ax_dict", c01.axes(c01.SYN_AXES) if op["axes"] else {}, names), **more)
            if k == "metric":
                g = list(op["n"])
                p = [x * 1.1 + (j % 3) * .2 for j, x in enumerate(g)]
                if op["arr"]:
                    g, p = np.array(g), np.array(p)
                g, p = arg(label + " groundtruths", g), arg(label + " predictions", p)
                return getattr(perf_metric, op["cls"])(g, p).evaluate(enable_mapping=op["map"])
            return r.write_out_dataset(objs[ri["ds"]], "%s/exp_%s.py" % (root, label))
        plotted = bool(op.get("plots") or op.get("axes"))
        if plotted:                                     # matplotlib is not for use by several threads at a time
            w.enter_atomic()
        w.begin_op(label, tuple(op["cancel"]) if op.get("cancel") else None)
        res = outcome(go)
        w.end_op()
        plt.close("all")
        if plotted:
            w.exit_atomic()
            bump(probes, "plotted")
        st["n"] += 1
        outc.append([label, k, res[0], res[1] if res[0] == "exc" else None])
        if res[0] == "exc":
            bump(probes, "failed_or_interrupted")
            bump(probes, "exc_%s_%s" % (k, op.get("how", "")))
        else:
            bump(probes, "ok_%s_%s" % (k, op.get("how", "")))
        scan("after %s (%s %s)" % (label, k, op.get("how", op.get("cls", ""))))
        if k == "read" and res[0] == "ok" and stable(op["r"]):
            now = strict(res[1])
            if first.setdefault(op["r"], now) != now:
                bad("reading-changed", "%s: reader %d (%s) now gives other scores than before" % (label, op["r"], ri["kind"]))
        # the caller does as it likes with what it got
        for a in res_arr:
            if op["scribble"]:
                a.fill(-55)
                bump(probes, "scribbled")
                scan("scribbling on the scores returned by %s" % label)
            else:
                watch("score array returned by " + label, a)
        for x in res_ds:
            if any(x is o for o in objs):
                if k == "conv" and op["how"] in ("tods", "dict"):
                    continue
                bad("source-returned", "%s: %s %s returned the source dataset itself" % (label, k, op.get("how", "")))
                continue
            if op["scribble"]:
                scribble_ds(x)
                bump(probes, "scribbled")
                scan("scribbling on the dataset returned by %s (%s %s)" % (label, k, op.get("how", op.get("cls", ""))))
            else:
                watch("dataset returned by %s" % label, x, lambda o: strict([getattr(o, "ref_videos", 0), getattr(o, "dis_videos", 0)]))

    def thread(ti):
        def go():
            for oi, op in enumerate(sc["threads"][ti]):
                do("t%d.%d" % (ti, oi), op)
        return go
    np.random.seed(sc["seed"] % 2**31)
    rnd.seed(sc["seed"])
    seams.set_world(w)
    old = sys.stdout
    sys.stdout = c01.Stdout()
    try:
        w.run_threads([("t%d" % i, thread(i)) for i in range(len(sc["threads"]))])
    finally:
        sys.stdout = old
        seams.set_world(None)
    scan("at the end")
    for i, rd in enumerate(readers):
        if stable(i):
            now = outcome(lambda: strict(rd.opinion_score_3darray))
            if now[0] == "ok" and i in first and now[1] != first[i]:
                bad("reading-changed", "reader %d now gives other scores than before" % i)
    bump(probes, "operations", st["n"])
    if w.switch_count > 2:
        bump(probes, "overlapping")
    return dict(viol=st["v"], record=d.record(), hash=loghash([w.log, outc]), faults=d.fired, probes=probes,
                sim_time=w.mono - 1000.0, steps=w.steps + w.io_total, ops=st["n"], switches=w.switch_count,
                nontrivial=max(used.values() or [0]) >= 2, sample=dict(readers=[r["kind"] for r in sc["readers"]], threads=sc["threads"]),
                trace=[str(x) for x in w.log[-200:]] + [str(x) for x in outc])

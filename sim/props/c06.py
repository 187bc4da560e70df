"""C06 exported dataset files."""
import json
import os

from .. import seams, gen, canon
from ..procs import Cluster
from ..world import World, Decider, Hang
from .common import *
from . import c01, c03

ID = "C06"
TECHNIQUE = "seeded schedules of exporting and loading processes and threads on shared paths, with crash, torn or short write, full disk or I/O error at any I/O step; the file is inspected after every step and compared with the exported dataset"
LEVEL_NOTE = "seeded search; real exporters and loader on real files behind a simulated raw layer; every intermediate file content is judged"
RUNS = dict(quick=2200, thorough=100000)
WALL = dict(quick=200, thorough=1500)
RULE = ("a case is one seeded history of exports (all kinds) and loads on one to three paths (missing, holding an older export, behind a link, "
        "in a missing directory) by up to three processes and two threads each, over several generations, with faults and crashes at drawn I/O "
        "steps and a fault-free recovery; non-trivial when at least two exports ended")
COMPONENTS = dict(real=["sureal.dataset_reader exporters", "sureal.subjective_model to_aggregated_dataset_file", "sureal.routine validate_with_synthetic_dataset",
                        "sureal.tools.misc import_python_file, atomic_write", "Linux file system (scratch)"],
                  stub=["process and thread scheduler", "raw file I/O results", "entropy and process ids"])
ASSUMPTIONS = ["datasets hold plain data: numbers, strings, None, lists, tuples, dicts, numpy arrays and numbers",
               "a crash is the death of a process (what it handed to the kernel survives) or a loss of power (names survive, data as far as they were fsynced)"]

KINDS = ["agg", "agg", "agg2", "aggnan", "persub", "pc", "pc", "comb", "dict", "dict", "synthetic", "missing", "raw", "raw", "model", "validate"]
ODD = [("note", "it's \"quoted\" \\ back\\n"), ("note", "line1\nline2\ttab"), ("comment", "é ü 漢字"), ("license", "MIT " * 40), ("license", "BSD"),
       ("subjects", [{"name": "ann", "age": 3}, {"name": "bob", "age": None}]), ("subjects", {"ann": {"g": "f"}}), ("undistorted_yuv_fmt", None),
       ("limits", [float("inf"), -float("inf"), -0.0, 1e300]), ("nothing", float("nan")), ("big", 2 ** 80), ("flags", (True, False, ())),
       ("table", {"a": [1.5, {"b": (1, 2)}], 3: "x", (1, "t"): None}), ("long_text", "word " * 60), ("eps", 1 / 3), ("empty", []), ("b", b"bytes\x00\xff"),
       ("resampling_type", "lanczos"), ("width2", 10 ** 6)]


NAMES = ["subjects", "subjects", "license", "license", "note", "_private", "yuv_fmt", "resampling_type", "crop_cmd", "Upper", "x1", "quality_height",
         "os", "groundtruth", "ref_video", "dis_video", "version_", "bitdepth"]


def rand_value(rng, depth=0):
    """arbitrary plain data"""
    r = rng.random()
    if r < .55 or depth > 4:
        return rng.choice([lambda: None, lambda: True, lambda: False, lambda: 0, lambda: "", lambda: [], lambda: {}, lambda: (), lambda: rng.randint(-9, 9),
                           lambda: rng.uniform(-5, 5), lambda: rng.choice([1e-320, 1e22, 123456789.123456789, .1 + .2, -1e-7, float("nan"), float("inf")]),
                           lambda: 10 ** rng.randint(3, 40), lambda: "".join(rng.choice("ab'\"\\\n\t #{}é漢%") for _ in range(rng.randint(1, 12))),
                           lambda: "w%d " % rng.randint(0, 9) * rng.randint(1, 40), lambda: rng.choice(["None", "nan", "1", "True", "[]"])])()
    if r < .75:
        return [rand_value(rng, depth + 1) for _ in range(rng.choice([1, 1, 2, 3, 30]) if depth < 3 else 1)]
    if r < .85:
        return tuple(rand_value(rng, depth + 1) for _ in range(rng.choice([1, 2, 3])))
    return {rng.choice(["a", "B", "z 1", "os", 3, -1, 2.5, (1, "t"), "", None, True, "\u2028"]): rand_value(rng, depth + 1) for _ in range(rng.randint(1, 4))}


def odd_attr(i):
    """a listed attribute, or one drawn from its own seed"""
    if i < len(ODD):
        return ODD[i]
    g = random.Random("odd/%d" % i)
    return g.choice(NAMES), big_value(g) if g.random() < .25 else rand_value(g)


def big_value(g):
    """deep, long, or of numpy's types"""
    import numpy as np
    k = g.randrange(12)
    if k == 0:
        x = g.choice([1, "x", None, float("nan")])
        for i in range(g.choice([7, 12, 30])):
            x = g.choice([lambda: [x], lambda: {"k": x}, lambda: (x, i), lambda: [i, x]])()
        return x
    if k == 1:
        return [g.randrange(1000) for _ in range(g.choice([90, 400, 3000]))]
    if k == 2:
        return {"key %d" % i: g.choice([i, str(i), (i,)]) for i in range(g.choice([60, 500]))}
    if k == 3:
        return "".join(g.choice("abcdefgh") for _ in range(g.choice([100, 3000])))
    if k == 4:
        return " ".join(g.choice(["it's", "\"so\"", "\\n", "long", "é"]) for _ in range(g.choice([30, 900])))
    if k == 5:
        return np.array([g.choice([g.gauss(0, 1), float("nan")]) for _ in range(g.choice([5, 1200]))])
    if k == 6:
        return np.array([[g.randrange(9) for _ in range(40)] for _ in range(40)], dtype=g.choice(["int64", "uint8", "float32", "float64"]))
    if k == 7:
        return {np.int64(3): np.float32(.1), np.float64(2.5): np.bool_(True), np.str_("s"): np.int8(-3)}
    if k == 8:
        return [np.float64("nan"), np.float32("inf"), np.float64(1e-300), np.float64(1 / 3), np.float32(1 / 3)]
    if k == 9:
        return tuple((i, (i, [i, (i,)])) for i in range(40))
    if k == 10:
        return {(i, "subject %d" % (i % 7)): g.choice([0, .5, 1]) for i in range(150)}
    return np.array(["a", "bb", "é'"])


def generate(rng, tier):
    specs = [gen.raw_spec(rng, small=True) for _ in range(rng.choice([1, 2]))]
    if rng.random() < .4:
        specs.append(c01.perturb(rng, specs[0]))
    odd = [[rng.randrange(len(ODD)) if rng.random() < .4 else rng.randrange(100, 10 ** 6) for _ in range(rng.choice([0, 1, 2, 3]))] for _ in specs]
    vid = [rng.choice([None, None, rng.randrange(10 ** 6)]) for _ in specs]
    exports = []
    for _ in range(rng.choice([1, 2, 2, 3])):
        exports.append(dict(kind=rng.choice(KINDS), ds=rng.randrange(len(specs)), ds2=rng.randrange(len(specs)), seed=rng.randrange(50),
                            std=rng.random() < .3, np=rng.random() < .4, qw=rng.choice([None, 100])))
    npath = rng.choice([1, 1, 2])
    paths = []
    for i in range(npath):
        paths.append(dict(p=rng.choice(["out.py", "sub/out.py", "oth er.py"]) if i == 0 else "second.py", init=rng.choice([None, None, "old", "text"]),
                          link=rng.random() < .15, nodir=rng.random() < .03))

    def op(n):
        r = rng.random()
        if r < .7:
            return dict(op="export", e=rng.randrange(len(exports)), p=rng.randrange(npath), rel=rng.random() < .2)
        return dict(op="load", p=rng.randrange(npath), rel=rng.random() < .2)
    phases = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        nn = rng.choice([1, 1, 2, 3])
        phases.append([[[op(nn) for _ in range(rng.randint(1, 3))] for _ in range(rng.choice([1, 1, 1, 2]))] for _ in range(nn)])
    kf = rng.choice([["crash"], ["crash", "torn"], ["power"], ["nospace", "ENOSPC"], ["EIO"], ["EMFILE", "EACCES"], ["INTR"], ["short"],
                     ["crash", "power", "torn", "nospace", "ENOSPC", "EIO", "EMFILE", "EACCES", "INTR", "short"]])
    return dict(specs=specs, odd=odd, vid=vid, exports=exports, paths=paths, phases=phases, p_io=rng.choice([.1, .3, .6]), p_switch=rng.choice([.01, .05]),
                p_fault=rng.choice([.02, .05, .15]) if rng.random() < .75 else 0, max_faults=rng.choice([1, 2, 3]), fault_kinds=kf,
                bufsize=rng.choice([64, 512, 8192]), chunk=rng.choice([100, 8192]),
                power=[i for i in range(1, len(phases) + 1) if rng.random() < .3] if rng.random() < .3 else [],
                walls=wall_steps(rng, len(phases) + 3) if rng.random() < .4 else [], encoding=locale_encoding(rng))


def op_lists(sc):
    out = [["phases"]]
    for i, p in enumerate(sc["phases"]):
        out.append(["phases", i])
        for j, n in enumerate(p):
            out.append(["phases", i, j])
            out += [["phases", i, j, k] for k in range(len(n))]
    return out


def plain(x):
    """Exact plain form: numpy to Python, tuples kept."""
    import numpy as np
    if isinstance(x, (np.ndarray, np.generic)):
        x = x.tolist()
    if isinstance(x, dict):
        return ["dict", sorted(([plain(k), plain(v)] for k, v in x.items()), key=repr)]
    if isinstance(x, (list, tuple)):
        return ["list" if isinstance(x, list) else "tuple"] + [plain(v) for v in x]
    if isinstance(x, float):
        return "nan" if x != x else (int(x) if x == int(x) and abs(x) < 1e15 else repr(x)) if abs(x) != float("inf") else repr(x)
    if isinstance(x, bool):
        return repr(x)
    return x if x is None or isinstance(x, (int, str)) else repr(x)


def whole(ds):
    return json.dumps(plain(canon.public(ds)))


def execute(sc, refs, root, explicit):
    import numpy as np
    from sureal import dataset_reader as dr, routine
    from sureal.tools.misc import import_python_file
    R = seams.R
    cl = c01.classes()
    objs = []
    for s, odd, vid in zip(sc["specs"], sc["odd"], sc["vid"]):
        o = gen.as_object(s)
        for i in odd:
            setattr(o, *odd_attr(i))
        if vid is not None:                    # arbitrary attributes of videos
            g = random.Random("vid/%d" % vid)
            for v in o.ref_videos + o.dis_videos:
                for _ in range(g.choice([0, 1, 2])):
                    v[g.choice(["fps", "yuv_fmt", "width", "extra", "start_frame", "note"])] = rand_value(g)
        objs.append(o)
    os.makedirs(root + "/in")
    for i, s in enumerate(sc["specs"]):
        gen.write("%s/in/d%d.py" % (root, i), gen.as_py(s))

    def reader(e):
        o, s = objs[e["ds"]], sc["specs"][e["ds"]]
        if e["kind"] == "synthetic":
            n = [.5 + .1 * j for j in range(99)]
            return c03.make(dict(kind="synthetic", nums=n, seed=e["seed"]), s, o)[0]
        if e["kind"] == "missing":
            return c03.make(dict(kind="missing", seed=e["seed"]), s, o)[0]
        return c01.make_reader(s, obj=o)

    def export(e, path):
        """path None: the dataset that the export stands for"""
        k = e["kind"]
        r = reader(e)
        kw = {} if e["qw"] is None else dict(quality_width=e["qw"])
        E = len(r.dis_videos)
        if k in ("agg", "agg2", "aggnan"):
            q = [1.0 + j / 3 for j in range(E)]
            if k == "aggnan":
                q[e["seed"] % E] = float("nan")
                q[(e["seed"] + 1) % E] = float("-inf")
            if k == "agg2":
                q = np.array([[x, x / 2] for x in q])
            elif e["np"]:
                q = np.array(q)
            if e["std"]:
                kw["scores_std"] = [float("nan")] + [.1 * j for j in range(1, E)]
            return r.to_aggregated_dataset(q, **kw) if path is None else r.to_aggregated_dataset_file(path, q, **kw)
        if k == "persub":
            m = np.array(r.opinion_score_3darray[:, :, 0], dtype=float)
            g = random.Random("persub/%d" % e["seed"])
            for _ in range(g.choice([0, 0, 1, 3])):        # scores a model could not tell
                m[g.randrange(m.shape[0]), g.randrange(m.shape[1])] = g.choice([float("nan"), float("nan"), float("inf"), 0.0, -1e-9])
            if e["np"]:
                m = m.tolist()
            return r.to_persubject_dataset(m, **kw) if path is None else r.to_persubject_dataset_file(path, m, **kw)
        if k == "pc":
            kw.update(sampling_seed=e["seed"], sampling_rate=.7)
            return r.to_pc_dataset(**kw) if path is None else r.to_pc_dataset_file(path, **kw)
        if k == "comb":
            r2 = c01.make_reader(sc["specs"][e["ds2"]], obj=objs[e["ds2"]])
            return r.to_combined_overlap_dataset(r2, **kw) if path is None else r.to_combined_overlap_dataset_file(path, r2, **kw)
        if k == "dict":
            return r.to_dictionary_style_dataset() if path is None else r.to_dictionary_style_dataset_file(path)
        if k == "model":
            m = cl[["MOS", "PERSUBJECT", "MLE_CO_AP", "SR_MOS"][e["seed"] % 4]](r)
            m.run_modeling()
            return m.to_aggregated_dataset(**kw) if path is None else m.to_aggregated_dataset_file(path, **kw)
        if k == "validate":
            s = sc["specs"][e["ds"]]
            S, C = s["S"], len(s["refs"])
            syn = dict(quality_scores=[1.0 + .3 * j for j in range(E)], observer_bias=np.linspace(-1, 1, S), observer_inconsistency=np.linspace(.1, .5, S),
                       content_bias=np.zeros(C), content_ambiguity=np.ones(C) * .2, seed=e["seed"])
            src = "%s/in/d%d.py" % (root, e["ds"])
            if path is None:
                return dr.SyntheticRawDatasetReader(import_python_file(src), input_dict=syn).to_dataset()
            return routine.validate_with_synthetic_dataset(dr.SyntheticRawDatasetReader, [cl["MOS"]], src, syn, {},
                                                           output_synthetic_dataset_filepath=path)
        ds = r.to_dataset()
        return ds if path is None else r.write_out_dataset(ds, path)
    expect = []
    for e in sc["exports"]:
        x = outcome(lambda: whole(export(e, None)))
        expect.append(x[1] if x[0] == "ok" else None)
    full, init = [], []
    v0 = None
    for p in sc["paths"]:
        f = os.path.join(root, p["p"])
        if not p["nodir"] or "/" not in p["p"]:
            os.makedirs(os.path.dirname(f), exist_ok=True)
            tgt = f
            if p["link"]:
                os.makedirs(root + "/elsewhere", exist_ok=True)
                tgt = root + "/elsewhere/t_" + os.path.basename(f)
                os.symlink(tgt, f)
            if p["init"] == "old":
                gen.write(tgt, gen.as_py(c01.perturb(__import__("random").Random(sc["seed"]), sc["specs"][0])))
            elif p["init"] == "text":
                gen.write(tgt, "ref_videos = []\ndis_videos = []\nnote = %r\n" % ("old " * 2000))
        full.append(f)
    judged = {}

    def content(i):
        try:
            with R.open(full[i], "rb") as fh:
                return fh.read()
        except OSError:
            return None

    def meaning(b):
        """('ds', exact form) of what the bytes load as, or ('broken', why)"""
        if b is None:
            return ("missing", None)
        if b not in judged:
            t = root + "/tmp/judge.py"
            with R.open(t, "wb") as fh:
                fh.write(b)
            try:
                m = import_python_file(t)
                m.ref_videos, m.dis_videos
                judged[b] = ("ds", whole(m))
            except BaseException as e:
                judged[b] = ("broken", "%s: %s" % (type(e).__name__, str(e)[:200]))
        return judged[b]
    init = [content(i) for i in range(len(full))]
    started = [set() for _ in full]         # expected forms of exports begun on the path
    last = list(init)
    open_ops, done = {}, [[] for _ in full]
    st = dict(v=None, n=0, ev=0)
    probes = {}
    cfg = dict(p_switch_io=sc["p_io"], p_fault=sc["p_fault"], fault_kinds=sc["fault_kinds"], max_faults=sc["max_faults"])
    d = Decider(sc["seed"], cfg, explicit)

    def bad(cls, msg):
        if st["v"] is None:
            st["v"] = viol(cls, msg)

    def observe(c):
        """after every step: new events, then the paths"""
        for e in c.events[st["ev"]:]:
            k = e["ev"]
            if k == "begin":
                open_ops[e["op"]] = dict(e, fault=False, alts=set())
                if e["what"] == "export" and expect[e["e"]] is not None:
                    started[e["p"]].add(expect[e["e"]])
                    for o in open_ops.values():
                        if o["what"] == "export" and o["p"] == e["p"]:
                            o["alts"].add(expect[e["e"]])
                            open_ops[e["op"]]["alts"].add(expect[o["e"]])
                if e["what"] == "load":
                    open_ops[e["op"]]["seen"] = {content(e["p"])}
            elif k == "fault":
                o = open_ops.get(e["op"])
                if o is not None and e["kind"] != "short":
                    o["fault"] = True
                bump(probes, "fault_at_" + e["io"])
            elif k == "end":
                o = open_ops.pop(e["op"])
                finish(e, o)
        st["ev"] = len(c.events)
        for i in range(len(full)):
            b = content(i)
            if b != last[i]:
                last[i] = b
                for o in open_ops.values():
                    if o["what"] == "load" and o["p"] == i:
                        o["seen"].add(b)
                bump(probes, "contents_seen")
                if b == init[i]:
                    continue
                m = meaning(b)
                if m[0] == "missing":
                    bad("file-vanished", "%s vanished while exports were running" % sc["paths"][i]["p"])
                elif m[0] == "broken":
                    bad("partial-file", "%s holds neither the old content nor a complete export (%d bytes): %s" % (sc["paths"][i]["p"], len(b), m[1]))
                elif m[1] not in started[i]:
                    bad("partial-file", "%s holds %d bytes that load as a dataset nobody exported there: %s" % (sc["paths"][i]["p"], len(b), m[1][-300:]))
        return st["v"]

    def finish(e, o):
        st["n"] += 1
        i = o["p"]
        if o["what"] == "export":
            exp = expect[o["e"]]
            if e["ok"]:
                bump(probes, "exported_" + sc["exports"][o["e"]]["kind"])
                m = meaning(content(i))
                if exp is None:
                    bad("exported-nothing", "%s returned, but the conversion itself fails" % e["op"])
                elif m[0] != "ds":
                    bad("not-exported", "%s returned, but %s is %s" % (e["op"], sc["paths"][i]["p"], m))
                elif m[1] != exp and m[1] not in o["alts"]:
                    bad("not-exported", "%s (%s) returned, but the file loads as another dataset: %s" % (
                        e["op"], sc["exports"][o["e"]]["kind"], canon.diff(json.loads(exp), json.loads(m[1]))))
            elif not o["fault"] and exp is not None and not (sc["paths"][i]["nodir"]):
                bad("export-failed", "%s (%s) raised %s although nothing failed" % (e["op"], sc["exports"][o["e"]]["kind"], e["err"]))
            else:
                bump(probes, "exports_failed")
        else:
            ms = [meaning(b) for b in o["seen"]]
            if e["ok"]:
                bump(probes, "loads")
                if not any(m[0] == "ds" and m[1] == e["v"] for m in ms):
                    bad("partial-load", "%s loaded a dataset that the file never held completely" % e["op"])
            elif not o["fault"] and all(m[0] == "ds" for m in ms):
                bad("load-failed", "%s raised %s" % (e["op"], e["err"]))
    tsw = None if explicit is None else explicit.get("tswitches", {})
    c = Cluster(root, d, dict(bufsize=sc["bufsize"], chunk=sc["chunk"], target_prefixes=TARGETS), tswitches=tsw, observer=observe,
                tcfg=dict(p_switch=sc["p_switch"], p_switch_io=sc["p_io"]), seed=sc["seed"])

    def node_fn(name, threads):
        def go(w):
            def one(label, op):
                w.event(ev="begin", op=label, what=op["op"], p=op["p"], e=op.get("e"))
                path = os.path.relpath(full[op["p"]], root) if op["rel"] else full[op["p"]]
                w.begin_op(label)
                if op["op"] == "export":
                    r = outcome(lambda: export(sc["exports"][op["e"]], path))
                else:
                    r = outcome(lambda: whole(import_python_file(path)))
                w.end_op()
                w.event(ev="end", op=label, ok=r[0] == "ok", v=r[1] if r[0] == "ok" and op["op"] == "load" else None,
                        err=list(r[1:]) if r[0] != "ok" else None)

            def thread(ti, ops):
                return lambda: [one("%s.t%d.%d" % (name, ti, oi), op) for oi, op in enumerate(ops)]
            w.run_threads([("t%d" % i, thread(i, ops)) for i, ops in enumerate(threads)])
            return 0
        return go
    rec_ops = [dict(op=o, e=e, p=p, rel=False) for p in range(len(full)) for e in range(min(2, len(sc["exports"]))) for o in ("export", "load")]
    phases = sc["phases"] + [[[rec_ops]]]
    hang = None
    try:
        for pi, ph in enumerate(phases):
            if pi == len(sc["phases"]):
                d.cfg["p_fault"] = 0
            c.encoding = sc.get("encoding", "utf-8")
            c.wall_add += sc["walls"][pi] if pi < len(sc.get("walls", ())) else 0
            if pi in sc.get("power", ()):
                c.lose_power("%s/%d" % (sc["seed"], pi))
            c.phase([("p%dn%d" % (pi, ni), node_fn("p%dn%d" % (pi, ni), n)) for ni, n in enumerate(ph)])
            open_ops.clear()
            if c.hang:
                hang = c.hang
                break
    except Hang as e:
        hang = str(e)
    observe(c)
    v = st["v"] or (viol("hang", hang) if hang else None)
    bump(probes, "crashed_nodes", len(c.dead))
    rec = d.record()
    rec["tswitches"] = c.tsw_rec
    return dict(viol=v, record=rec, hash=loghash([c.log]), faults=d.fired, probes=probes, sim_time=.01 * len(c.log), steps=c.steps, ops=st["n"],
                switches=len(d.switches) + sum(map(len, c.tsw_rec.values())), nontrivial=st["n"] >= 2,
                sample=dict(exports=sc["exports"], paths=sc["paths"], phases=sc["phases"], faults=d.faults), trace=[str(x)[:300] for x in c.log[-250:]])

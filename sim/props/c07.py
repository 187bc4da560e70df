"""C07 command-line runs."""
import hashlib
import io
import json
import os
import random
import runpy
import sys

from .. import seams, gen, canon
from ..procs import Cluster
from ..world import Decider, Hang
from .common import *
from . import c01

ID = "C07"
TECHNIQUE = "seeded schedules of command-line processes writing to shared output directories and to failing standard output, with crash, torn or short write, full disk or I/O error at any I/O step; result files inspected after every step and judged when a process exits"
LEVEL_NOTE = "seeded search; the real main programs run in simulated processes on real files behind a simulated raw layer; oracle is the library called directly"
REF_SERVER = True          # references come from an interpreter with another string-hash seed
RUNS = dict(quick=600, thorough=40000)
WALL = dict(quick=240, thorough=1500)
RULE = ("a case is one seeded history of command-line runs (both programs, several models, plots or not, output directory missing, nested, "
        "already used or occupied by a file) by up to three processes at a time over several generations, with faults and crashes at drawn I/O "
        "steps and a fault-free last generation; non-trivial when at least two processes ended")
COMPONENTS = dict(real=["sureal.__main__", "sureal.cmd_deprecated", "sureal.routine", "sureal.config DisplayConfig", "matplotlib PNG writer", "models and readers"],
                  stub=["process scheduler", "raw file and standard output I/O results", "interpreter start and exit (exit status emulated)"])
ASSUMPTIONS = ["standard output is flushed at exit and a failing flush gives status 120, as CPython does",
               "several runs into one directory at the same time promise a complete JSON file, not plots of one run"]

NSPEC = 8
ERR = []


def spec(i):
    r = random.Random("c07/%d" % i)
    s = gen.pc_spec(r) if i == NSPEC - 1 else gen.raw_spec(r, style=["list", "dict", "dict_missing", "list_float", "list_reps", "tuple", "list"][i], small=True)
    if i == 2:
        s["attrs"]["dataset_name"] = "é"
    return s


def invocation(rng):
    i = rng.randrange(NSPEC)
    pc = i == NSPEC - 1
    dep = rng.random() < .3 and not pc
    if dep:
        models = [rng.choice(["MOS", "MLE_CO_AP", "SR_MOS", "DMOS"])]
    elif pc:
        models = [rng.choice(["THURSTONE_MLE", "BT_MLE"])]
    else:
        models = rng.choice([["MOS"], ["MOS"], ["MOS", "P910"], ["P913"], ["BT500"], ["MOS", "BT500"], ["P910"]])
    plots = []
    if rng.random() < .25:
        plots = rng.choice([["raw-data"], ["dis-videos"], ["observers"], ["dis-videos", "observers"], ["raw-data", "dis-videos", "observers"]])
        if pc:
            plots = rng.choice([["raw-data"], ["dis-videos"]])
    o = dict(ds=i, dep=dep, models=models, plots=plots, fmt=rng.choice(["py", "json"]) if not pc else "py", pr=dep and rng.random() < .5)
    x = rng.random()
    if x < .03:
        o["models"] = ["NO_SUCH"]
    elif x < .05:
        o["missing"] = True
    elif x < .07:
        o["broken"] = True
    return o


def generate(rng, tier):
    invs = [invocation(rng) for _ in range(rng.choice([1, 2, 2]))]
    for v in invs[1:]:
        if v["dep"] != invs[0]["dep"] and rng.random() < .8:
            v.update(json.loads(json.dumps(dict(invs[0], ds=v["ds"] if invs[0]["ds"] < NSPEC - 1 and v["ds"] < NSPEC - 1 else invs[0]["ds"]))))
    outs = rng.choice([["o"], ["o"], ["o/p q/é"], ["o", "o2"], ["o", None]])
    phases = []
    for _ in range(rng.choice([1, 2, 2, 3])):
        phases.append([dict(v=rng.randrange(len(invs)), o=rng.randrange(len(outs)), tty=rng.random() < .3, how=rng.choice(["module", "script"]))
                       for _ in range(rng.choice([1, 1, 1, 2, 3]))])
    kf = rng.choice([["crash"], ["crash", "torn"], ["power"], ["nospace", "ENOSPC"], ["EIO"], ["EPIPE", "ENOSPC"], ["EMFILE", "EACCES"], ["INTR"], ["short"],
                     ["crash", "power", "torn", "nospace", "ENOSPC", "EIO", "EMFILE", "EACCES", "INTR", "short", "EPIPE"]])
    steps = rng.choice([None, None, None, ["stdout"], ["write", "open_w", "close", "rename", "fsync"]])
    return dict(invs=invs, outs=outs, phases=phases, occupied=rng.choice([None] * 12 + ["file"]), old=rng.choice([None, "text", "json"]),
                p_io=rng.choice([.1, .3, .6]), p_fault=rng.choice([.01, .04, .15]) if rng.random() < .8 else 0, max_faults=rng.choice([1, 2, 3]),
                fault_kinds=kf, fault_steps=steps, bufsize=rng.choice([256, 2048, 8192]), chunk=rng.choice([100, 8192]),
                power=[i for i in range(1, len(phases) + 1) if rng.random() < .3] if rng.random() < .3 else [],
                walls=wall_steps(rng, len(phases) + 3) if rng.random() < .4 else [], encoding=locale_encoding(rng))


def op_lists(sc):
    return [["phases"]] + [["phases", i] for i in range(len(sc["phases"]))]


def ds_name(v):
    return "in/%s%d.%s" % ("broken" if v.get("broken") else "d", v["ds"], v["fmt"]) if not v.get("missing") else "in/none.py"


def write_inputs(root, v):
    os.makedirs(root + "/in", exist_ok=True)
    s = spec(v["ds"])
    t = gen.as_py(s) if v["fmt"] == "py" else gen.as_json(s)
    gen.write(os.path.join(root, ds_name(dict(v, missing=False))), t if not v.get("broken") else t[:len(t) // 2])


def argv(v, out):
    if v["dep"]:
        return ["cmd", v["models"][0], ds_name(v)] + (["--output-dir", out] if out else []) + (["--print"] if v["pr"] else [])
    return ["sureal", "--dataset", ds_name(v), "--models"] + v["models"] + (["--output-dir", out] if out else []) + ["--plot-" + p for p in v["plots"]]


def run_main(v, out, how):
    """The main program as the interpreter would run it; returns the exit status."""
    sys.argv = argv(v, out)
    mod = "sureal.cmd_deprecated" if v["dep"] else "sureal.__main__"
    try:
        if how == "module":
            runpy.run_module(mod, run_name="__main__", alter_sys=False)
            st = 0
        else:
            st = sys.modules[mod].main()
            sys.exit(st)
    except SystemExit as e:
        st = 0 if e.code is None else e.code if isinstance(e.code, int) else 1
    except Exception:
        import traceback
        ERR.append(traceback.format_exc()[-600:])
        st = 1
    except KeyboardInterrupt:
        st = 130
    try:
        sys.stdout.flush()
    except (Exception, KeyboardInterrupt):
        st = 120
    return st & 0xff


def vkey(v):
    return json.dumps(v, sort_keys=True)


def refs(sc):
    root = ROOT                                                                   # noqa

    def mk(v):
        return lambda: reference(v, root)
    return {vkey(v): mk(v) for v in sc["invs"]}


def reference(v, root):
    """What the library gives when called directly, and what an undisturbed run of the program leaves."""
    import matplotlib.pyplot as plt
    from sureal.routine import run_subjective_models, format_output_of_run_subjective_models
    from sureal.dataset_reader import RawDatasetReader, PairedCompDatasetReader
    os.chdir(root)
    write_inputs(root, v)
    cl = c01.classes()
    ret = dict(problem=None)

    def direct():
        pc = v["ds"] == NSPEC - 1
        do = []
        kw = {}
        if v["dep"]:
            do = ["raw_scores", "quality_scores"] + (["subject_scores"] if v["models"][0].startswith("MLE") else [])
            kw = dict(normalize_final=False, gradient_method="simplified", plot_type="errorbar")
        else:
            if "raw-data" in v["plots"]:
                do += ["raw_scores"] + ([] if pc else ["raw_counts", "raw_counts_per_subject"])
            if "dis-videos" in v["plots"]:
                do += ["quality_scores"]
            if "observers" in v["plots"]:
                do += ["subject_scores"]
        ds, ms, rs = run_subjective_models(ds_name(v), [cl[m] for m in v["models"]], do_plot=do,
                                           dataset_reader_class=PairedCompDatasetReader if pc else RawDatasetReader, **kw)
        n = len(plt.get_fignums())
        if v["dep"]:
            return json.loads(json.dumps(rs[0], default=lambda o: "<not serializable>")), n
        return json.loads(json.dumps(format_output_of_run_subjective_models(ds, ms, rs))), n
    old = sys.stdout
    try:
        sys.stdout = io.StringIO()
        d = outcome(direct)
        plt.close("all")
        ret["ok"] = d[0] == "ok"
        if d[0] == "ok":
            ret["json"], ret["nplots"] = d[1]
        import shutil
        shutil.rmtree(root + "/refs", ignore_errors=True)
        for out in ("refs/o", None):
            sys.stdout = io.StringIO()
            st = run_main(v, out, "script")
            plt.close("all")
            ret["stdout" if out is None else "stdout_o"] = sys.stdout.getvalue()
            ret["status"] = st
            if (st == 0) != ret["ok"]:
                ret["problem"] = "an undisturbed run exits with %d, but the library %s" % (st, "succeeds" if ret["ok"] else "fails: %s" % (d[1:],))
        files = {}
        if ret["ok"]:
            for f in sorted(os.listdir("refs/o")) if os.path.isdir("refs/o") else []:
                with open("refs/o/" + f, "rb") as fh:
                    files[f] = fh.read()
            pngs = [f for f in files if f.endswith(".png")]
            from PIL import Image
            for f in pngs:
                try:
                    Image.open(io.BytesIO(files[f])).load()
                except Exception as e:
                    ret["problem"] = "plot %s of an undisturbed run is damaged: %s" % (f, e)
            if len(pngs) != ret["nplots"]:
                ret["problem"] = "an undisturbed run wrote %d plots, %d were requested" % (len(pngs), ret["nplots"])
            name = "sureal.json" if v["dep"] else "output.json"
            try:
                if not canon.same(canon.canon(json.loads(files[name])), canon.canon(ret["json"])):
                    ret["problem"] = "the JSON file of an undisturbed run differs from the library's result: %s" % canon.diff(
                        canon.canon(ret["json"]), canon.canon(json.loads(files[name])))
            except (KeyError, ValueError) as e:
                ret["problem"] = "an undisturbed run left no complete JSON file: %r" % (e,)
            if not v["dep"]:
                t = ret["stdout"]
                try:
                    if not canon.same(canon.canon(json.loads(t[t.index("{"):])), canon.canon(ret["json"])):
                        ret["problem"] = "the printed JSON differs from the library's result"
                except ValueError:
                    ret["problem"] = "an undisturbed run printed no complete JSON"
            ret["png"] = {f: hashlib.sha1(files[f]).hexdigest() for f in pngs}
    finally:
        sys.stdout = old
    return ret


def execute(sc, refs, root, explicit):
    R = seams.R
    invs, outs = sc["invs"], sc["outs"]
    ref = [refs[vkey(v)] for v in invs]
    for v in invs:
        write_inputs(root, v)
    os.chdir(root)
    names = ["output.json", "sureal.json"]
    if sc["occupied"] == "file":
        gen.write(root + "/" + outs[0].split("/")[0], "a file\n")
    elif sc["old"]:
        for o in outs:
            if o:
                os.makedirs(o, exist_ok=True)
                for n in names:
                    gen.write("%s/%s" % (o, n), "old " * 500 if sc["old"] == "text" else json.dumps({"old": [1] * 400}))
    jsons = [(o, n) for o in outs if o for n in names]

    def content(o, n):
        try:
            with R.open("%s/%s/%s" % (root, o, n), "rb") as fh:
                return fh.read()
        except OSError:
            return None
    init = {k: content(*k) for k in jsons}
    last = dict(init)
    started = {k: set() for k in jsons}          # invocations begun on that file
    st = dict(v=None, ev=0, n=0)
    probes, live = {}, {}
    canon_j = [canon.canon(r["json"]) if r["ok"] else None for r in ref]
    d = Decider(sc["seed"], dict(p_switch_io=sc["p_io"], p_fault=sc["p_fault"], fault_kinds=sc["fault_kinds"], max_faults=sc["max_faults"],
                                 fault_steps=sc["fault_steps"]), explicit)

    def bad(cls, msg):
        if st["v"] is None:
            st["v"] = viol(cls, msg)
    for r in ref:
        if r["problem"]:
            bad("undisturbed-run", r["problem"])

    def which(b):
        """indices of invocations whose complete result the bytes are"""
        try:
            j = canon.canon(json.loads(b))
        except ValueError:
            return set()
        return {i for i, c in enumerate(canon_j) if c is not None and canon.same(c, j)}

    def observe(c):
        for e in c.events[st["ev"]:]:
            k = e["ev"]
            if k == "begin":
                o, v = outs[e["o"]], invs[e["v"]]
                live[e["node"]] = dict(e, fault=False, alts={e["v"]}, shared=False)
                for x in live.values():
                    if x["o"] == e["o"] and x["node"] != e["node"]:
                        x["alts"].add(e["v"])
                        live[e["node"]]["alts"].add(x["v"])
                        x["shared"] = live[e["node"]]["shared"] = True
                if o:
                    started[(o, names[v["dep"]])].add(e["v"])
            elif k == "fault":
                x = live.get(e["node"])
                if x is not None and e["kind"] != "short":
                    x["fault"] = True
                bump(probes, "fault_at_" + ("stdout" if e["path"].startswith("stdout") else e["io"]))
            elif k == "exit":
                finish(e, live.pop(e["node"]))
        st["ev"] = len(c.events)
        for n in list(live):
            if n in c.dead:
                live.pop(n)
        for k in jsons:
            b = content(*k)
            if b != last[k]:
                last[k] = b
                if b == init[k]:
                    continue
                if b is None:
                    bad("result-vanished", "%s/%s vanished" % k)
                elif not which(b) & started[k]:
                    bad("partial-result", "%s/%s holds %d bytes that are neither the old content nor the complete result of a run" % (k + (len(b),)))
        return st["v"]

    def finish(e, x):
        st["n"] += 1
        v, o, r = invs[x["v"]], outs[x["o"]], ref[x["v"]]
        what = "%s: %s" % (e["node"], " ".join(argv(v, o)))
        if e["status"] != 0:
            bump(probes, "failed_runs")
            if r["ok"] and not x["fault"] and not (sc["occupied"] and o) and not st.get("earlier"):
                bad("failed-without-cause", "%s exits with %d although nothing failed: %s" % (what, e["status"], e.get("err")))
            return
        bump(probes, "successful_runs")
        if not r["ok"]:
            bad("false-success", "%s exits with 0 although it cannot produce its result" % what)
            return
        if o:
            k = (o, names[v["dep"]])
            b = content(*k)
            if b is None or not which(b) & x["alts"]:
                bad("false-success", "%s exits with 0 but %s/%s is not its complete result (%s)" % (
                    what, k[0], k[1], "missing" if b is None else "%d bytes" % len(b)))
            if not x["shared"]:
                for f, h in r["png"].items():
                    b = content(o, f)
                    if b is None or hashlib.sha1(b).hexdigest() != h:
                        bad("false-success", "%s exits with 0 but plot %s is %s" % (what, f, "missing" if b is None else "not complete or not its own"))
                    else:
                        bump(probes, "plots_checked")
        else:
            want = r["stdout"]
            with R.open("%s/stdout_%s" % (root, e["node"]), "rb") as fh:
                got = fh.read().decode("utf-8", "replace")
            if got != want:
                bad("false-success", "%s exits with 0 but its printed output is not complete (%d of %d characters)" % (what, len(got), len(want)))
    tsw = None if explicit is None else explicit.get("tswitches", {})
    c = Cluster(root, d, dict(bufsize=sc["bufsize"], chunk=sc["chunk"], target_prefixes=TARGETS), tswitches=tsw, observer=observe, seed=sc["seed"])

    def node_fn(name, p):
        def go(w):
            v, o = invs[p["v"]], outs[p["o"]]
            fd = R.os_open("%s/stdout_%s" % (root, name), os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o644)
            raw = seams.SimFileIO(fd, "w", "%s/stdout_%s" % (root, name))
            sys.stdout = io.TextIOWrapper(seams.SimBufferedWriter(raw, sc["bufsize"]), "utf-8", line_buffering=p["tty"])
            w.event(ev="begin", v=p["v"], o=p["o"])
            w.begin_op("run")
            s = run_main(v, o, p["how"])
            w.end_op()
            w.event(ev="exit", status=s, err=ERR[-1:])
            return 0
        return go
    hang = None
    phases = sc["phases"] + [[dict(v=i, o=0, tty=False, how="module")] for i in range(len(invs))]
    try:
        for pi, ph in enumerate(phases):
            if pi == len(sc["phases"]):
                d.cfg["p_fault"] = 0
            c.encoding = sc.get("encoding", "utf-8")
            c.wall_add += sc["walls"][pi] if pi < len(sc.get("walls", ())) else 0
            if pi in sc.get("power", ()):
                c.lose_power("%s/%d" % (sc["seed"], pi))
            c.phase([("p%dn%d" % (pi, ni), node_fn("p%dn%d" % (pi, ni), n)) for ni, n in enumerate(ph)])
            observe(c)
            live.clear()
            if c.hang:
                hang = c.hang
                break
    except Hang as e:
        hang = str(e)
    v = st["v"] or (viol("hang", hang) if hang else None)
    bump(probes, "crashed_nodes", len(c.dead))
    rec = d.record()
    rec["tswitches"] = {}
    return dict(viol=v, record=rec, hash=loghash([c.log]), faults=d.fired, probes=probes, sim_time=.01 * len(c.log), steps=c.steps, ops=st["n"],
                switches=len(d.switches), nontrivial=st["n"] >= 2, sample=dict(argv=[argv(v, outs[0]) for v in invs], phases=sc["phases"], faults=d.faults),
                trace=[str(x)[:300] for x in c.log[-250:]])

"""C14 operations leave the process as they found it."""
import contextlib
import gc
import io
import json
import os
import signal
import sys

from .. import seams, gen, mp
from ..world import World, Decider
from .common import *
from . import c01

ID = "C14"
TECHNIQUE = "seeded histories of operations in one to three threads with I/O faults, failing output, bad input and warnings turned into errors, started from a drawn process state; process-wide state compared with the drawn one whenever no operation is under way"
LEVEL_NOTE = "seeded search; the library runs unmodified; the process state is real (working directory, warning filters, numpy settings, modules, signal handlers, plot settings)"
RUNS = dict(quick=4000, thorough=90000)
WALL = dict(quick=200, thorough=1500)
RULE = ("a case is one seeded history of loads, reads, conversions, exports, model runs, plots, cached calls, timed work and command-line runs in one "
        "to three threads of a process whose settings were drawn at random, some failing on a disk, output or numerical error or bad input; "
        "non-trivial when at least two operations ran and one of them failed or overlapped another")
COMPONENTS = dict(real=["all of sureal", "numpy, scipy, matplotlib", "process state: working directory, environment, warning filters, numpy and plot settings, "
                        "modules, signal handlers, file mode mask, open files"],
                  stub=["thread scheduler", "disk (real files behind a simulated layer)", "clocks", "standard output"])
ASSUMPTIONS = ["state is compared only while no operation is under way (a temporary change that is undone by the end is allowed)",
               "library modules that numpy, scipy or matplotlib import on demand may appear in sys.modules",
               "operations that draw random numbers without a seed may advance the global random generators",
               "figures that were asked for stay open", "plots, the command line, worker processes and density functions do not overlap other threads' operations"]

ERR = ["ignore", "warn", "raise"]
MODELS = ["MOS", "DMOS", "MLE_CO_AP", "SR_MOS", "ZS_SR_DMOS", "PERSUBJECT", "BR_SR_MOS", "Subject_MLE_Projection", "P910", "BT500", "LIVE_DMOS", "LS",
          "MLE_CO", "MLE", "MLE_legacy", "MLE_BSTP", "SR_MOS_PCC"]
METRICS = ["RmsePerfMetric", "SrccPerfMetric", "PccPerfMetric", "KendallPerfMetric", "AucPerfMetric", "ResolvingPowerPerfMetric", "NoSuch"]


def generate(rng, tier):
    pc = rng.random() < .15
    specs = [gen.pc_spec(rng) if pc else gen.raw_spec(rng, small=True) for _ in range(rng.choice([1, 2]))]
    nth = rng.choice([1, 1, 1, 2, 3])

    def op():
        r = rng.random()
        o = dict(ds=rng.randrange(len(specs)), x=rng.randrange(1000))
        if r < .14:
            o.update(op="load", how=rng.choice(["py", "py", "py", "pc", "json", "sub", "missing", "syntax", "raises", "text"]))
        elif r < .2:
            o.update(op="read", kind=rng.choice(["plain", "temp"] + (c01.DERIVED if not pc else [])))
        elif r < .36 and not pc:
            o.update(op="conv", how=rng.choice(["agg", "agg", "persub", "pc", "pc", "comb", "dict", "tods", "badlen", "badtype"]), file=rng.random() < .6,
                     rate=rng.choice([None, .5]))
        elif r < .4:
            o.update(op="export")
        elif r < .6:
            t = rng.choice(c01.PC if pc else MODELS)
            opts = c01.model_opts(rng, t)
            if t in c01.SLOW:
                opts["delta_thr"] = .3
            if rng.random() < .2:
                opts.update(rng.choice([dict(gradient_method="bogus"), dict(transform_final=5), dict(transform_final={"p1": "x"}), dict(subject_rejection=True)]))
            o.update(op="model", cls=t, opts=opts, agg=rng.choice([None, "ds", "file"]))
        elif r < (.66 if pc else .7):
            o.update(op="rsm", cls=[rng.choice(c01.PC if pc else MODELS[:8]) for _ in range(rng.choice([1, 2]))], fmt=rng.choice(["py", "json"]) if not pc else "py",
                     plots=rng.choice([[rng.choice(c01.PLOTS)], [rng.choice(c01.PLOTS)], [rng.choice(c01.PLOTS), rng.choice(c01.PLOTS)], "all"])
                     if nth == 1 and rng.random() < .25 and not pc else [], axd=rng.random() < .3, show=rng.random() < .5,
                     fail=rng.choice([None, None, "ext", "plot_type", "reader", "missing"]))
        elif r < .74 and pc and nth == 1:
            o.update(op="pcplot", plots=True)
        elif r < .74 and not pc:
            o.update(op="route", cls=rng.choice(["MOS", "MLE_CO_AP", "Subject_MLE_Projection"]), opts={}, how=rng.choice(["stats", "validate"]), frac=rng.choice([None, .5]),
                     sd=rng.choice([0, 3]), sub=None, miss=rng.choice([None, .2]))
            if nth == 1 and rng.random() < .5:
                o.update(plots=True)
                if rng.random() < .3:
                    o["how"] = "scatter"
        elif r < .84:
            o.update(op=rng.choice(["cachedir", "cachefile"]), val=rng.choice([1, "a", [1, 2], None, "raise", "unjson"]), arg=rng.randrange(3))
        elif r < .9:
            o.update(op="metric", cls=rng.choice(METRICS), map=rng.random() < .5, n=[round(rng.uniform(1, 5), 3) for _ in range(rng.choice([2, 8, 12]))])
        elif r < .905 and nth == 1:
            o.update(op="deprecated", fails=rng.random() < .4)
        elif r < .92:
            o.update(op="timer", fails=rng.random() < .4)
        elif r < .935:
            o.update(op="cmd", rc=rng.choice([0, 0, 1, -9]), spawn=rng.choice([None, None, None, "ENOENT"]), limit=rng.choice([None, .5]))
        elif r < .945:
            o.update(op="dens", how=rng.choice(["pdf", "uniforms", "gaussian", "cdf", "perf"]))
        elif r < .965 and nth == 1:
            o.update(op="workers", how=rng.choice(["map", "map", "convolve", "convolve"]), n=rng.choice([1, 2, 3]), fault=rng.choice([None, None, "kill", "start", "raise"]))
        elif nth == 1:
            o.update(op="cli", old=rng.random() < .4, plots=rng.random() < .3, models=rng.choice([["MOS"], ["P910"], ["MOS", "BT500"], ["nosuch"]]) if not pc else [rng.choice(c01.PC)],
                     out=rng.random() < .8, missing=rng.random() < .15)
        else:
            o.update(op="timer", fails=rng.random() < .4)
        return o
    state = dict(err={k: rng.choice(ERR[:2] if rng.random() < .8 else ERR) for k in ("divide", "over", "under", "invalid")}, cwd=rng.choice(["", "", "sub", "sub/deep"]),
                 filters=[rng.choice(["error_runtime", "ignore_user", "always_dep", "once", "error_all"]) for _ in range(rng.choice([0, 1, 2]))],
                 umask=rng.choice([0o022, 0o077, 0o002]), rec=rng.choice([1000, 3000, 5000]), font=rng.choice([None, 7.0, 13.0]), prec=rng.choice([8, 3]),
                 env=rng.choice([None, "a", "b"]), path=rng.random() < .3, sigint=rng.random() < .3, gc=rng.random() < .8, tmp=rng.random() < .2, log=rng.choice([10, 30]),
                 interactive=rng.random() < .1, dec=rng.choice([28, 9]), fig=rng.random() < .25)
    return dict(specs=specs, state=state, threads=[[op() for _ in range(rng.randint(2, 6 if nth == 1 else 4))] for _ in range(nth)],
                p_switch=rng.choice([.01, .05, .2]), p_io=.3, p_fault=rng.choice([0, .05, .1, .3]), bufsize=rng.choice([64, 600, 8192]))


def op_lists(sc):
    return [["threads", i] for i in range(len(sc["threads"]))]


def simplify(sc):
    """simpler process states"""
    for k, v in (("filters", []), ("cwd", ""), ("env", None), ("path", False), ("sigint", False), ("tmp", False), ("font", None)):
        if sc["state"].get(k) != v:
            yield dict(sc, state=dict(sc["state"], **{k: v}))


def set_state(st, root):
    import warnings
    import logging
    import decimal
    import tempfile
    import numpy as np
    import matplotlib
    np.seterr(**st["err"])
    for f in st["filters"]:
        if f == "error_runtime":
            warnings.simplefilter("error", RuntimeWarning)
        elif f == "error_all":
            warnings.simplefilter("error")
        elif f == "ignore_user":
            warnings.filterwarnings("ignore", category=UserWarning)
        elif f == "always_dep":
            warnings.filterwarnings("always", message="x", category=DeprecationWarning)
        else:
            warnings.simplefilter("once", ResourceWarning)
    os.umask(st["umask"])
    sys.setrecursionlimit(st["rec"])
    if st["font"]:
        matplotlib.rcParams["font.size"] = st["font"]
    np.set_printoptions(precision=st["prec"])
    if st["env"]:
        os.environ["SUREAL_SIM"] = st["env"]
    if st["path"]:
        sys.path.append(root + "/lib")
    if st["sigint"]:
        signal.signal(signal.SIGINT, _handler)
    if not st["gc"]:
        gc.disable()
    if st["tmp"]:
        tempfile.tempdir = root + "/tmp"
    if st["interactive"]:
        matplotlib.interactive(True)
    logging.getLogger().setLevel(st["log"])
    decimal.getcontext().prec = st["dec"]


def _handler(*a):
    pass


def snapshot(root, rng_too=True):
    import builtins
    import decimal
    import locale
    import logging
    import multiprocessing
    import random as rnd
    import tempfile
    import threading
    import time
    import warnings
    import matplotlib
    import matplotlib.pyplot as plt
    import numpy as np
    gc.collect()
    s = {}
    s["working directory"] = os.getcwd()
    s["environment"] = sorted(os.environ.items())
    s["sys.path"] = list(sys.path)
    s["import hooks"] = [id(x) for x in sys.meta_path] + [id(x) for x in sys.path_hooks]
    s["sys.argv"] = list(sys.argv)
    s["numpy error handling"] = sorted(np.geterr().items())
    s["numpy error callback"] = repr(np.geterrcall())
    s["numpy print options"] = repr(sorted((k, str(v)) for k, v in np.get_printoptions().items()))
    s["warning filters"] = [str(f) for f in warnings.filters]
    s["warnings.showwarning"] = repr(warnings.showwarning)
    s["standard streams"] = [id(sys.stdin), id(sys.stdout), id(sys.stderr)]
    s["hooks of the interpreter"] = [repr(sys.excepthook), repr(sys.displayhook), repr(threading.excepthook), repr(sys.unraisablehook)]
    s["signal handlers"] = [repr(signal.getsignal(x)) for x in (signal.SIGINT, signal.SIGTERM, signal.SIGALRM, signal.SIGCHLD, signal.SIGPIPE, signal.SIGHUP, signal.SIGUSR1)]
    s["signal timer"] = list(signal.getitimer(signal.ITIMER_REAL)) == [0.0, 0.0]
    m = os.umask(0)
    os.umask(m)
    s["file mode mask"] = m
    s["recursion limit"] = sys.getrecursionlimit()
    s["switch interval"] = sys.getswitchinterval()
    s["locale"] = locale.setlocale(locale.LC_ALL)
    s["garbage collector"] = [gc.isenabled(), gc.get_threshold()]
    s["plot settings"] = repr(sorted((k, str(v)) for k, v in dict.items(matplotlib.rcParams)))
    s["plot backend"] = [matplotlib.get_backend(), plt.isinteractive()]
    s["time zone"] = [time.tzname, time.timezone]
    s["logging"] = [logging.getLogger().level, len(logging.getLogger().handlers), logging.root.manager.disable]
    s["decimal context"] = str(decimal.getcontext().prec)
    s["tempfile.tempdir"] = tempfile.tempdir
    s["start method"] = multiprocessing.get_start_method(allow_none=True)
    s["builtins"] = sorted((k, id(v)) for k, v in vars(builtins).items() if k != "_")
    s["priority"] = os.nice(0)
    fds = []
    for n in seams.R.listdir("/proc/self/fd") if hasattr(seams.R, "listdir") else os.listdir("/proc/self/fd"):
        try:
            t = os.readlink("/proc/self/fd/" + n)
        except OSError:
            continue
        if t.startswith(root + "/"):
            fds.append(t)
    s["open files"] = sorted(fds)
    if rng_too:
        s["random generator"] = loghash([repr(rnd.getstate())])
        a = np.random.get_state()
        s["numpy random generator"] = loghash([a[0], a[1].tolist(), repr(a[2:])])
    return s


def modules():
    return {k: v for k, v in list(sys.modules.items())}


def listing(root):
    out = set()
    for dp, dn, fn in os.walk(root):
        dn[:] = [x for x in dn if x != "__pycache__"]
        for f in fn:
            out.add(os.path.relpath(os.path.join(dp, f), root))
    return out


def execute(sc, refs, root, explicit):
    import random as rnd
    import numpy as np
    import matplotlib.pyplot as plt
    from sureal import dataset_reader as dr, perf_metric, routine
    from sureal.config import DisplayConfig
    from sureal.tools import misc, decorator, stats
    import sureal.__main__ as cli_new
    import sureal.cmd_deprecated as cli_old
    root = os.path.realpath(root)
    cl = c01.classes()
    d = Decider(sc["seed"], dict(p_switch=sc["p_switch"], p_switch_io=sc["p_io"], p_fault=sc["p_fault"], max_faults=2,
                                 fault_steps=["write", "open_w", "open_r", "read", "close", "rename", "fsync", "stdout", "mkdir"],
                                 fault_kinds=["nospace", "EIO", "ENOSPC", "short", "EMFILE", "EACCES", "EPIPE", "INTR"]), explicit)
    w = World(root=root, decider=d, seed=sc["seed"], target_prefixes=TARGETS, bufsize=sc["bufsize"])
    w.popen = mp.PopenSim(w, {})
    specs = sc["specs"]
    pcmode = specs[0]["kind"] == "pc"
    for x in ("sub/deep", "lib", "tmp", "cache"):
        os.makedirs(root + "/" + x, exist_ok=True)
    for i in range(len(specs)):
        for f in ("py", "json"):
            if not (f == "json" and pcmode):
                c01.ds_file(root, specs, i, f)
    gen.write(root + "/syntax.py", "dataset_name = 'x'\nref_videos = [\n")
    gen.write(root + "/raises.py", "dataset_name = 'x'\nref_videos = []\nraise ValueError('no')\n")
    gen.write(root + "/cut.json", '{"dataset_name": "x", "ref_videos": [')
    gen.write(root + "/noext.txt", "x")
    st = dict(v=None, n=0, failed=0)
    probes, outc = {}, []
    readers = [c01.make_reader(s) for s in specs]
    outputs = set()

    def bad(cls, msg):
        if st["v"] is None:
            st["v"] = viol(cls, msg)
    set_state(sc["state"], root)
    os.chdir(os.path.join(root, sc["state"]["cwd"]))
    nth = len(sc["threads"])

    def judge(where, before, mods, files, figs, plotted, random_ok):
        seams.set_world(None)
        try:
            now = snapshot(root, not random_ok)
            for k in now:
                if k in before and before[k] != now[k]:
                    bad("left-changed", "%s: %s changed from %s to %s" % (where, k, short(before[k], now[k]), short(now[k], before[k])))
            if random_ok:
                before.update(snapshot(root))
            for k, v in mods.items():
                if sys.modules.get(k) is not v:
                    bad("module-changed", "%s: module %s is not the one that was loaded before" % (where, k))
            for k, v in modules().items():
                if k not in mods:
                    sp = getattr(v, "__spec__", None)
                    o = getattr(sp, "origin", None) if sp is not None else None
                    if sp is None or not o or os.path.realpath(str(o)).startswith(root + "/"):
                        if o in ("built-in", "frozen") or (sp is not None and sp.submodule_search_locations is not None):
                            continue
                        bad("module-left", "%s: left a module %s behind (%s)" % (where, k, o))
            extra = {x for x in listing(root) - files if x not in outputs and not x.startswith(("cache/", "res/"))}
            if extra:
                bad("file-left", "%s: left %s behind" % (where, sorted(extra)[:3]))
            if not plotted and plt.get_fignums() != figs:
                bad("figure-left", "%s: figures %s became %s" % (where, figs, plt.get_fignums()))
        finally:
            seams.set_world(w)

    def short(a, b):
        if isinstance(a, str) and isinstance(b, str) and len(a) > 200:
            k = next((j for j in range(min(len(a), len(b))) if a[j] != b[j]), 0)
            return "..." + a[max(0, k - 40):k + 60]
        if isinstance(a, list) and isinstance(b, list):
            x = [y for y in a if y not in b]
            return str(x or a)[:200]
        return str(a)[:200]

    def run(label, op):
        s = specs[op["ds"]]
        rd = readers[op["ds"]]
        k = op["op"]
        E = len(s["dis"])

        def out(name):
            outputs.add(os.path.relpath(root + "/" + name, root))
            return root + "/" + name
        if k == "load":
            how = op["how"]
            p = c01.ds_file(root, specs, op["ds"], "py")
            if how == "py":
                return misc.import_python_file(os.path.relpath(p) if op["x"] % 2 else p)
            if how == "pc":
                return (cl["BT_MLE"] if pcmode else cl["MOS"]).from_dataset_file(p)
            if how == "sub":
                return cl["BT_MLE" if pcmode else "MOS"].from_dataset_file(p, content_ids=[0], asset_ids=[0, 1])
            if how == "json":
                return misc.import_json_file(root + "/cut.json" if pcmode or op["x"] % 4 == 0 else c01.ds_file(root, specs, op["ds"], "json"))
            if how == "text":
                return misc.import_python_file(root + "/noext.txt")
            if op["x"] % 2:
                return cl["BT_MLE" if pcmode else "MOS"].from_dataset_file("%s/%s.py" % (root, how))
            return misc.import_python_file("%s/%s.py" % (root, how))
        if k == "read":
            r = rd if op["kind"] == "plain" else c01.make_reader(s, op["kind"])
            return r.opinion_score_3darray
        if k == "conv":
            f = op["file"]
            o = out("o_%s.py" % label) if f else None
            how = op["how"]
            if how in ("agg", "badlen", "badtype"):
                q = list(range(E))
                if how == "badlen":
                    q = q[:-1]
                if how == "badtype":
                    q = [object()] * E if f else 5
                return rd.to_aggregated_dataset_file(o, q) if f else rd.to_aggregated_dataset(q)
            if how == "persub":
                m = rd.opinion_score_3darray[:, :, 0]
                return rd.to_persubject_dataset_file(o, m) if f else rd.to_persubject_dataset(m)
            if how == "pc":
                kw = dict(sampling_seed=op["x"], sampling_rate=op["rate"]) if op["rate"] else {}
                return rd.to_pc_dataset_file(o, **kw) if f else rd.to_pc_dataset(**kw)
            if how == "comb":
                return rd.to_combined_overlap_dataset_file(o, readers[-1]) if f else rd.to_combined_overlap_dataset(readers[-1])
            if how == "dict":
                return rd.to_dictionary_style_dataset_file(o) if f else rd.to_dictionary_style_dataset()
            return rd.to_dataset()
        if k == "export":
            return rd.write_out_dataset(rd.dataset, out("e_%d.py" % (op["x"] % 3)))
        if k == "model":
            m = cl[op["cls"]](rd)
            r = m.run_modeling(**json.loads(json.dumps(op["opts"])))
            if op["agg"] and not pcmode:
                m.to_aggregated_dataset() if op["agg"] == "ds" else m.to_aggregated_dataset_file(out("m_%s.py" % label))
            return r
        if k == "rsm":
            p = c01.ds_file(root, specs, op["ds"], op["fmt"])
            kw = dict(dataset_reader_class=dr.PairedCompDatasetReader if pcmode else dr.RawDatasetReader)
            if op["fail"] == "ext":
                p = root + "/noext.txt"
            elif op["fail"] == "missing":
                p = root + "/none." + op["fmt"]
            elif op["fail"] == "plot_type":
                kw["plot_type"] = "bogus"
            elif op["fail"] == "reader":
                kw["dataset_reader_class"] = dr.RawDatasetReader if pcmode else dr.PairedCompDatasetReader
            if op["plots"] and op.get("axd"):
                kw["ax_dict"] = c01.axes(c01.RSM_AXES)
            r = routine.run_subjective_models(p, [cl[t] for t in op["cls"]], do_plot=op["plots"] if op["plots"] == "all" else list(op["plots"]), **kw)
            if op["show"] and op["plots"]:
                for i in range(40):
                    outputs.add("fig_%s/%d.png" % (label, i))
                DisplayConfig.show(write_to_dir="%s/fig_%s" % (root, label))
            return r
        if k == "route":
            if op["how"] == "scatter":
                return routine.plot_scatter_target_vs_compared_models(["MOS"], [op["cls"]], [dict(path=c01.ds_file(root, specs, op["ds"], "py"))],
                                                                      compared_subj_fraction=op["frac"], random_seed=op["sd"])
            return c01.route(sc, root, op, bool(op.get("plots")))
        if k == "pcplot":
            return routine.visualize_pc_dataset(c01.ds_file(root, specs, op["ds"], "py"))
        if k in ("cachedir", "cachefile"):
            dec = decorator.persist_to_dir(root + "/cache/d") if k == "cachedir" else decorator.persist_to_file(root + "/cache/f.json")

            def fn(a):
                if op["val"] == "raise":
                    raise ValueError("computation failed")
                return object() if op["val"] == "unjson" else op["val"]
            return dec(fn)(op["arg"])
        if k == "metric":
            g = list(op["n"])
            return getattr(perf_metric, op["cls"])(g, [x * 1.1 + (j % 3) * .2 for j, x in enumerate(g)]).evaluate(enable_mapping=op["map"])
        if k == "timer":
            with misc.Timer() as t:
                w.sleep(.01)
                if op["fails"]:
                    raise KeyError("timed work failed")
            return t.interval
        if k == "deprecated":
            def old_function(a):
                if op["fails"]:
                    raise KeyError("failed")
                return a
            with contextlib.redirect_stderr(io.StringIO()):
                return decorator.deprecated(old_function)(op["x"])
        if k == "cmd":
            w.popen.script[label + "-x"] = dict(spawn=op["spawn"], dur=op["x"] / 1000., rc=op["rc"], out=b"some output\n" * (op["x"] % 40), intr=None)
            return misc.run_process([label + "-x"], **({} if op["limit"] is None else dict(timeout=op["limit"])))
        if k == "dens":
            xs, o1 = np.array([[-1., .3], [.5, 2.]]), np.ones((2, 2))
            if op["how"] == "pdf":
                return stats.ConvolveTwoPdf(lambda x: stats.sech(x) ** 2 / 2, lambda x: stats.sech(x / 2) ** 2 / 4, delta=.05).pdf(op["x"] / 300.)
            if op["how"] == "uniforms":
                return stats.vectorized_convolution_of_two_uniforms(xs, xs * .1, o1, xs * .2, o1 * (op["x"] % 3))
            if op["how"] == "gaussian":
                return stats.vectorized_gaussian(xs, xs * .1, o1 * (op["x"] % 3)), stats.vectorized_logistic(xs * 2000, xs, o1 * .5)
            return stats.get_cdf([1, 2, 2.5, 7][:op["x"] % 5]), stats.get_pdf([1, 2, 2.5, 7]), stats.histc([1, 2, float("nan")])
        if k == "workers":
            w.mp = mp.MPSim(w, {"0": dict(dur=.01, fault=op["fault"] if op["fault"] != "raise" else None)} if op["fault"] else {}, dict(dur=.01, fault=None), 2, 1e-3, 30000)
            if op["how"] == "convolve":
                xs = np.array([[-1. + i, .5] for i in range(op["n"])])
                o1 = np.ones_like(xs)
                return stats.vectorized_convolution_of_two_logistics(xs, .1 * xs, .7 * o1, -.05 * xs, 1.1 * o1)

            def work(a):
                if op["fault"] == "raise" and a == 0:
                    raise ValueError("worker failed")
                return a * 2
            return misc.parallel_map(work, list(range(op["n"])), processes=op["x"] % 3 + 1)
        if k == "cli":
            p = root + "/none.py" if op["missing"] else c01.ds_file(root, specs, op["ds"], "py")
            o = "%s/res/%s" % (root, label)
            if op["old"]:
                sys.argv = ["sureal", "MLE_CO_AP" if op["models"] == ["P910"] else op["models"][0], p] + (["--output-dir", o] if op["out"] else ["--print"])
                cur["argv"] = list(sys.argv)
                return cli_old.main()
            sys.argv = ["sureal", "--dataset", p, "--models"] + op["models"] + (["--output-dir", o] if op["out"] else []) + (
                ["--plot-dis-videos"] if op["plots"] and not pcmode else [])
            cur["argv"] = list(sys.argv)
            return cli_new.main()

    def do(label, op):
        plotted = bool(op.get("plots")) or op["op"] == "cli"
        atomic = plotted or op["op"] in ("workers", "dens")
        argv = sys.argv
        w.begin_op(label, (40000, "Cancelled"))          # solvers that do not converge are given up
        if atomic:
            w.enter_atomic()
        res = outcome(lambda: run(label, op))
        if atomic:
            w.exit_atomic()
        w.end_op()
        if op["op"] == "cli":
            if sys.argv != cur["argv"]:
                bad("left-changed", "after cli: sys.argv changed from %s to %s" % (cur["argv"], sys.argv))
            sys.argv = argv
        if mine and mine.number not in plt.get_fignums():
            bad("figure-closed", "after %s: the program's own figure was closed" % op["op"])
        st["n"] += 1
        outc.append([label, op["op"], res[0], res[1] if res[0] == "exc" else None])
        if res[0] == "exc":
            st["failed"] += 1
        bump(probes, "%s_%s" % ("failed" if res[0] == "exc" else "ok", op["op"]))
        err = res[1] if res[0] == "exc" else None
        del res
        if nth == 1:
            judge("after %s (%s%s)" % (op["op"], {k: v for k, v in op.items() if k not in ("op", "n")}, ", which raised " + err if err else ""),
                  base["s"], base["m"], base["f"], base["g"], plotted, False)
            base["g"] = plt.get_fignums()
        elif sorted(np.geterr().items()) != base["s"]["numpy error handling"]:
            bad("left-changed", "after %s: numpy error handling of the thread became %s" % (op, np.geterr()))
        if plotted:
            for x in plt.get_fignums():
                if not mine or x != mine.number:
                    plt.close(x)
            base["g"] = plt.get_fignums()

    def thread(ti):
        def go():
            import decimal
            np.seterr(**sc["state"]["err"])                    # numpy's and decimal's settings belong to the thread
            decimal.getcontext().prec = sc["state"]["dec"]
            for oi, op in enumerate(sc["threads"][ti]):
                do("t%d.%d" % (ti, oi), op)
        return go
    mine = plt.figure() if sc["state"].get("fig") else None
    cur = {}
    rnd.seed(sc["seed"])
    np.random.seed(sc["seed"] % 2**31)
    old = sys.stdout
    sys.stdout = c01.Stdout()
    base = dict(s=snapshot(root), m=modules(), f=listing(root), g=plt.get_fignums())
    seams.set_world(w)
    try:
        w.run_threads([("t%d" % i, thread(i)) for i in range(nth)])
        judge("after all operations", base["s"], base["m"], base["f"], base["g"], False, False)
    finally:
        seams.set_world(None)
        sys.stdout = old
        np.seterr(all="ignore")
        plt.close("all")
        os.chdir(root)
    bump(probes, "operations", st["n"])
    if nth > 1 and w.switch_count > 2:
        bump(probes, "overlapping")
    return dict(viol=st["v"], record=d.record(), hash=loghash([w.log, outc]), faults=d.fired, probes=probes,
                sim_time=w.mono - 1000.0, steps=w.steps + w.io_total, ops=st["n"], switches=w.switch_count,
                nontrivial=st["n"] >= 2 and (st["failed"] > 0 or nth > 1), sample=dict(state=sc["state"], threads=sc["threads"]),
                trace=[str(x) for x in w.log[-200:]] + [str(x) for x in outc])

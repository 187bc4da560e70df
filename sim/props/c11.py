"""C11 the same inputs give the same bytes in every launch."""
import base64
import json
import os
import shutil
import sys

from .. import gen, canon, launch
from .common import *
from . import c01

ID = "C11"
TECHNIQUE = "the same operation in simulated launches that differ in hash seed, clock, time zone, process id, directory, environment and entropy, compared byte for byte"
LEVEL_NOTE = "seeded search over inputs and launch configurations; eight real interpreters with different string-hash seeds, the rest of a launch simulated"
RUNS = dict(quick=1300, thorough=30000)
WALL = dict(quick=200, thorough=1500)
RULE = ("a case is one seeded input (score table, command line with dataset, or export) run in three launches; non-trivial when the launches "
        "had different hash seeds and the input has at least three items whose order matters")
COMPONENTS = dict(real=["resource/util/mos_to_sureal.py", "sureal.__main__", "sureal.cmd_deprecated", "sureal.dataset_reader exports", "sureal.routine",
                        "the interpreter's string hashing and address layout", "pandas, numpy, scipy, matplotlib"],
                  stub=["clock, time zone, process id, entropy", "argument vector"])
ASSUMPTIONS = ["same interpreter, libraries and machine", "standard output is UTF-8", "operations that ask for randomness are given a seed"]
POOL = None

CLI = ["MOS", "P910", "P913", "BT500", "SR_MOS", "MLE_CO_AP", "PERSUBJECT", "DMOS", "ZS_SR_DMOS"]
PCCLI = ["THURSTONE_MLE", "BT_MLE"]
DEP = ["MOS", "MLE_CO_AP", "SR_MOS", "DMOS", "SR_DMOS", "MLE_CO_AP2"]


def setup():
    global POOL
    POOL = launch.Pool(ID)


def teardown():
    global POOL
    if POOL is not None:
        POOL.stop()
        POOL = None


def table(rng):
    n = rng.randint(2, 9)
    cols = ["S%d" % (i + 1) for i in range(rng.randint(2, 8))]
    if rng.random() < .3:
        cols = [rng.choice(["User", "subject_", "s"]) + str(i) for i in range(len(cols))]
    elif rng.random() < .2:
        cols = ["S1", "s1", "S01", "s01", "S1a", "s1A", "S1A", "S10"][:len(cols)]
    extra = rng.sample(["MOS", "CI", "N", "weird", "other col", "Zeta", "alpha"], rng.randint(0, 4))
    head = ["PVS_ID"] + cols
    for x in extra:
        head.insert(rng.randint(1, len(head)), x)
    if rng.random() < .05:
        head[0] = "PVS"
    rows = []
    ids = []
    srcs = rng.sample(["SRC01", "SRC02", "SRC10", "src3", "SRC100", "S7", "SRC01a", "x9y", "src01", "SRC3", "SRC01A"], rng.randint(1, 6))
    for i in range(n):
        k = "%s_%s_HRC%02d" % (rng.choice(["DB01", "DB01", "db2"]), rng.choice(srcs), rng.randint(0, 12))
        if rng.random() < .1 and ids:
            k = rng.choice(ids)                       # repeated row
        if rng.random() < .02:
            k = "oops"
        ids.append(k)
        rows.append([rng.choice(["", " "]) * (rng.random() < .1) + k if h == head[0] else
                     ("%.2f" % rng.uniform(1, 5) if h in ("MOS", "CI", "weird") or rng.random() < .02 else str(rng.randint(1, 5))) for h in head])
    if rng.random() < .03:
        rows[-1][-1] = ""
    return "\n".join(",".join(r) for r in [head] + rows) + "\n"


def generate(rng, tier):
    k = rng.choice(["table"] * 4 + ["cli"] * 3 + ["dep"] * 2 + ["export"] * 3 + ["pccli", "demo"])
    sc = dict(kind=k)
    if k == "table":
        sc["csv"] = table(rng)
        sc["args"] = rng.choice([[], [], ["-rw", "1920", "-rh", "1080"], ["-r", "refs", "-d", "dis", "-e", ".mp4"], ["-s", "10", "-y", "yuv422p"]])
        sc["name"] = rng.choice(["scores.csv", "my table.csv", "a.b.csv"])
    elif k == "demo":
        sc["demo"] = rng.choice(["itut_p910_demo/demo_p910.py", "itut_p913_demo/demo.py", "itur_bt500_demo/demo_bt500.py"])
        J, I = rng.randint(3, 8), rng.randint(4, 9)
        sc["csv"] = "\n".join(",".join(rng.choice(["nan"]) if rng.random() < .05 else str(rng.randint(1, 5)) for _ in range(I)) for _ in range(J)) + "\n"
        sc["name"] = "votes.csv"
    else:
        sc["spec"] = gen.pc_spec(rng) if k == "pccli" else gen.raw_spec(rng, small=rng.random() < .5)
        if k == "export" and rng.random() < .4:
            sc["spec2"] = c01.perturb(rng, sc["spec"])
        sc["json"] = rng.random() < .4 and k != "pccli"
        sc["models"] = [rng.choice(PCCLI if k == "pccli" else DEP if k == "dep" else CLI) for _ in range(rng.choice([1, 1, 2, 3]) if k != "dep" else 1)]
        sc["out"] = rng.random() < .6
        sc["plots"] = [p for p in ("--plot-raw-data", "--plot-dis-videos", "--plot-observers") if rng.random() < .5] if rng.random() < .12 else []
        sc["print"] = rng.random() < .6
        sc["how"] = rng.choice(["agg", "aggmodel", "persub", "pc", "pc", "comb", "dict", "write", "synthetic", "missing"])
        sc["pcopt"] = rng.choice([{}, dict(sampling_rate=.5, sampling_seed=3), dict(noise_level=.5, sampling_seed=0), dict(pc_type="within_subject"),
                                  dict(tiebreak_method="coin_toss", sampling_seed=7)])
        sc["subjects"] = rng.random() < .3
    ls = rng.sample(range(len(launch.HASHSEEDS)), 3)
    sc["launches"] = [dict(h=h, tz=rng.choice(["UTC", "Asia/Tokyo", "EST5EDT"]), wall=rng.choice([0.0, 1.6e9, 1.7e9 + rng.randrange(10**7), 4.2e9]),
                           pid=rng.randint(2, 4000000), cwd=rng.choice(["/", "w", "w/sub dir"]), cpus=rng.choice([1, 2, 8, 64]), age=rng.choice([0, 1, 86400, 10 ** 8]), umask=rng.choice([0o22, 0o77, 0o2]), rseed=rng.randrange(2**31), enc=locale_encoding(rng),
                           env=rng.choice([{}, dict(LANG="C", USER="ann"), dict(LANG="de_DE.UTF-8", COLUMNS="40", HOME="/nonexistent", USER="bob", LC_ALL="C"),
                                           dict(PYTHONDONTWRITEBYTECODE="", TERM="dumb", DISPLAY=":1")])) for h in ls]
    return sc


def op_lists(sc):
    return []


def simplify(sc):
    base = json.loads(json.dumps(sc["launches"][0]))
    for i in range(1, len(sc["launches"])):
        for k in base:
            c = json.loads(json.dumps(sc))
            c["launches"][i][k] = base[k]
            yield c
    for i in range(1, len(sc["launches"])):
        c = json.loads(json.dumps(sc))
        del c["launches"][i]
        if len(c["launches"]) > 1:
            yield c


def operate(sc, root):
    import runpy
    out = root + "/out"
    os.makedirs(out, exist_ok=True)
    k = sc["kind"]
    if k == "table":
        p = root + "/in/" + sc["name"]
        sys.argv = ["mos_to_sureal.py", p] + sc["args"]
        runpy.run_path(os.path.join(REPO, "resource/util/mos_to_sureal.py"), run_name="__main__")
        return 0
    if k == "demo":
        sys.argv = ["demo.py", "--input-csv", root + "/in/" + sc["name"]]
        runpy.run_path(os.path.join(REPO, sc["demo"]), run_name="__main__")
        return 0
    ds = root + "/in/d0." + ("json" if sc["json"] else "py")
    if k in ("cli", "pccli"):
        import sureal.__main__ as m
        sys.argv = ["sureal", "--dataset", ds, "--models"] + sc["models"] + sc["plots"] + (["--output-dir", out + "/o"] if sc["out"] else [])
        return m.main()
    if k == "dep":
        import sureal.cmd_deprecated as m
        sys.argv = ["sureal", sc["models"][0], ds] + (["--output-dir", out + "/o"] if sc["out"] and sc["plots"] else []) + (["--print"] if sc["print"] else [])
        if not (sc["out"] and sc["plots"]):
            import sureal.routine as r                         # plots cost a second each: only in some cases
            real = m.run_subjective_models
            m.run_subjective_models = lambda **kw: real(**dict(kw, do_plot=[]))
        return m.main()
    import numpy as np
    from sureal import dataset_reader as dr, subjective_model as sm
    from sureal.tools.misc import import_python_file, import_json_file
    d = (import_json_file if sc["json"] else import_python_file)(ds)
    r = dr.RawDatasetReader(d)
    E = len(d.dis_videos)
    p = out + "/exp.py"
    h = sc["how"]
    if h == "agg":
        r.to_aggregated_dataset_file(p, [1.5 * i for i in range(E)])
    elif h == "aggmodel":
        m = c01.classes()[sc["models"][0]](r)
        m.run_modeling()
        m.to_aggregated_dataset_file(p)
    elif h == "persub":
        r.to_persubject_dataset_file(p, r.opinion_score_3darray[:, :, 0])
    elif h == "pc":
        r.to_pc_dataset_file(p, **sc["pcopt"])
    elif h == "comb":
        d2 = import_python_file(root + "/in/d1.py")
        r.to_combined_overlap_dataset_file(p, dr.RawDatasetReader(d2))
    elif h == "dict":
        r.to_dictionary_style_dataset_file(p)
    elif h == "write":
        r.write_out_dataset(d, p)
    elif h == "synthetic":
        S, C = sc["spec"]["S"], len(d.ref_videos)
        rr = dr.SyntheticRawDatasetReader(d, input_dict=dict(quality_scores=np.linspace(1, 5, E), observer_bias=np.linspace(-1, 1, S),
                                          observer_inconsistency=np.ones(S), content_bias=np.zeros(C), content_ambiguity=np.ones(C), seed=5))
        rr.write_out_dataset(rr.to_dataset(), p)
    else:
        rr = dr.MissingDataRawDatasetReader(d, input_dict=dict(missing_probability=.3, seed=5))
        rr.write_out_dataset(rr.to_dataset(), p)
    return 0


def launched(req):
    """runs in the child of a launch interpreter"""
    import numpy as np
    import time
    sc, l, root = req["sc"], req["launch"], req["root"]
    os.environ["TZ"] = l["tz"]
    time.tzset()
    for k, v in l["env"].items():
        os.environ[k] = v
    import multiprocessing
    os.cpu_count = multiprocessing.cpu_count = lambda: l["cpus"]
    os.umask(l["umask"])
    os.environ["PWD"] = os.path.join(root, l["cwd"])
    os.makedirs(root + "/w/sub dir", exist_ok=True)
    os.chdir(os.path.join(root, l["cwd"]))
    fd = seams.R.os_open(root + "/stdout", os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
    os.dup2(fd, 1)
    n = seams.R.os_open("/dev/null", os.O_WRONLY)
    os.dup2(n, 2)
    sys.stdout = seams.R.open(1, "w", closefd=False, encoding="utf-8", newline="\n")
    np.random.seed(l["rseed"])
    random.seed(l["rseed"])
    w = World(root=root, seed="launch/%d" % l["rseed"], pid=l["pid"], trace_lines=False)
    w.wall_off = l["wall"]
    w.encoding = l.get("enc", "utf-8")
    seams.set_world(w)
    res = outcome(lambda: operate(sc, root))
    try:
        sys.stdout.flush()
    except Exception:
        pass
    seams.set_world(None)
    with seams.R.open(root + "/stdout", "rb") as f:
        so = f.read()
    return dict(outcome=[res[0], str(res[1])], detail=str(res)[:300], stdout=base64.b64encode(so).decode(), files=launch.collect(root + "/out"),
                stray=sorted(os.listdir(os.path.join(root, "w"))))


def where(a, b):
    a, b = base64.b64decode(a), base64.b64decode(b)
    i = next((j for j in range(min(len(a), len(b))) if a[j] != b[j]), min(len(a), len(b)))
    return "at byte %d: %r / %r" % (i, a[max(0, i - 60):i + 80], b[max(0, i - 60):i + 80])


def execute(sc, refs, root, explicit):
    v = None
    probes, outs = {}, []
    for l in sc["launches"]:
        base = root + "/x"
        shutil.rmtree(base, ignore_errors=True)
        os.makedirs(base + "/in")
        if sc["kind"] in ("table", "demo"):
            gen.write(base + "/in/" + sc["name"], sc["csv"])
        else:
            for i, s in enumerate([sc["spec"], sc.get("spec2") or sc["spec"]]):
                if sc.get("subjects"):
                    s["attrs"]["subjects"] = [dict(name=n) for n in gen.SUBJ + gen.TWINS]
                gen.write(base + "/in/d%d.py" % i, gen.as_py(s))
                if s["kind"] != "pc":
                    gen.write(base + "/in/d%d.json" % i, gen.as_json(s))
        for f in os.listdir(base + "/in"):
            seams.R.utime(base + "/in/" + f, (1.7e9 - l["age"],) * 2)
        r = POOL.ask(l["h"], dict(sc=sc, launch=l, root=base))
        if r is None:
            return dict(viol=None, record={}, hash="too-long", probes=dict(too_long=1))
        if "error" in r:
            raise RuntimeError(r["error"])
        outs.append(r)
    a = outs[0]
    bump(probes, "kind_" + sc["kind"])
    bump(probes, "outcome_" + a["outcome"][0])
    bump(probes, "bytes_compared", len(a["stdout"]) + sum(map(len, a["files"].values())))

    def name(i):
        l = sc["launches"][i]
        return "launch %d (hash seed %s, %s)" % (i, launch.HASHSEEDS[l["h"]], {k: x for k, x in l.items() if k != "h"})
    for i, b in enumerate(outs[1:], 1):
        pre = "%s %s: %s and %s differ in " % (sc["kind"], sc.get("how", "") if sc["kind"] == "export" else sc.get("models", ""), name(0), name(i))
        if a["outcome"] != b["outcome"]:
            v = viol("different-outcome", pre + "outcome: %s / %s" % (a["detail"], b["detail"]))
        elif a["stdout"] != b["stdout"]:
            v = viol("different-output", pre + "printed output " + where(a["stdout"], b["stdout"]))
        elif sorted(a["files"]) != sorted(b["files"]):
            v = viol("different-files", pre + "files %s / %s" % (sorted(a["files"]), sorted(b["files"])))
        elif a["stray"] != b["stray"]:
            v = viol("different-files", pre + "files left in the current directory %s / %s" % (a["stray"], b["stray"]))
        else:
            for n in sorted(a["files"]):
                if a["files"][n] != b["files"][n]:
                    v = viol("different-bytes", pre + "file %s " % n + where(a["files"][n], b["files"][n]))
                    break
        if v:
            break
    n = len(sc["launches"])
    return dict(viol=v, record={}, hash=loghash([sc["kind"], a["outcome"], [base64.b64decode(x).decode("latin-1") for x in [a["stdout"]] + [a["files"][f] for f in sorted(a["files"])]]]
                                                if not v else [v["class"]]),
                faults=dict(hash_seed_changed=len({l["h"] for l in sc["launches"]}) - 1, clock_changed=len({l["wall"] for l in sc["launches"]}) - 1,
                            directory_changed=len({l["cwd"] for l in sc["launches"]}) - 1, environment_changed=len({str(l["env"]) for l in sc["launches"]}) - 1),
                probes=probes, sim_time=0.0, steps=n, ops=n, switches=0, nontrivial=a["outcome"][0] == "ok",
                sample=dict(kind=sc["kind"], launches=sc["launches"]), trace=[])

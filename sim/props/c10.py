"""C10 seeded randomness is reproducible and private."""
import json
import sys

from .. import gen, canon
from .common import *
from . import c01

ID = "C10"
TECHNIQUE = "seeded thread schedules, global-generator histories and interruptions around seeded operations, compared with a fresh process and a shadow model of the global generators"
LEVEL_NOTE = "seeded search; real readers, converters and models; the global numpy and random generators are shadowed by a reference model"
REF_SERVER = True          # references come from an interpreter with another string-hash seed
RUNS = dict(quick=5000, thorough=120000)
WALL = dict(quick=200, thorough=1500)
RULE = ("a case is one seeded history of operations with a seed (synthetic, logistic and missing-data scores, sampled paired comparisons, "
        "bootstrap, subject subsampling, synthetic validation), of the same without a seed, and of draws from and seedings of the global "
        "generators, in one to three threads, some interrupted; non-trivial when at least two operations with a seed ran")
COMPONENTS = dict(real=["sureal.dataset_reader", "sureal.experimental", "sureal.routine", "sureal.subjective_model", "numpy, scipy, random"],
                  stub=["thread scheduler", "standard output", "files (real files behind a simulated layer)"])
ASSUMPTIONS = ["operations without a seed run one at a time", "results compared exactly in structure and with relative tolerance 1e-9 in numbers"]

SEEDED = ["syn", "syn", "log", "miss", "miss", "pc", "pc", "pc", "pcfile", "stats", "boot", "validate", "todataset", "scatter"]
UNSEEDED = ["syn", "log", "miss", "pc", "pc", "stats", "validate", "csub", "cdata", "todataset"]
PCOPTS = [dict(sampling_rate=.5), dict(sampling_rate=1.5), dict(per=1), dict(noise_level=.8), dict(cointoss_rate=.4), dict(tiebreak_method="coin_toss"),
          dict(sampling_rate=.7, noise_level=.5, cointoss_rate=.2, tiebreak_method="coin_toss", pc_type="within_subject"),
          dict(pc_type="within_subject", noise_level=1.0), dict(per_noise=1), dict(per_coin=1), dict(sampling_rate=.3, per_noise=1)]


def generate(rng, tier):
    mode = rng.choice(["private", "private", "private", "repro"])
    specs = [gen.raw_spec(rng, small=True, style=rng.choice(["list", "dict", "dict_missing", "list_float", "tuple"]))]
    if rng.random() < .5:
        specs.append(c01.perturb(rng, specs[0]))
    if rng.random() < .3:
        specs.append(gen.raw_spec(rng, small=True, style=rng.choice(["list", "dict"])))
    for s in specs:
        s["attrs"].setdefault("ref_score", 5.0)
    seeds = rng.sample([0, 0, 1, 2, 3, 17, 1234, 2**31 - 1, 2**32 - 1], 2)
    heavy = rng.random() < .25
    nums = [[round(rng.uniform(.2, 4), 3) for _ in range(60)] for _ in range(2)]

    def op(seeded):
        k = rng.choice(SEEDED if seeded else UNSEEDED)
        if k in ("stats", "boot", "validate", "scatter") and not heavy:
            k = rng.choice(["syn", "miss", "pc"])
        o = dict(op=k, ds=rng.randrange(len(specs)), seed=rng.choice(seeds) if seeded else None, nums=rng.randrange(2),
                 amb=rng.random() < .3, prob=rng.choice([.2, .5, 0, .9]), opts=dict(rng.choice(PCOPTS)), keep=rng.random() < .5,
                 cls=rng.choice(["MOS", "MLE_CO_AP", "SR_MOS"]), frac=rng.choice([.4, .7, 1.0]), nb=rng.choice([1, 2]),
                 behavior=rng.choice([None, "shuffle", "flip", "constant", "min"]), flags=[rng.random() < .7, rng.random() < .4],
                 np_seed=rng.random() < .15)
        if seeded and rng.random() < .12:
            o["cancel"] = [rng.randint(1, rng.choice([10, 40, 200])), rng.choice(["KeyboardInterrupt", "MemoryError", "Cancelled"])]
        return o

    def noise():
        return dict(op="noise", do=rng.choice(["np", "np", "py", "gauss", "npgauss", "seed", "pyseed"]), n=rng.randint(1, 5), seed=rng.randrange(1000))
    nt = 1 if mode == "repro" else rng.choice([1, 2, 2, 3])
    threads = []
    for _ in range(nt):
        ops = []
        for _ in range(rng.randint(3, 8)):
            r = rng.random()
            if mode == "repro" and r < .4:
                ops.append(op(False))
            else:
                ops.append(op(True) if r < .75 else noise())
        threads.append(ops)
    if rng.random() < .3 and threads[0]:
        threads[-1].append(json.loads(json.dumps(next((o for o in threads[0] if o["op"] != "noise"), threads[0][0]))))
    return dict(mode=mode, specs=specs, nums=nums, threads=threads, start=rng.randrange(10**6), p_switch=rng.choice([.01, .05, .2, .4]))


def op_lists(sc):
    return [["threads", i] for i in range(len(sc["threads"]))]


def path(root, i):
    return "%s/d%d.py" % (root, i)


def run(sc, root, op, cache, label):
    """the operation itself; returns plain data"""
    import numpy as np
    from sureal import dataset_reader as dr, routine
    cl = c01.classes()
    s = sc["specs"][op["ds"]]
    S, E, C = s["S"], len(s["dis"]), len(s["refs"])
    k = op["op"]
    n = sc["nums"][op["nums"]]
    seed = op["seed"]
    syn = dict(quality_scores=list(n[:E]), observer_bias=np.array(n[E:E + S]), observer_inconsistency=np.array(n[E + S:E + 2 * S]),
               content_bias=np.array(n[E + 2 * S:E + 2 * S + C]), content_ambiguity=np.array(n[E + 2 * S + C:E + 2 * S + 2 * C]))
    if seed is not None or op["keep"]:
        syn["seed"] = seed
    if op["amb"] and k in ("syn", "todataset"):
        syn["quality_ambiguity"] = list(n[:E])

    def reader(kind, d):
        """sometimes the reader object of an earlier operation"""
        key = (kind, op["ds"], op["nums"], seed, op["amb"], op["prob"], op["behavior"])
        if cache is not None and op["keep"]:
            if key not in cache:
                cache[key] = kind(gen.as_object(s), input_dict=d)
            return cache[key]
        return kind(gen.as_object(s), input_dict=d)
    if k == "syn":
        return canon.canon(reader(dr.SyntheticRawDatasetReader, syn).opinion_score_3darray)
    if k == "todataset":
        x = reader(dr.SyntheticRawDatasetReader, syn).to_dataset()
        return canon.canon([v["os"] for v in x.dis_videos])
    if k == "log":
        return canon.canon(reader(dr.SyntheticLogisticRawDatasetReader, syn).opinion_score_3darray)
    if k == "miss":
        d = dict(missing_probability=op["prob"])
        if seed is not None or op["keep"]:
            d["seed"] = seed
        return canon.canon(reader(dr.MissingDataRawDatasetReader, d).opinion_score_3darray)
    if k == "csub":
        return canon.canon(reader(dr.CorruptSubjectRawDatasetReader, dict(selected_subjects=[0, 1], corrupt_behavior=op["behavior"],
                                                                          corrupt_probability=op["prob"] or None)).opinion_score_3darray)
    if k == "cdata":
        return canon.canon(reader(dr.CorruptDataRawDatasetReader, dict(corrupt_probability=op["prob"])).opinion_score_3darray)
    if k in ("pc", "pcfile"):
        o = dict(op["opts"])
        if o.pop("per", None):
            o["per_asset_sampling_rates"] = list(n[:E])
        if o.pop("per_noise", None):
            o["per_asset_noise_levels"] = list(n[:E])
        if o.pop("per_coin", None):
            o["per_asset_cointoss_rates"] = [x / 5 for x in n[:E]]
        if seed is not None or op["keep"]:
            o["sampling_seed"] = seed
        r = dr.RawDatasetReader(gen.as_object(s))
        if k == "pcfile":
            p = "%s/pc_%s.py" % (root, label)
            r.to_pc_dataset_file(p, **o)
            with seams.R.open(p) as f:
                return f.read()
        return canon.canon(r.to_pc_dataset(**o).dis_videos)
    if k == "stats":
        return canon.canon(routine.get_sample_stats([dict(path=path(root, op["ds"]))], [cl[op["cls"]]], subj_fraction=op["frac"], random_seed=seed))
    if k == "scatter":
        import matplotlib.pyplot as plt
        got = []

        def wrapper(*a):
            r = routine._get_sample_stats_wrapper(*a)
            got.append(canon.canon(r))
            return r
        w = seams.WORLD
        if w:
            w.enter_atomic()
        try:
            routine.plot_scatter_target_vs_compared_models(["MOS"], [op["cls"]], [dict(path=path(root, op["ds"]))], target_subj_fraction=None,
                                                           compared_subj_fraction=.7, random_seed=seed, get_sample_stats_wrapper_method=wrapper)
        finally:
            plt.close("all")
            if w:
                w.exit_atomic()
        return got
    if k == "boot":
        return canon.canon(cl["MLE_CO_BSTP"](dr.RawDatasetReader(gen.as_object(s))).run_modeling(
            n_bootstrap=op["nb"], delta_thr=.3, bootstrap_subjects=op["flags"][0], boostrap_dis_videos=op["flags"][1]))
    if k == "validate":
        more = {}
        if op["prob"] in (.2, .5):
            more["missing_probability"] = op["prob"]
        p = None
        if op["flags"][0]:
            p = more["output_synthetic_dataset_filepath"] = "%s/syn_%s.py" % (root, label)
        r = routine.validate_with_synthetic_dataset(dr.SyntheticRawDatasetReader, [cl[op["cls"]]], path(root, op["ds"]), syn, {}, **more)
        out = [canon.canon(r["results"])]
        if p:
            with seams.R.open(p) as f:
                out.append(f.read())
        return out
    raise AssertionError(k)


def okey(sc, op):
    o = {a: b for a, b in op.items() if a not in ("cancel", "ds", "nums")}
    return json.dumps(["C10", o, sc["specs"][op["ds"]], sc["nums"][op["nums"]]], sort_keys=True)


def chain(sc):
    return [o for o in sc["threads"][0] if o["op"] == "noise" or o["seed"] is None]


def refs(sc):
    out = {}
    root = ROOT                                                                   # noqa

    def files():
        c01._silence()
        for i, s in enumerate(sc["specs"]):
            gen.write(path(root, i), gen.as_py(s))

    def one(op):
        def go():
            files()
            return outcome(lambda: run(sc, root, op, None, "ref"))
        return go

    def whole():
        import numpy as np
        import random as rnd
        files()
        np.random.seed(sc["start"])
        rnd.seed(sc["start"])
        res = []
        for o in chain(sc):
            res.append(noise(o, np.random, rnd) if o["op"] == "noise" else outcome(lambda: run(sc, root, o, None, "ref")))
        return res
    for t in sc["threads"]:
        for o in t:
            if o["op"] != "noise" and o["seed"] is not None:
                out[okey(sc, o)] = one(o)
    if sc["mode"] == "repro":
        out["chain/%d/%s" % (sc["seed"], json.dumps(sc["threads"])[:100000])] = whole
    return out


def noise(op, npr, pyr):
    k, n = op["do"], op["n"]
    if k == "np":
        return npr.random_sample(n).tolist()
    if k == "npgauss":
        return npr.normal(0, 1, n).tolist()
    if k == "py":
        return [pyr.random() for _ in range(n)]
    if k == "gauss":
        return [pyr.gauss(0, 1) for _ in range(n)]
    if k == "seed":
        npr.seed(op["seed"])
    else:
        pyr.seed(op["seed"])
    return None


def execute(sc, refs, root, explicit):
    import numpy as np
    import random as rnd
    d = Decider(sc["seed"], dict(p_switch=sc["p_switch"], p_switch_io=.3), explicit)
    w = World(root=root, decider=d, seed=sc["seed"], target_prefixes=TARGETS)
    for i, s in enumerate(sc["specs"]):
        gen.write(path(root, i), gen.as_py(s))
    st = dict(v=None, n=0)
    probes, outc = {}, []
    shadow_np, shadow_py = np.random.RandomState(sc["start"]), random.Random(sc["start"])
    np.random.seed(sc["start"])
    rnd.seed(sc["start"])
    private = sc["mode"] == "private"
    cache = {}
    chain_res = []

    def bad(cls, msg):
        if st["v"] is None:
            st["v"] = viol(cls, msg)

    def gstate(n, p):
        a = n.get_state()
        return (a[1].tobytes(), a[2], a[3], round(a[4], 12)), p.getstate()

    def globals_ok(where):
        a, b = gstate(np.random, rnd), gstate(shadow_np, shadow_py)
        if a != b:
            bad("generator-disturbed", "%s: the global %s generator is not as the caller left it" % (where, "numpy" if a[0] != b[0] else "random"))
            shadow_np.set_state(np.random.get_state())
            shadow_py.setstate(rnd.getstate())

    def do(label, op):
        if op["op"] == "noise":
            got = noise(op, np.random, rnd)
            bump(probes, "global_draws")
            if private:
                if got != noise(op, shadow_np, shadow_py):
                    bad("generator-disturbed", "%s: a draw from the global generators is not the one their state implied" % label)
                globals_ok(label)
            else:
                chain_res.append(got)
            w.yield_point("line")
            return
        seeded = op["seed"] is not None
        before = gstate(np.random, rnd) if not private and seeded else None
        w.begin_op(label, tuple(op["cancel"]) if op.get("cancel") else None)
        res = outcome(lambda: run(sc, root, op, cache, label.replace(".", "_")))
        w.end_op()
        hit = ("cancel", w.cur, op["cancel"][1]) in w.log if op.get("cancel") else False
        st["n"] += 1
        outc.append([label, op["op"], res[0], loghash(res[1])])
        bump(probes, "%s_%s" % ("seeded" if seeded else "unseeded", op["op"]))
        if seeded:
            if private:
                globals_ok("after %s (%s, seed %s)" % (label, op["op"], op["seed"]))
            elif gstate(np.random, rnd) != before:
                bad("generator-disturbed", "after %s (%s, seed %s): the global generators are not as the caller left them" % (label, op["op"], op["seed"]))
            if res[0] == "exc" and hit:
                bump(probes, "interrupted")
                return
            ref = refs[okey(sc, op)]
            what = "%s: %s with seed %s" % (label, op["op"], op["seed"])
            if res[0] != ref[0]:
                bad("not-reproducible", "%s gave %s, alone %s" % (what, str(res)[:300], str(ref)[:300]))
            elif res[0] == "exc":
                if res[1] != ref[1]:
                    bad("not-reproducible", "%s raised %s, alone %s" % (what, res[1:], ref[1:]))
            elif not canon.same(res[1], ref[1]):
                bad("not-reproducible", "%s differs from the same in a fresh process: %s" % (what, canon.diff(ref[1], res[1])))
        else:
            chain_res.append(res)

    def thread(ti):
        def go():
            for oi, op in enumerate(sc["threads"][ti]):
                do("t%d.%d" % (ti, oi), op)
        return go
    seams.set_world(w)
    old = sys.stdout
    sys.stdout = c01.Stdout()
    try:
        w.run_threads([("t%d" % i, thread(i)) for i in range(len(sc["threads"]))])
    finally:
        sys.stdout = old
        seams.set_world(None)
    if private:
        globals_ok("at the end")
    else:
        ref = next(v for k, v in refs.items() if k.startswith("chain/"))
        for o, a, b in zip(chain(sc), chain_res, ref):
            bump(probes, "unseeded_compared")
            if not canon.same(canon.canon(a), canon.canon(b)):
                bad("not-reproduced-by-seeding", "%s without a seed: with the global generators seeded by %d it gave another result than in a fresh process "
                    "seeded alike: %s" % (o["op"], sc["start"], canon.diff(canon.canon(b), canon.canon(a))))
    bump(probes, "operations", st["n"])
    if w.switch_count > 2:
        bump(probes, "overlapping")
    return dict(viol=st["v"], record=d.record(), hash=loghash([w.log, outc]), faults=d.fired, probes=probes,
                sim_time=w.mono - 1000.0, steps=w.steps + w.io_total, ops=st["n"], switches=w.switch_count,
                nontrivial=st["n"] >= 2, sample=dict(mode=sc["mode"], threads=sc["threads"]),
                trace=[str(x) for x in w.log[-100:]] + [str(x) for x in outc])

"""C12 measured run times."""
import sys

from .. import gen
from .common import *
from . import c01

ID = "C12"
TECHNIQUE = "seeded delays, wall-clock steps, nested and concurrent timers and failing work under a simulated clock"
LEVEL_NOTE = "seeded search under a simulated clock; the timer, the synthetic validation and the models are real"
RUNS = dict(quick=9000, thorough=200000)
WALL = dict(quick=150, thorough=1200)
RULE = ("a case is one seeded program of nested, repeated and concurrent timers and timed synthetic validations whose work sleeps, fails or is "
        "interrupted while the wall clock is stepped; non-trivial when the wall clock stepped, timers nested or overlapped, or work failed")
COMPONENTS = dict(real=["sureal.tools.misc.Timer", "sureal.routine.validate_with_synthetic_dataset", "the timed models"],
                  stub=["all clocks and sleep", "thread scheduler"])
ASSUMPTIONS = ["reading a clock takes one simulated microsecond", "a timer object is used by one thread at a time"]


def generate(rng, tier):
    def delay():
        return rng.choice([0, 0, .001, .25, 1, 30, 4000, 1e5]) if rng.random() < .8 else round(rng.expovariate(1), 6)

    def work(depth):
        out = []
        for _ in range(rng.randint(0, 3)):
            r = rng.random()
            if r < .5 or depth > 2:
                out.append(dict(do="sleep", s=delay()))
            elif r < .6:
                out.append(dict(do="step", by=rng.choice([-3600, -5, -.5, .5, 3600, 1e6, -1e6])))
            elif r < .9:
                out.append(timer(depth + 1))
            else:
                out.append(dict(do="cpu", s=rng.choice([.1, 5])))
        return out

    def timer(depth):
        return dict(do="timer", reuse=rng.random() < .25, body=work(depth), fail=rng.choice([None, None, None, "ValueError", "KeyboardInterrupt", "SystemExit"]))
    threads = []
    val = rng.random() < .12
    for _ in range(rng.choice([1, 1, 2, 3])):
        ops = [timer(0) for _ in range(rng.randint(1, 3))]
        if val and rng.random() < .7:
            n = rng.choice([1, 1, 2, 3])
            ops.insert(rng.randint(0, len(ops)), dict(do="validate", cls=rng.sample(["MOS", "MLE_CO_AP", "SR_MOS"], n), work=[delay() for _ in range(3)],
                                                      step=rng.choice([0, 0, -4000, 77]), slow_export=delay(), out=rng.random() < .5, slow_read=rng.choice([0, 0, 5]),
                                                      fail=rng.random() < .1, miss=rng.choice([None, .2])))
        threads.append(ops)
    return dict(threads=threads, p_switch=rng.choice([.05, .3]), spec=gen.raw_spec(rng, small=True, style="list"),
                nums=[round(rng.uniform(.5, 4), 3) for _ in range(60)],
                jumps=[[round(1000 + rng.expovariate(.01), 4), rng.choice([-1e5, -3.0, 1e4])] for _ in range(rng.choice([0, 1, 3]))])


def op_lists(sc):
    return [["threads", i] for i in range(len(sc["threads"]))]


def execute(sc, refs, root, explicit):
    import numpy as np
    from sureal.tools.misc import Timer
    from sureal import routine, dataset_reader as dr
    cl = c01.classes()
    d = Decider(sc["seed"], dict(p_switch=sc["p_switch"], p_switch_io=.3), explicit)
    w = World(root=root, decider=d, seed=sc["seed"], target_prefixes=TARGETS)
    w.clock_jumps = sorted(map(tuple, sc["jumps"]))
    st = dict(v=None, n=0, nest=0)
    probes, outc = {}, []
    s = sc["spec"]
    gen.write(root + "/d.py", gen.as_py(s))

    def bad(cls, msg):
        if st["v"] is None:
            st["v"] = viol(cls, msg)

    reusable = {}

    def perform(label, body, depth):
        for i, o in enumerate(body):
            k = o["do"]
            if k == "sleep":
                import time
                time.sleep(o["s"])
                outc.append(["slept", label])
            elif k == "step":
                w.wall_off += o["by"]
                bump(probes, "wall_steps")
            elif k == "cpu":
                w.cpu += o["s"]
                w.mono += o["s"]
            else:
                timer("%s.%d" % (label, i), o, depth + 1)

    def timer(label, o, depth):
        if depth:
            bump(probes, "nested")
        tm = reusable.setdefault((w.cur, depth), Timer()) if o["reuse"] else Timer()
        name = "timer %s%s" % (label, " (used before)" if o["reuse"] else "")
        st["n"] += 1
        a = b = None
        got = None
        try:
            with tm as t:
                got = t
                w.enter_atomic()
                a = w.mono
                w.exit_atomic()
                perform(label, o["body"], depth)
                w.enter_atomic()
                b = w.mono
                w.exit_atomic()
                if o["fail"]:
                    raise {"ValueError": ValueError, "KeyboardInterrupt": KeyboardInterrupt, "SystemExit": SystemExit}[o["fail"]]("planned")
        except (ValueError, KeyboardInterrupt, SystemExit) as e:
            bump(probes, "failed_work")
            if not o["fail"] or str(e) != "planned":
                raise
        else:
            if o["fail"]:
                bad("error-lost", "%s swallowed the exception of its work" % name)
        c = w.mono
        # another thread may have run between our reading of the time and the timer's
        lo, hi = b - a, c - starts[label]
        got_i = outcome(lambda: got.interval)
        if got_i[0] != "ok":
            bad("no-interval", "%s: %s" % (name, got_i[1:]))
            return
        g = got_i[1]
        outc.append([label, round(float(g), 5)])
        bump(probes, "intervals")
        if not isinstance(g, (int, float)) or g != g or g < 0:
            bad("negative", "%s: measured %r s" % (name, g))
        elif g < lo - 1e-3 or g > hi + 1e-3:
            bad("wrong-interval", "%s: measured %.6f s, between %.6f and %.6f s elapsed" % (name, g, lo, hi))
        kept.append((name, got, g, o["reuse"]))
    starts = {}
    kept = []

    def validate(label, o):
        S, E, C = s["S"], len(s["dis"]), len(s["refs"])
        n = sc["nums"]
        syn = dict(quality_scores=list(n[:E]), observer_bias=np.array(n[E:E + S]), observer_inconsistency=np.array(n[E + S:E + 2 * S]),
                   content_bias=np.zeros(C), content_ambiguity=np.zeros(C), seed=1)
        spans = {}
        order = iter(o["work"] * 3)

        class SlowReader(dr.SyntheticRawDatasetReader):
            def write_out_dataset(self, *a, **k):
                w.sleep(o["slow_export"])
                return super().write_out_dataset(*a, **k)

        def slow(cls):
            class Slow(cls):
                TYPE = cls.TYPE

                def run_modeling(self, **kw):
                    a = w.mono
                    r = super().run_modeling(**kw)
                    w.sleep(next(order))
                    w.wall_off += o["step"]
                    if o["fail"]:
                        raise ValueError("planned")
                    spans[cls.TYPE] = w.mono - a
                    return r
            return Slow
        more = dict(measure_runtime=True)
        if o["out"]:
            more["output_synthetic_dataset_filepath"] = "%s/syn_%s.py" % (root, label.replace(".", "_"))
        if o["miss"]:
            more["missing_probability"] = o["miss"]
        w.begin_op(label)
        clss = [slow(cl[c]) for c in o["cls"]]
        r = outcome(lambda: routine.validate_with_synthetic_dataset(SlowReader, clss, root + "/d.py", syn, {}, **more))
        w.end_op()
        st["n"] += 1
        if r[0] != "ok":
            if not o["fail"]:
                bad("validate-failed", "%s: %s" % (label, r[1:]))
            return
        bump(probes, "validations")
        for c in o["cls"]:
            g = r[1]["results"][c].get("runtime")
            if g is None:
                bad("no-runtime", "%s: no run time for %s" % (label, c))
                continue
            true = spans[c]
            outc.append([label, c, round(float(g), 5)])
            extra = concurrent_slack()
            if g < 0 or g < true - 1e-3 or g > true + 1e-3 + extra:
                bad("wrong-runtime", "%s: run time of %s is %.6f s, %.6f s elapsed" % (label, c, g, true))

    def concurrent_slack():
        # with other threads, time can pass between the model's start/end and the timer's readings
        return 0.0 if len(sc["threads"]) == 1 else w.mono - 1000.0

    def thread(ti):
        def go():
            for oi, o in enumerate(sc["threads"][ti]):
                label = "t%d.%d" % (ti, oi)
                if o["do"] == "validate":
                    validate(label, o)
                else:
                    timer(label, o, 0)
        return go

    # the instant just before a timer is entered (other threads may run between it and the timer's own reading)
    _timer = timer

    def timer(label, o, depth):                                              # noqa
        w.retrace()
        starts[label] = w.mono
        return _timer(label, o, depth)
    seams.set_world(w)
    old = sys.stdout
    sys.stdout = c01.Stdout()
    try:
        w.run_threads([("t%d" % i, thread(i)) for i in range(len(sc["threads"]))])
    finally:
        sys.stdout = old
        seams.set_world(None)
    for name, t, g, reuse in kept:
        if not reuse and t.interval != g:
            bad("interval-changed", "%s: the interval it had measured changed later from %r to %r" % (name, g, t.interval))
    if w.switch_count > 2:
        bump(probes, "overlapping")
    f = dict(d.fired)
    if w.jumps_fired or probes.get("wall_steps"):
        f["wall_clock_step"] = w.jumps_fired + probes.get("wall_steps", 0)
    if probes.get("failed_work"):
        f["failing_work"] = probes["failed_work"]
    return dict(viol=st["v"], record=d.record(), hash=loghash([w.log, outc]), faults=f, probes=probes, sim_time=w.mono - 1000.0,
                steps=w.steps, ops=st["n"], switches=w.switch_count,
                nontrivial=bool(f) or bool(probes.get("nested")) or w.switch_count > 2, sample=sc["threads"],
                trace=[str(x) for x in w.log[-100:]] + [str(x) for x in outc])

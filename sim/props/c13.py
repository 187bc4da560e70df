"""C13 external commands."""
from .. import mp
from .common import *

ID = "C13"
TECHNIQUE = "seeded command outcomes, time limits, start errors, signals and interruptions around the real command runner"
LEVEL_NOTE = "seeded search over simulated commands; the standard library's subprocess logic above process creation is real"
RUNS = dict(quick=12000, thorough=300000)
WALL = dict(quick=120, thorough=1000)
RULE = ("a case is one seeded set of commands run from one to three threads: exit status, signal, start error, duration, time limit, kind and "
        "amount of output, an interruption of the caller; non-trivial when a command failed, was slow, printed a lot, or two overlapped")
COMPONENTS = dict(real=["sureal.tools.misc.run_process", "subprocess.check_output and run"],
                  stub=["process creation, pipes and waiting (subprocess.Popen)", "clocks"])
ASSUMPTIONS = ["'left running' is about the process the call started, not about processes that one started in turn"]


def generate(rng, tier):
    cmds = []
    for i in range(rng.choice([1, 1, 2, 3, 4])):
        r = rng.random()
        out = rng.choice(["", "", "ok", "error: failed", "bin", "long", "huge", "nul", "nl"] + sorted(TEXTS))
        c = dict(t=rng.randrange(3), rc=rng.choice([0, 0, 0, 0, 1, 2, rng.randint(1, 255), rng.randint(1, 255), 75, 124, 126, 127, 130, 137, 141, 143, 255]) if r < .85 else -rng.randint(1, 31),
                 dur=rng.choice([0, .001, .5, 3, 100, 5000]), spawn=rng.choice(["ENOENT", "EACCES", "EAGAIN", "EMFILE", "ENOMEM"]) if rng.random() < .12 else None,
                 out=out, shell=rng.random() < .5, kw={}, intr=None)
        if rng.random() < .35:
            c["kw"]["timeout"] = rng.choice([.0001, .1, 1, 60, 3600, 0])
        if rng.random() < .3:
            c["kw"]["cwd"] = "."
        if rng.random() < .2:
            c["kw"]["env"] = {"A": "b"}
        if rng.random() < .25 and out != "bin":
            c["kw"][rng.choice(["text", "universal_newlines"])] = True
        if rng.random() < .15:
            c["kw"]["input"] = b"some input" if False else "in"
        if rng.random() < .12:
            c["intr"] = rng.choice([0, .01, .3, 2])
        cmds.append(c)
    return dict(cmds=cmds, p_switch=rng.choice([.05, .3]))


def op_lists(sc):
    return [["cmds"]]


TEXTS = {t: ("tool: %s\n" % t).encode() for t in
         ["Resource temporarily unavailable", "Permission denied", "No such file or directory", "No space left on device", "Broken pipe",
          "Connection reset by peer", "timed out", "Killed", "Segmentation fault (core dumped)", "Interrupted system call", "Text file busy",
          "Device or resource busy", "out of memory", "warning: deprecated option", "usage: tool [-h]", "command not found", "Success", "0 errors", "done", "retry"]}
OUT = {**TEXTS, "": b"", "ok": b"fine\n", "error: failed": b"error: failed\nTraceback: exit 1\n", "bin": bytes(range(256)) * 3, "long": b"x" * 5000 + b"\n",
       "huge": b"line of output\n" * 20000, "nul": b"\0\0%s {0} \\ \n", "nl": b"\n" * 300}


def execute(sc, refs, root, explicit):
    from sureal.tools.misc import run_process
    d = Decider(sc["seed"], dict(p_switch=sc["p_switch"], p_switch_io=.3), explicit)
    w = World(root=None, decider=d, seed=sc["seed"], target_prefixes=TARGETS)
    script = {"simcmd-%d-x" % i: dict(spawn=c["spawn"], dur=c["dur"], rc=c["rc"], out=OUT[c["out"]], intr=c["intr"]) for i, c in enumerate(sc["cmds"])}
    w.popen = sim = mp.PopenSim(w, script)
    st = dict(v=None, n=0)
    probes, outc = {}, []

    def bad(cls, msg):
        if st["v"] is None:
            st["v"] = viol(cls, msg)

    def do(i, c):
        key = "simcmd-%d-x" % i
        kw = dict(c["kw"])
        if "input" in kw and not ("text" in kw or "universal_newlines" in kw):
            kw["input"] = b"in"
        cmd = key + " --opt 1" if c["shell"] else [key, "--opt", "1"]
        if c["shell"]:
            kw["shell"] = True
        t0 = w.mono
        w.begin_op(key)
        res = outcome(lambda: run_process(cmd, **kw))
        w.end_op()
        took = w.mono - t0
        st["n"] += 1
        kids = [k for k in sim.children if k.key == key]
        what = "command %d (status %s, lasts %s s, %s bytes of output, limit %s)" % (i, c["rc"], c["dur"], len(OUT[c["out"]]), kw.get("timeout"))
        outc.append([i, res[0], str(res[1])[:60], round(took, 6)])
        n = getattr(sim, "attempts", {}).get(key, 0)
        if n != 1:
            bad("not-once", "%s: started %d times" % (what, n))
        for k in kids:
            if k.returncode is None or not k._over():
                bad("left-running", "%s: still running (or not waited for) when the call had ended with %s" % (what, str(res)[:200]))
        limit = kw.get("timeout")
        late = limit is not None and c["dur"] > limit
        interrupted = c["intr"] is not None and res[0] == "exc" and res[1] == "KeyboardInterrupt"
        if c["spawn"]:
            expect = "exc"
        elif interrupted:
            bump(probes, "interrupted")
            return
        elif limit == 0 and c["dur"] == 0:
            return                                     # either is right
        elif late or c["rc"] != 0:
            expect = "exc"
        else:
            expect = "ok"
        bump(probes, "expect_" + expect)
        if late:
            bump(probes, "time_limit_expired")
        if res[0] == "ok":
            if expect == "exc":
                bad("false-success", "%s: reported success (%r)%s" % (what, res[1], "; it could not even be started" if c["spawn"] else ""))
            elif res[1] != 0:
                bad("wrong-return", "%s: returned %r" % (what, res[1]))
            elif kids and w.mono + 1e-9 < kids[0]._end:
                bad("early-return", "%s: returned before the command had ended" % what)
        elif expect == "ok":
            bad("false-failure", "%s: raised %s: %s" % (what, res[1], res[2]))

    def thread(t):
        def go():
            for i, c in enumerate(sc["cmds"]):
                if c["t"] == t:
                    do(i, c)
        return go
    seams.set_world(w)
    try:
        w.run_threads([("t%d" % t, thread(t)) for t in range(3)])
    finally:
        seams.set_world(None)
    if w.switch_count > 2:
        bump(probes, "overlapping")
    f = dict(d.fired)
    for k, n in sim.fired.items():
        bump(f, k, n)
    return dict(viol=st["v"], record=d.record(), hash=loghash([w.log, outc]), faults=f, probes=probes, sim_time=w.mono - 1000.0,
                steps=w.steps, ops=st["n"], switches=w.switch_count, nontrivial=bool(f) or w.switch_count > 2 or any(c["out"] in ("huge", "bin") for c in sc["cmds"]),
                sample=sc["cmds"], trace=[str(x) for x in w.log[-100:]] + [str(x) for x in outc])

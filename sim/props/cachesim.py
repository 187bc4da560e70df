"""Shared by C04 and C05: nodes (processes) and threads calling a cached function, with crashes and faults at every I/O step."""
import json
import os
import sys

from .. import seams, gen, canon
from ..procs import Cluster
from ..world import World, Decider, Hang
from .common import *

ARGS = [[1], ["1"], [1.0], [True], [None], [[1]], [], ["a", "b"], ["a', 'b"], ["a, b"], [1, 2], [12], [[1, 2]], [{"k": 1}], [{"k": "1"}],
        ["é"], ["x" * 300], [{"path": "d.py"}, None, "MOS", 1], [{"path": "d.py"}, .5, "MOS", 1], [-1], [-2], [0], [""], ["0"], [float("nan")],
        [1e-5], [1e-9], [1 / 3], [.3333333333]]
KINDS = ["tok", "tok", "tok", "big", "big", "none", "zero", "false", "empty", "estr", "nan", "unserialisable", "huge", "nested"]
CONST = dict(none=None, zero=0, false=False, empty=[], estr="")


def near(rng, args):
    """arguments that resemble the given ones but print differently (or the same ones)"""
    a = json.loads(json.dumps(args)) if not any(x != x for x in args) else list(args)
    if not a:
        return rng.choice([[None], [[]], [""], [0]])
    i = rng.randrange(len(a))
    x = a[i]
    k = rng.randrange(9)
    if isinstance(x, str):
        a[i] = [x.upper(), x + " ", " " + x, x + "\n", x[::-1], x + "\0", x[:-1], x + "x", x.replace("e", "é")][k]
    elif isinstance(x, bool) or x is None:
        a[i] = rng.choice([str(x), 0, 1, not x, "None"])
    elif isinstance(x, (int, float)) and x == x:
        a[i] = [str(x), -x, x + 1, float(x), x * (1 + 1e-15), x + 1e-9, [x], round(x, 3), x * 10][k]
    elif isinstance(x, list):
        a[i] = rng.choice([x[::-1], x + [0], str(x), x + x, x[1:], tuple(x) and [x]])
    elif isinstance(x, dict):
        a[i] = rng.choice([dict(x, z=1), dict(reversed(list(dict(x, y=2).items()))), {kk: str(v) for kk, v in x.items()}, str(x), {kk.upper(): v for kk, v in x.items()}])
    if rng.random() < .2:
        a = rng.choice([a[::-1], a + [None], [a], a[:-1] or [0], a + a])
    return a


def key(fn, args):
    return fn + str(tuple(args))


def value(kind, k, token):
    if kind in CONST:
        return [] if kind == "empty" else CONST[kind]
    if kind == "nan":
        return [float("nan"), token, k]
    if kind == "unserialisable":
        return [token, k, "x" * 500, {1, 2}]
    fill = dict(tok=0, big=900, huge=30000, nested=5)[kind]
    v = dict(tok=token, key=k, fill="é%d" % fill + "f" * fill)
    return {"a": [v, [[]], {"b": v}]} if kind == "nested" else v


def scribble(v):
    """what a caller may do with a value of its own"""
    if isinstance(v, list):
        for x in v:
            scribble(x)
        v.append("scribble")
    elif isinstance(v, dict):
        for x in list(v.values()):
            scribble(x)
        if "tok" in v:
            v["tok"] = "scribble"
        v["scribble"] = 1


def generate(rng, tier, which):
    fns = ["f"] if rng.random() < (.75 if which == "C05" else .6) else ["f", "g"]
    args = [rng.choice(ARGS) for _ in range(rng.choice([1, 2, 2, 3, 4]))]
    if rng.random() < .5:          # arguments that resemble each other
        i = rng.randrange(len(ARGS) - 1)
        args += [ARGS[i], ARGS[i + 1]]
    if rng.random() < .6:
        for _ in range(rng.randint(1, 3)):
            args.append(near(rng, rng.choice(args)))
    kinds = {}
    for f in fns:
        for a in args:
            kinds[key(f, a)] = rng.choice(KINDS[:11] if rng.random() < .8 else KINDS)
    nlen = rng.choice([1, 2, 3])

    def op():
        o = dict(f=rng.choice(fns), a=rng.randrange(len(args)), slow=rng.choice([0, 0, 1, 3]))
        if rng.random() < .12:
            o["raises"] = rng.choice(["ValueError", "KeyboardInterrupt", "KeyError"])
        if rng.random() < .2:
            o["scribble"] = True
        if rng.random() < .1:
            o["reenter"] = rng.randrange(len(args))
        return o

    def node(nops):
        nt = rng.choice([1, 1, 1, 2, 3])
        return dict(threads=[[op() for _ in range(rng.randint(1, nops))] for _ in range(nt)])
    phases = []
    for _ in range(rng.choice([1, 2, 2, 3, 4])):
        nn = rng.choice([1, 1, 2, 3]) if which == "C04" or rng.random() < .5 else 1
        ph = dict(nodes=[node(4 if nn == 1 else 3) for _ in range(nn)])
        if which == "C04" and rng.random() < .07:
            ph["clear"] = True
        phases.append(ph)
    faulty = rng.random() < .75
    if rng.random() < .012:            # very many different arguments; each is called again at the end
        n = rng.choice([40, 70, 110, 130, 160, 270] + ([540, 1050] if which == "C04" else []))
        first = len(args)
        args += [[rng.choice(["v", "video"]), i] for i in range(n)]
        ops = [dict(f=fns[0], a=first + i) for i in range(n)]
        phases = [dict(nodes=[dict(threads=[ops])])]
        return dict(fns=fns, args=args, kinds={}, phases=phases, p_io=.1, p_switch=.02, p_fault=rng.choice([0, .001]), max_faults=1, fault_kinds=["crash", "nospace", "EIO"],
                    bufsize=8192, chunk=8192, where="cache" if which == "C04" else "c.json", rel=False)
    kinds_f = rng.choice([["crash"], ["crash", "torn"], ["power"], ["nospace", "ENOSPC"], ["EIO"], ["EMFILE", "EACCES"], ["INTR"], ["short"],
                          ["crash", "power", "torn", "nospace", "ENOSPC", "EIO", "EMFILE", "EACCES", "INTR", "short"]])
    return dict(fns=fns, args=args, kinds=kinds, phases=phases, p_io=rng.choice([.1, .3, .6]), p_switch=rng.choice([.02, .1, .3]),
                p_fault=rng.choice([.02, .05, .15]) if faulty else 0, max_faults=rng.choice([1, 2, 4]), fault_kinds=kinds_f,
                bufsize=rng.choice([32, 256, 8192]), chunk=rng.choice([16, 100, 8192]),
                where=rng.choice(["cache", "a/b/c", "sp ace/é"]) if which == "C04" else rng.choice(["c.json", "d/c.json", "d/é.json"]),
                rel=rng.random() < .2, power=[i for i in range(1, len(phases) + 1) if rng.random() < .3] if rng.random() < .3 else [],
                walls=wall_steps(rng, len(phases) + 3) if rng.random() < .4 else [], encoding=locale_encoding(rng))


def op_lists(sc):
    out = [["phases"]]
    for i, p in enumerate(sc["phases"]):
        out.append(["phases", i, "nodes"])
        for j, n in enumerate(p["nodes"]):
            out.append(["phases", i, "nodes", j, "threads"])
            for t in range(len(n["threads"])):
                out.append(["phases", i, "nodes", j, "threads", t])
    return out


def execute(sc, root, explicit, which):
    from sureal.tools import decorator
    deco = decorator.persist_to_dir if which == "C04" else decorator.persist_to_file
    where = sc["where"] if sc["rel"] else os.path.join(root, sc["where"])
    if which == "C05" and os.path.dirname(sc["where"]):
        os.makedirs(os.path.join(root, os.path.dirname(sc["where"])))
    cfg = dict(p_switch_io=sc["p_io"], p_fault=sc["p_fault"], fault_kinds=sc["fault_kinds"], max_faults=sc["max_faults"])
    d = Decider(sc["seed"], cfg, explicit)
    tsw = None if explicit is None else explicit.get("tswitches", {})
    c = Cluster(root, d, dict(bufsize=sc["bufsize"], chunk=sc["chunk"], target_prefixes=TARGETS), tswitches=tsw,
                tcfg=dict(p_switch=sc["p_switch"], p_switch_io=sc["p_io"]), seed=sc["seed"])
    args_ = sc["args"]

    def node_fn(name, threads):
        def go(w):
            cnt = [0]
            cur = {}                  # thread -> (label, op)

            def compute(f, args):
                k = key(f, args)
                cnt[0] += 1
                token = "%s#%d" % (name, cnt[0])
                me = w.current().name
                label, op = cur[me]
                w.event(ev="compute", key=k, tok=token, op=label)
                for _ in range(op.get("slow", 0)):
                    w.sleep(.01)
                if op.get("reenter") is not None and len(label) < 40:
                    sub = dict(f=f, a=op["reenter"])
                    if key(f, args_[sub["a"]]) != k:
                        call(label + "r", sub)
                        cur[me] = (label, op)
                if op.get("raises"):
                    raise {"ValueError": ValueError, "KeyboardInterrupt": KeyboardInterrupt, "KeyError": KeyError}[op["raises"]]("from the function")
                w.event(ev="computed", key=k, tok=token, op=label)
                return value(sc["kinds"].get(k, "tok"), k, token)

            def mk(f):
                def fn(*args):
                    return compute(f, args)
                fn.__name__ = f
                return deco(where)(fn)
            w.begin_op("start")
            w.event(ev="start")
            fs = outcome(lambda: {f: mk(f) for f in sc["fns"]})
            w.end_op()
            w.event(ev="started", ok=fs[0] == "ok", err=fs[1:] if fs[0] != "ok" else None)
            if fs[0] != "ok":
                return 1
            fs = fs[1]

            def call(label, op):
                me = w.current().name
                k = key(op["f"], args_[op["a"]])
                cur[me] = (label, op)
                w.event(ev="call", key=k, op=label)
                top = not label.endswith("r")
                if top:
                    w.begin_op(label)
                res = outcome(lambda: fs[op["f"]](*args_[op["a"]]))
                if top:
                    w.end_op()
                v = None
                if res[0] == "ok":
                    try:
                        v = json.loads(json.dumps(res[1]))
                    except (TypeError, ValueError):
                        v = ["unserialisable", repr(res[1])[:300]]
                w.event(ev="return", key=k, op=label, ok=res[0] == "ok", v=v, err=list(res[1:]) if res[0] != "ok" else None)
                if res[0] == "ok" and op.get("scribble"):
                    scribble(res[1])

            def thread(ti, ops):
                def go():
                    for oi, op in enumerate(ops):
                        call("%s.t%d.%d" % (name, ti, oi), op)
                return go
            w.run_threads([("t%d" % i, thread(i, ops)) for i, ops in enumerate(threads)])
            return 0
        return go
    hang = None
    phases = [(ph["nodes"], ph.get("clear")) for ph in sc["phases"]]
    every = [dict(f=f, a=a) for f in sc["fns"] for a in range(len(args_)) if sc["kinds"].get(key(f, args_[a])) != "unserialisable"]
    phases.append(([dict(threads=[every + every])], False))      # recovery: faults have stopped
    phases.append(([dict(threads=[every])], False))
    pinfo = []
    try:
        for pi, (nodes, clear) in enumerate(phases):
            if pi >= len(sc["phases"]):
                d.cfg["p_fault"] = 0
            c.encoding = sc.get("encoding", "utf-8")
            c.wall_add += sc["walls"][pi] if pi < len(sc.get("walls", ())) else 0
            if pi in sc.get("power", ()):
                c.lose_power("%s/%d" % (sc["seed"], pi))
            if clear:
                import shutil
                shutil.rmtree(os.path.join(root, sc["where"]), ignore_errors=True)
                c.events.append(dict(ev="cleared", at=len(c.log)))
            c.events.append(dict(ev="phase", n=len(nodes), at=len(c.log)))
            c.phase([("p%dn%d" % (pi, ni), node_fn("p%dn%d" % (pi, ni), n["threads"])) for ni, n in enumerate(nodes)])
            if c.hang:
                hang = c.hang
                break
    except Hang as e:
        hang = str(e)
    v, probes, nret = check(sc, c, which, args_)
    if hang:
        v = v or viol("hang", hang)
    rec = d.record()
    rec["tswitches"] = c.tsw_rec
    faulted = sum(d.fired.values())
    return dict(viol=v, record=rec, hash=loghash([c.log]), faults=d.fired, probes=probes, sim_time=0.01 * len(c.log), steps=c.steps, ops=nret,
                switches=len(d.switches) + sum(map(len, c.tsw_rec.values())), nontrivial=nret >= 2,
                sample=dict(phases=sc["phases"], args=[str(a)[:60] for a in args_], kinds=list(sc["kinds"].values()), faults=d.faults),
                trace=[str(x)[:300] for x in c.log[-250:]])


def tokens(v):
    if isinstance(v, dict):
        return [v["tok"]] if "tok" in v else [t for x in v.values() for t in tokens(x)]
    if isinstance(v, list):
        return [t for x in v for t in tokens(x)]
    return []


def check(sc, c, which, args_):
    """The history oracle."""
    out = [None]
    probes = {}

    def bad(cls, msg):
        if out[0] is None:
            out[0] = viol(cls, msg)
    computed = {}             # key -> {token}
    returned = {}             # key -> event index of the first return of a value that must still be remembered (any process)
    returned_by = {}          # (node, key) -> index
    calls = {}                # (node, op) -> dict
    raises = {}
    for pi, ph in enumerate(sc["phases"]):
        for ni, n in enumerate(ph["nodes"]):
            for ti, th in enumerate(n["threads"]):
                for oi, o in enumerate(th):
                    l = "p%dn%d.t%d.%d" % (pi, ni, ti, oi)
                    raises[l] = bool(o.get("raises"))
    single = True
    nret = 0
    for i, e in enumerate(c.events):
        ev = e["ev"]
        node = e.get("node")
        if ev == "cleared":
            returned.clear()
        elif ev == "phase":
            single = e["n"] == 1
            if which == "C05" and not single:
                returned.clear()
        elif ev == "fault":
            bump(probes, "fault_at_" + e["io"])
            x = calls.get((node, e["op"]))
            if x is not None and e["kind"] not in ("short",):
                x["fault"] = True
            for (nn, l), y in calls.items():
                if nn == node and l.startswith(e["op"]) and e["kind"] != "short":
                    y["fault"] = True
            if e["op"] == "start" and e["kind"] != "short":
                calls[(node, "start")] = dict(fault=True)
        elif ev == "started":
            if not e["ok"] and not calls.get((node, "start"), {}).get("fault"):
                bad("cannot-start", "%s: a program using the cache cannot start: %s" % (node, e["err"]))
        elif ev == "call":
            calls[(node, e["op"])] = dict(key=e["key"], at=i, n=0, fault=any(y.get("fault") and e["op"].startswith(l + "r")
                                                                            for (nn, l), y in calls.items() if nn == node))
        elif ev == "compute":
            x = calls[(node, e["op"])]
            k = e["key"]
            if k != x["key"]:
                bad("wrong-arguments", "%s: function called with %s instead of %s" % (e["op"], k, x["key"]))
            x["n"] += 1
            if x["n"] > 1:
                bad("computed-twice", "%s computed the value more than once" % e["op"])
            r = returned.get(k)
            if which == "C05":
                r2 = returned_by.get((node, k))
                r = r2 if r2 is not None and (r is None or r2 < r) else r
            if r is not None and r < x["at"] and not x["fault"]:
                bad("computed-again", "%s %s computed although a call had already returned its value (event %d)" % (e["op"], k[:80], r))
        elif ev == "computed":
            computed.setdefault(e["key"], set()).add(e["tok"])
            bump(probes, "computations")
        elif ev == "return":
            nret += 1
            x = calls[(node, e["op"])]
            k = e["key"]
            kind = sc["kinds"].get(k, "tok")
            top = e["op"].rstrip("r")
            if e["ok"]:
                if x["n"] == 0:
                    bump(probes, "hits")
                toks = computed.get(k, set())
                if kind == "unserialisable":
                    if x["n"] == 0 or not (isinstance(e["v"], list) and e["v"] and e["v"][0] == "unserialisable"):
                        bad("wrong-value", "%s %s returned %r, which cannot have been saved" % (e["op"], k[:80], str(e["v"])[:200]))
                    continue
                exp = [json.loads(json.dumps(value(kind, k, t))) for t in toks]
                if not any(canon.same(canon.canon(y), canon.canon(e["v"])) for y in exp):
                    bad("wrong-value", "%s %s returned %s, which the function did not compute for these arguments (computed: %s)" % (
                        e["op"], k[:80], str(e["v"])[:200], sorted(toks)))
                if which == "C04" or single and len(sc["fns"]) == 1:      # functions that share a file overwrite each other's entries
                    returned.setdefault(k, i)
                returned_by.setdefault((node, k), i)
            else:
                bump(probes, "raised")
                cause = x["fault"] or kind == "unserialisable" and x["n"] or (raises.get(top) or raises.get(e["op"])) and x["n"]
                if not cause:
                    bad("failed-without-cause", "%s %s raised %s although nothing failed in this call" % (e["op"], k[:80], e["err"]))
    bump(probes, "crashed_nodes", len(c.dead))
    return out[0], probes, nret

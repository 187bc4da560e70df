"""C09 memoisation: the decorator on functions, methods and properties, and the paired-comparison readers that use it."""
import copy
import json

from .. import gen
from .common import *

ID = "C09"
TECHNIQUE = "seeded thread schedules, object churn and failing computations around the real memoising decorator and readers"
LEVEL_NOTE = "seeded search over call histories and line-level thread interleavings; the memoised functions are the harness's own"
RUNS = dict(quick=9000, thorough=200000)
WALL = dict(quick=150, thorough=1200)
RULE = ("a case is one seeded history of calls to memoised functions, methods and properties and of paired-comparison readers being "
        "created, read, scribbled on and dropped, in 1 to 3 threads; non-trivial when some key was called at least twice or two readers lived")
COMPONENTS = dict(real=["sureal.tools.decorator.memoized", "sureal.dataset_reader.PairedCompDatasetReader"],
                  stub=["thread scheduling (real threads, one at a time)", "the memoised functions (harness)"])
ASSUMPTIONS = ["arguments that compare equal count as the same arguments", "memoised values are not modified by their callers, except tensors of readers",
               "two overlapping first calls for the same arguments may both compute"]

# arguments that are easily mistaken for one another
POOL = [[], [["i", 1]], [["s", "1"]], [["i", -1]], [["i", -2]], [["i", 1], ["i", 2]], [["t", [["i", 1], ["i", 2]]]], [["s", "a"], ["s", "b"]],
        [["s", "ab"]], [["s", "a b"]], [["n", None]], [["t", []]], [["s", ""]], [["i", 0]], [["f", 2.5]], [["s", "2.5"]], [["s", "None"]],
        [["i", 1], ["s", "2"]], [["s", "1"], ["i", 2]], [["s", "a', 'b"]], [["s", "a"], ["s", ""]], [["i", 2**61 - 1]], [["i", 2**61]],
        [["f", 1.0]], [["b", True]], [["t", [["t", []]]]], [["s", "self"]], [["f", 1e300]], [["i", 10**30]]]
BAD = [[["l", [1, 2]]], [["l", []]], [["d", {"a": 1}]], [["a", [1., 2.]]], [["tl", [1]]], [["i", 1], ["l", [2]]], [["st", [1]]]]
FNS = ["f0", "f1", "m0", "m1", "sub", "prop", "rec", "h0", "un", "inh", "inh"]


def build(a):
    k, v = a
    if k == "t":
        return tuple(build(x) for x in v)
    if k == "l":
        return list(v)
    if k == "d":
        return dict(v)
    if k == "a":
        import numpy as np
        return np.array(v)
    if k == "tl":
        return (list(v), 1)
    if k == "st":
        return set(v)
    return {"i": int, "s": str, "f": float, "b": bool, "n": lambda x: None}[k](v)


def generate(rng, tier):
    nt = rng.choice([1, 1, 2, 2, 2, 3])
    pc = rng.random() < .4
    sc = dict(p_switch=rng.choice([.02, .1, .3, .5]), specs=[], threads=[])
    if pc:
        name = rng.choice([None, "toy"])
        sc["specs"] = [gen.pc_spec(rng, name) for _ in range(rng.randint(1, 3))]
        if rng.random() < .5:                     # same shape and names, other votes
            s = json.loads(json.dumps(sc["specs"][0]))
            for v in s["dis"]:
                for o in v["os"]:
                    if o[2] == 1 and rng.random() < .5:
                        o[2] = 0
            sc["specs"].append(s)
        if rng.random() < .15:
            s = json.loads(json.dumps(sc["specs"][0]))
            for v in s["dis"]:
                if v["os"]:
                    v["os"][0][2] = .3            # not a legal vote: reading fails
                    break
            sc["specs"].append(s)
    args = rng.sample(POOL, rng.randint(2, 5)) + ([rng.choice(BAD)] if rng.random() < .3 else [])
    fns = rng.sample(FNS, rng.randint(1, 4))
    pf = rng.choice([0, 0, .15, .4])
    slow = rng.choice([0, .3, 1])
    churn = rng.random() < .5
    for t in range(nt):
        ops = []
        for _ in range(rng.randint(4, 14 if tier == "quick" else 30)):
            if pc and rng.random() < .8:
                ops.append(dict(op="pc", do=rng.choice(["new", "read", "read", "read", "read", "scribble", "scribble", "drop", "copy"]),
                                spec=rng.randrange(len(sc["specs"])), slot=rng.randrange(3), share=rng.random() < .3))
                continue
            if churn and rng.random() < .3:
                ops.append(dict(op="churn", slot=rng.randrange(3), how=rng.choice(["new", "new", "copy", "deepcopy"])))
                continue
            ops.append(dict(op="call", fn=rng.choice(fns), slot=rng.randrange(3) if rng.random() < .8 else 10 + t, args=rng.choice(args),
                            fail=rng.choice(["ValueError", "TypeError", "KeyError", "SimError"]) if rng.random() < pf else None,
                            val=rng.choice(["tok", "tok", "tok", "none", "zero", "empty", "nan", "list"]),
                            slow=rng.choice([1, 3]) if rng.random() < slow else 0))
        sc["threads"].append(ops)
    if rng.random() < .02:             # very many different arguments or objects, then the same ones again
        sc["threads"][0].insert(rng.randrange(len(sc["threads"][0])), dict(op="storm", n=rng.choice([40, 70, 130, 260, 260, 520, 1030, 2060]), objects=rng.random() < .4,
                                                                          fn=rng.choice(["f0", "f1", "m0", "m1"]), slot=rng.randrange(3), pick=rng.randrange(10**6)))
    return sc


def op_lists(sc):
    return [["threads", i] for i in range(len(sc["threads"]))] + [["threads"]]


class SimError(Exception):
    pass


def tensor(spec):
    """the score tensor the votes mean, written from the documentation alone"""
    import numpy as np
    obs = sorted({o[0] for v in spec["dis"] for o in v["os"]})
    n = len(spec["dis"])
    a = np.full([n, n, len(obs)], np.nan)
    for i, v in enumerate(spec["dis"]):
        for s, j, x in v["os"]:
            a[i, j, obs.index(s)] = x
            a[j, i, obs.index(s)] = 1.0 - x
    return a


def execute(sc, refs, root, explicit):
    import numpy as np
    from sureal.tools.decorator import memoized
    from sureal.dataset_reader import PairedCompDatasetReader
    d = Decider(sc["seed"], dict(p_switch=sc["p_switch"], p_switch_io=.3), explicit)
    w = World(root=None, decider=d, seed=sc["seed"], target_prefixes=TARGETS)
    st = dict(v=None, serial=0, obj=0, n=0)
    probes, outc = {}, []
    computed = {}            # (fn, object serial, args) -> values computed for it (kept alive)
    finished = {}            # exact key -> a call for it has returned
    frames = {}              # thread -> stack of running calls
    uses = {}

    def bad(cls, msg):
        if st["v"] is None:
            st["v"] = viol(cls, msg)

    def typed(x):
        return (type(x).__name__, tuple(typed(y) for y in x)) if isinstance(x, tuple) else (type(x).__name__, repr(x))

    def pause(n):
        for _ in range(n):
            w.yield_point("line")

    def body(fn, serial, args):
        """what every memoised function does: it records that it was called, may be slow, may fail"""
        stack = frames[w.cur]
        fr = stack[-1]
        fr["comps"].append((fn, serial, typed(args)))
        p = fr["plan"]
        pause(p["slow"])
        if p["fail"]:
            bump(probes, "failing_computation")
            e = {"ValueError": ValueError, "TypeError": TypeError, "KeyError": KeyError, "SimError": SimError}[p["fail"]]("planned")
            fr["raised"] = id(e)
            fr["exc"] = e
            raise e
        st["serial"] += 1
        v = {"tok": ("value", fn, serial, st["serial"]), "none": None, "zero": 0, "empty": "", "nan": float("nan"),
             "list": [fn, serial, st["serial"]]}[p["val"]]
        pause(p["slow"])
        if fr["key"] is not None:
            computed.setdefault(fr["key"], []).append(v)
        fr["value"] = v
        return v

    @memoized
    def f0(*a):
        """f0"""
        return body("f0", None, a)

    @memoized
    def f1(*a):
        """f1"""
        return body("f1", None, a)

    @memoized
    def rec(*a):
        """rec"""
        if a and isinstance(a[0], int) and not isinstance(a[0], bool) and 0 < a[0] < 5:
            call("rec", None, (a[0] - 1,), dict(slow=0, fail=None, val="tok"), "nested")
        return body("rec", None, a)

    class Base:
        def __init__(self):
            st["obj"] += 1
            self.serial = st["obj"]

        @memoized
        def m0(self, *a):
            """m0"""
            return body("m0", self.serial, a)

        @memoized
        def m1(self, *a):
            """m1"""
            return body("m1", self.serial, a)

        @memoized
        def sub(self, *a):
            """sub"""
            return body("sub", self.serial, a)

        @memoized
        def inh(self, *a):
            """inh"""
            return body("inh", self.serial, a)

        @property
        @memoized
        def prop(self):
            """prop"""
            return body("prop", self.serial, ())

    class Derived(Base):
        @memoized
        def sub(self, *a):
            """sub of Derived"""
            return body("sub2", self.serial, a)

        @memoized
        def inh(self, *a):
            """inh of Derived, which uses the inherited one"""
            call("inh0", self, a, dict(slow=0, fail=None, val="tok"), "nested")
            return body("inh2", self.serial, a)

    class SameHash(Base):
        def __hash__(self):
            return 7

        def __eq__(self, o):
            return self is o

    class Unhashable(Base):
        __hash__ = None

        def __eq__(self, o):
            return self is o
    KINDS = [Base, Derived, SameHash]
    slots = {}
    unh = {}

    def obj(slot):
        if slot not in slots:
            slots[slot] = KINDS[slot % 3]()
        return slots[slot]

    def call(fn, o, args, plan, label):
        if fn == "prop":
            args = ()
        serial = o.serial if o is not None else None
        name = fn + "2" if fn in ("sub", "inh") and isinstance(o, Derived) else "inh" if fn == "inh0" else fn
        hashable = not isinstance(o, Unhashable)
        key = ekey = None
        try:
            hash(args)
        except TypeError:
            hashable = False
        if hashable:
            key, ekey = (name, serial, args), (name, serial, typed(args))
            bump(uses, ekey)
        fr = dict(comps=[], plan=plan, key=key, raised=None, value=None)
        stack = frames.setdefault(w.cur, [])
        must = key is not None and key in finished
        before = [id(x) for x in computed.get(key, [])] if key else []
        stack.append(fr)
        what = "%s: %s%r on object %s" % (label, name, args, serial)
        try:
            if fn == "prop":
                r = ("ok", o.prop)
            elif fn == "inh0":
                r = ("ok", super(Derived, o).inh(*args))
            elif fn in ("f0", "f1", "rec"):
                r = ("ok", {"f0": f0, "f1": f1, "rec": rec}[fn](*args))
            else:
                r = ("ok", getattr(o, fn if fn not in ("h0", "un") else "m0")(*args))
        except Exception as e:
            r = ("exc", type(e).__name__, str(e)[:200])
            eid = id(e)
            fr["same"] = eid == fr["raised"]
        finally:
            stack.pop()
        st["n"] += 1
        n = len(fr["comps"])
        exp = (name if fn not in ("h0", "un") else "m0", serial, typed(args))
        outc.append([label, name, serial, repr(args), r[0], n])
        if n > 1:
            bad("computed-twice", "%s: the function was computed %d times in one call" % (what, n))
        for c in fr["comps"]:
            if c != exp:
                bad("wrong-call", "%s: the function was called as %s%s on object %s" % (what, c[0], c[2], c[1]))
        if must and n:
            bad("not-reused", "%s was computed again although an earlier call had returned its value" % what)
        if r[0] == "exc":
            if fr["raised"] is None or not fr["same"]:
                bad("raised", "%s raised %s(%s), which its function did not raise" % (what, r[1], r[2]))
        else:
            if not hashable:
                if n != 1:
                    bad("not-computed", "%s (cannot be a key) returned without being computed" % what)
                elif r[1] is not fr["value"] and r[1] != fr["value"] and fr["raised"] is None:
                    bad("wrong-value", "%s gave %r, its function returned %r" % (what, r[1], fr["value"]))
                if fr["raised"]:
                    bad("error-lost", "%s returned although its function raised" % what)
            else:
                if fr["raised"]:
                    bad("error-lost", "%s returned %r although its function raised" % (what, r[1]))
                good = computed.get(key, [])
                if not any(r[1] is x or (isinstance(x, list) and r[1] == x) for x in good):
                    bad("wrong-value", "%s gave %r, which was never computed for it (computed: %r)" % (what, r[1], good[:5]))
                finished[key] = True
                if n == 0:
                    bump(probes, "reused")
        fr.pop("exc", None)
        return r

    # paired-comparison readers
    specs = sc["specs"]
    readers, dsets = {}, {}
    illegal = [any(o[2] not in (0, .5, 1) for v in s["dis"] for o in v["os"]) for s in specs]

    def pcop(label, op):
        if op["do"] == "new" or op["slot"] not in readers:
            k = op["spec"]
            ds = dsets.get(k) if op["share"] else None
            if ds is None:
                ds = dsets[k] = gen.as_object(specs[k])
            readers[op["slot"]] = (PairedCompDatasetReader(ds), k)
            bump(probes, "readers")
            if op["do"] == "new":
                return
        if op["do"] == "copy":
            rd, k = readers[op["slot"]]
            readers[(op["slot"] + 1) % 3] = ((copy.copy if op["share"] else copy.deepcopy)(rd), k)
            bump(probes, "reader_copied")
            return
        if op["do"] == "drop":
            k = readers.pop(op["slot"])[1]
            dsets.pop(k, None)
            bump(probes, "reader_dropped")
            return
        rd, k = readers[op["slot"]]
        what = "%s: reader in slot %d of dataset %d" % (label, op["slot"], k)
        r = outcome(lambda: rd.opinion_score_3darray)
        outc.append([label, "pc", op["do"], r[0]])
        st["n"] += 1
        bump(uses, ("pc", k))
        if illegal[k]:
            if r[0] == "ok":
                bad("error-lost", "%s returned scores although its votes are not legal" % what)
            bump(probes, "illegal_votes")
            return
        want = tensor(specs[k])
        if r[0] != "ok":
            bad("raised", "%s raised %s: %s" % (what, r[1], r[2]))
            return
        a = np.asarray(r[1])
        if a.shape != want.shape or not np.array_equal(a, want, equal_nan=True):
            bad("wrong-tensor", "%s reports another dataset's or an altered tensor: shape %s, expected %s; %s" % (
                what, a.shape, want.shape, str(a.tolist())[:300]))
        if op["do"] == "scribble":
            try:
                r[1].fill(-9)
                bump(probes, "scribbled")
            except ValueError:
                bump(probes, "read_only_tensor")

    def storm(label, op):
        bump(probes, "storm_%d" % op["n"])
        plan = dict(slow=0, fail=None, val="tok")
        keep = []
        for i in range(op["n"]):
            o = Base() if op["objects"] else obj(op["slot"]) if op["fn"][0] == "m" else None
            keep.append(o)
            call("m0" if op["objects"] else op["fn"], o, () if op["objects"] else ("storm", i), plan, label)
        g = random.Random(op["pick"])
        for i in [0, op["n"] - 1] + [g.randrange(op["n"]) for _ in range(12)]:
            call("m0" if op["objects"] else op["fn"], keep[i], () if op["objects"] else ("storm", i), plan, label)

    def thread(ti):
        def go():
            for oi, op in enumerate(sc["threads"][ti]):
                label = "t%d.%d" % (ti, oi)
                w.begin_op(label)
                if op["op"] == "pc":
                    pcop(label, op)
                elif op["op"] == "storm":
                    storm(label, op)
                elif op["op"] == "churn":
                    o = slots.pop(op["slot"], None)
                    unh.pop(op["slot"], None)
                    if o is not None and op.get("how", "new") != "new":
                        slots[op["slot"]] = o = (copy.copy if op["how"] == "copy" else copy.deepcopy)(o)
                        st["obj"] += 1
                        o.serial = st["obj"]
                        bump(probes, "object_copied")
                    else:
                        slots[op["slot"]] = KINDS[op["slot"] % 3]()
                    o = None
                    bump(probes, "object_replaced")
                else:
                    fn = op["fn"]
                    if fn in ("f0", "f1", "rec"):
                        o = None
                    elif fn == "un":
                        o = unh.setdefault(op["slot"], None) or Unhashable()
                        unh[op["slot"]] = o
                    elif fn == "h0":
                        o = obj(2)
                    else:
                        o = obj(op["slot"])
                    if fn == "h0":
                        fn = "m0"
                    call(fn, o, tuple(build(a) for a in op["args"]), op, label)
                    o = None
                w.end_op()
        return go
    seams.set_world(w)
    try:
        w.run_threads([("t%d" % i, thread(i)) for i in range(len(sc["threads"]))])
    finally:
        seams.set_world(None)
    bump(probes, "calls", st["n"])
    if w.switch_count > 2:
        bump(probes, "overlapping")
    return dict(viol=st["v"], record=d.record(), hash=loghash([w.log, outc]), faults=dict(d.fired, **({"failing_computation": probes["failing_computation"]} if "failing_computation" in probes else {})),
                probes=probes, sim_time=w.mono - 1000.0, steps=w.steps, ops=st["n"], switches=w.switch_count,
                nontrivial=max(uses.values() or [0]) >= 2, sample=dict(threads=sc["threads"]),
                trace=[str(x) for x in w.log[-100:]] + [str(x) for x in outc])

"""C02 loading a dataset file gives what the file says now."""
import json
import os
import random
import sys
import types

from .. import seams, gen, canon
from ..world import World, Decider, Hang
from .common import *
from . import c01

ID = "C02"
TECHNIQUE = "seeded histories of loads, rewrites, moves and retargeted links in one process, with thread schedules, read faults and interruptions"
LEVEL_NOTE = "seeded search; real loader, real files behind a simulated I/O layer; oracle is the content written to the path"
RUNS = dict(quick=6000, thorough=200000)
WALL = dict(quick=200, thorough=1500)
RULE = ("a case is one seeded history of dataset files (equal names in several directories, names of library modules, rewrites of equal "
        "size and time stamp, links, relative paths) and loads by several entry points in one to three threads with read faults and "
        "interruptions; non-trivial when at least two loads of different contents happened")
COMPONENTS = dict(real=["sureal.tools.misc import_python_file / import_json_file", "SubjectiveModel.from_dataset_file",
                        "sureal.routine.run_subjective_models", "Python's compiler and import system"],
                  stub=["thread scheduler", "disk reads (real files behind a simulated raw layer)", "clocks"])
ASSUMPTIONS = ["dataset files are replaced whole (rename), never edited in place while being read",
               "dataset files are plain data and do not import each other"]

DIRS = ["", "a", "b", "b/c"]
NAMES = ["set1", "set1", "set2", "json", "random", "numpy", "copy", "sureal", "routine", "subjective_model", "test", "my-data", "x.y",
         "dataset", "__main__", "time", "pandas", "misc"]


# plain values that a careless reader or parser would change
EXACT = [.1 + .2, 1e-320, 1e22, 123456789.12345679, -0.0, 2 ** 70, 10 ** 25, "é 漢字", "line\nbreak\r\nand\ttab", "\u2028\u2029\x0b\x0c", "{'a': 1} # [x]", "", [], {}, None, True,
         {"b": 1, "a": {"z": [1, [2, [3, [4, [5, [6, [7, [8, [9]]]]]]]]]}}, {"1": 1, "": 2, "None": None, "a b": [1.0, 1]}, "0123", "1e5", "NaN", "  spaces  ", "\\n %s {0}", [1, 1.0, True, "1"],
         [[], [[]], {}]]


def odd_value(g):
    r = g.random()
    if r < .75:
        return g.choice(EXACT)
    if r < .85:
        return "".join(g.choice("abc 'é\"\\") for _ in range(g.choice([100, 5000, 70000])))
    if r < .95:
        return [g.randrange(10 ** 9) for _ in range(g.choice([300, 3000]))]
    return {"k%d" % i: g.random() for i in range(500)}


def content(rng, base):
    r = rng.random()
    if r > .85:
        s = json.loads(json.dumps(base))
        for _ in range(rng.randint(1, 3)):
            v = odd_value(rng)
            if rng.random() < .2:
                rng.choice(s["dis"])[rng.choice(["note", "crop_cmd", "x1"])] = v
            else:
                s["attrs"][rng.choice(["note", "license", "subjects", "_hidden", "Upper", "json", "os_", "zz"])] = v
        if rng.random() < .012:
            s["attrs"]["blob"] = "long text, " * 110000
        return dict(spec=s, layout=rng.choice([None, None, "crlf", "bom", "latin1", "computed", "indent", "main"]))
    if r < .08:
        return dict(bad=rng.choice(["syntax", "cut", "raise", "empty", "bytes", "bytes", "zeros"]), spec=base)
    if r < .5:
        s = c01.perturb(rng, base)
        s["attrs"]["ref_score"] = base["attrs"].get("ref_score", 5.0)
        return dict(spec=s)
    if r < .6:
        s = json.loads(json.dumps(base))
        s["attrs"]["extra_%d" % rng.randrange(4)] = rng.choice([1, "é", [1, 2], None])
        return dict(spec=s)
    return dict(spec=gen.raw_spec(rng, small=True))


def generate(rng, tier):
    base = gen.raw_spec(rng, style=rng.choice(["list", "dict", "dict_missing", "list"]), small=True)
    contents = [dict(spec=base)] + [content(rng, base) for _ in range(rng.randint(1, 4))]
    names = [rng.choice(NAMES) for _ in range(rng.choice([1, 1, 2, 3]))]
    paths = []
    for _ in range(rng.choice([1, 2, 3, 4])):
        p = os.path.join(rng.choice(DIRS), rng.choice(names) + rng.choice([".py", ".py", ".py", ".json"]))
        if p not in paths:
            paths.append(p)
    links = []
    if rng.random() < .3:
        links.append("lnk/" + rng.choice(names) + os.path.splitext(paths[0])[1])
    same = [p for p in paths if os.path.splitext(p)[1] == os.path.splitext(paths[0])[1]]
    nth = rng.choice([1, 1, 1, 2, 3])
    allp = paths + links

    def load():
        p = rng.choice(allp)
        how = rng.choice(["import", "import", "import", "from", "from", "rsm"])
        o = dict(op="load", p=p, how=how, rel=rng.random() < .3)
        if how == "from":
            o["cids"] = rng.choice([None, None, [0], [0, 1]])
            o["aids"] = rng.choice([None, [0, 1, 2, 3]])
            if p.endswith(".json"):
                o["how"] = "import"
        if rng.random() < .08:
            o["cancel"] = [rng.randint(1, 12), rng.choice(["KeyboardInterrupt", "MemoryError"])]
        return o

    def op():
        r = rng.random()
        if r < .58:
            return load()
        if r < .8:
            return dict(op="write", p=rng.choice(paths), c=rng.randrange(len(contents)), mtime=rng.choice(["same", "same", "now", "old"]),
                        pad=rng.random() < .5)
        if r < .84:
            return dict(op="remove", p=rng.choice(paths))
        if r < .9 and links:
            return dict(op="link", p=links[0], to=rng.choice(same))
        if r < .95 and nth == 1:
            return dict(op="chdir", d=rng.choice(DIRS))
        return dict(op="scribble", i=rng.randrange(5))
    init = [[p, rng.randrange(len(contents))] for p in paths]
    return dict(contents=contents, init=init, links=[[l, rng.choice(same)] for l in links],
                threads=[[op() for _ in range(rng.randint(2, 8 if nth == 1 else 5))] for _ in range(nth)],
                p_switch=rng.choice([.02, .1, .3]), p_io=rng.choice([.2, .6]), p_fault=rng.choice([0, 0, .05, .2]),
                chunk=rng.choice([64, 700, 8192]), bytecode=rng.random() < .7, encoding=locale_encoding(rng))


def op_lists(sc):
    return [["threads", i] for i in range(len(sc["threads"]))]


def text(sc, ci, ext, pad):
    c = sc["contents"][ci]
    t = gen.as_py(c["spec"], "dataset") if ext == ".py" else gen.as_json(c["spec"])
    b = c.get("bad")
    if b == "syntax":
        t += "\nx = = 1\n" if ext == ".py" else "]"
    elif b == "cut":
        t = t[:len(t) * 2 // 3] if ext == ".json" else t[:t.rindex("]")]
    elif b == "raise":
        t += "\nraise ValueError('no')\n" if ext == ".py" else "{"
    elif b == "empty":
        t = "" if ext == ".json" else "1/0"
    elif b == "bytes":                                # a damaged character
        t = t.encode()
        i = t.index(b'": "') + 5 if ext == ".json" else t.index(b"= '") + 4
        return t[:i] + b"\xc3" + t[i:]
    elif b == "zeros":                                # the tail of the file was never written
        t = t.encode()
        i = len(t) * 3 // 4
        return t[:i] + b"\0" * (len(t) - i)
    elif pad:
        t += " " * (6000 - len(t.encode())) if len(t.encode()) < 6000 else ""
        if ext == ".py":
            t = t.rstrip(" ") + "#" * (len(t) - len(t.rstrip(" ")))
    return layout(t, c.get("layout") if not b else None, ext, c["spec"])


def layout(t, how, ext, spec):
    """the same content, written differently"""
    if ext == ".json":
        return json.dumps(gen.materialise(spec), indent=3, ensure_ascii=False) + "\n\n" if how == "indent" else "\n \t" + t if how == "main" else t
    if how == "crlf":
        return t.replace("\n", "\r\n").encode()
    if how == "bom":
        return b"\xef\xbb\xbf" + t.encode()
    if how == "latin1":
        try:
            return b"# -*- coding: latin-1 -*-\n" + t.encode("latin-1")
        except UnicodeError:
            return t
    if how == "computed":
        return ("import math as _m\nfrom os import path as _p\n_k = [0]\ndef _f(x):\n    return [dict(v, **{}) for v in x if len(_k) == 1]\n" + t +
                "\ndis_videos = _f(dis_videos)\nref_videos = [v for v in ref_videos if _k[0] == 0 and _m.pi > 3]\n_p.join(__file__, 'x')\ndel _m, _p, _k, _f\n")
    if how == "main":
        return t + "\nif __name__ == '__main__' and '__main__' not in __file__:\n    raise SystemExit('not a program')\n"
    return t


def where(a, b):
    i = next((j for j in range(min(len(a), len(b))) if a[j] != b[j]), min(len(a), len(b)))
    return "...%s... is given as ...%s..." % (a[max(0, i - 60):i + 60], b[max(0, i - 60):i + 60])


def strict(x):
    """exact, type-aware text of plain data; names in any order"""
    if isinstance(x, dict):
        return "{%s}" % ",".join("%s:%s" % (strict(k), strict(v)) for k, v in sorted(x.items(), key=lambda kv: repr(kv[0])))
    if isinstance(x, list):
        return "[%s]" % ",".join(map(strict, x))
    if isinstance(x, tuple):
        return "(%s)" % ",".join(map(strict, x))
    return repr(x) if x is None or isinstance(x, (int, float, str, bytes, bool)) else "<%s>" % type(x).__name__


def execute(sc, refs, root, explicit):
    from sureal.tools import misc
    from sureal.subjective_model import MosModel
    from sureal.routine import run_subjective_models
    R = seams.R
    d = Decider(sc["seed"], dict(p_switch=sc["p_switch"], p_switch_io=sc["p_io"], p_fault=sc["p_fault"], max_faults=2,
                                 fault_steps=["read", "open_r"], fault_kinds=["EIO", "short", "EMFILE"]), explicit)
    w = World(root=root, decider=d, seed=sc["seed"], target_prefixes=TARGETS + (root + "/",), chunk=sc["chunk"])
    w.encoding = sc.get("encoding", "utf-8")
    sys.dont_write_bytecode = not sc["bytecode"]
    sys.pycache_prefix = root + "/tmp/pyc"
    for x in DIRS + ["lnk"]:
        os.makedirs(os.path.join(root, x), exist_ok=True)
    now = {}                                # logical path -> content index or None
    link = {}
    active = {}
    cnt = [0]
    T0 = 1600000000

    def resolve(p):
        p = link.get(p, p)
        return now.get(p)

    def changed():
        for a in active.values():
            a[1].add(resolve(a[0]))

    def put(p, ci, mtime, pad):
        full = os.path.join(root, p)
        cnt[0] += 1
        tmp = full + ".new"
        t = text(sc, ci, os.path.splitext(p)[1], pad)
        with R.open(tmp, "wb") as f:
            f.write(t if isinstance(t, bytes) else t.encode())
        t = {"same": T0, "now": T0 + cnt[0], "old": T0 - cnt[0]}[mtime]
        R.utime(tmp, (t, t)) if hasattr(R, "utime") else os.utime(tmp, (t, t))
        (R.replace if hasattr(R, "replace") else os.replace)(tmp, full)
        now[p] = ci
        changed()

    def relink(p, to):
        full = os.path.join(root, p)
        if os.path.islink(full):
            os.unlink(full)
        os.symlink(os.path.join(root, to), full)
        link[p] = to
        changed()
    for p, ci in sc["init"]:
        put(p, ci, "same", True)
    for p, to in sc["links"]:
        relink(p, to)
    names = {os.path.splitext(os.path.basename(p))[0] for p in list(now) + list(link)}
    mods = dict(sys.modules)
    path0 = list(sys.path)
    ns = {n: dict(vars(mods[n])) for n in names if n in mods}
    st = dict(v=None, loads=0, cwd=root)
    probes, log, kept = {}, [], []
    contents_seen = set()

    def bad(cls, msg):
        if st["v"] is None:
            st["v"] = viol(cls, msg)

    def expect(ci, op):
        e = gen.materialise(sc["contents"][ci]["spec"])
        if os.path.splitext(op["p"])[1] == ".json":
            e = json.loads(json.dumps(e))
        if op["how"] == "from":
            if op.get("cids") is not None:
                e["dis_videos"] = [v for v in e["dis_videos"] if v["content_id"] in op["cids"]]
            if op.get("aids") is not None:
                e["dis_videos"] = [v for v in e["dis_videos"] if v["asset_id"] in op["aids"]]
        return strict(e)

    def do(label, op):
        k = op["op"]
        if k == "write":
            w.yield_point("write")
            R_world(lambda: put(op["p"], op["c"], op["mtime"], op["pad"]))
        elif k == "remove":
            w.yield_point("rm")

            def rm():
                if now.get(op["p"]) is not None:
                    os.unlink(os.path.join(root, op["p"]))
                    now[op["p"]] = None
                    changed()
            R_world(rm)
        elif k == "link":
            R_world(lambda: relink(op["p"], op["to"]))
        elif k == "chdir":
            st["cwd"] = os.path.join(root, op["d"])
            os.chdir(st["cwd"])
        elif k == "scribble":
            if kept:
                e = kept[op["i"] % len(kept)]
                dv = getattr(e[1], "dis_videos", None)
                if isinstance(dv, list) and dv:
                    dv[0]["scribbled"] = label
                    del dv[-1:]
                    e[1].mark = label
                    e[2] = strict(canon.public(e[1]))
                    bump(probes, "scribbled")
        elif k == "load":
            load(label, op)

    def R_world(fn):
        seams.set_world(None)
        try:
            fn()
        finally:
            seams.set_world(w)

    def load(label, op):
        full = os.path.join(root, op["p"])
        if op["rel"]:
            full = os.path.relpath(full, st["cwd"])
            bump(probes, "relative_path")
        a = (op["p"], {resolve(op["p"])})
        active[label] = a
        w.begin_op(label, tuple(op["cancel"]) if op.get("cancel") else None)

        def go():
            if op["how"] == "from":
                return MosModel.from_dataset_file(full, op.get("cids"), op.get("aids")).dataset_reader.dataset
            if op["how"] == "rsm":
                return run_subjective_models(full, [MosModel])[0]
            return misc.import_json_file(full) if full.endswith(".json") else misc.import_python_file(full)
        res = outcome(go)
        w.end_op()
        del active[label]
        st["loads"] += 1
        hit = any(f[0] == label and f[2] != "short" for f in d.faults)
        vs = a[1]
        brk = any(v is None or sc["contents"][v].get("bad") for v in vs)
        good = [v for v in vs if v is not None and not sc["contents"][v].get("bad")]
        contents_seen.update(good)
        log.append([label, res[0], res[1] if res[0] == "exc" else None, sorted(map(str, vs))])
        if res[0] == "ok":
            got = strict(canon.public(res[1]))
            if hit and not op.get("cancel"):
                bump(probes, "loaded_despite_fault")
            if not any(expect(v, op) == got for v in good):
                other = [i for i, c in enumerate(sc["contents"]) if expect(i, op) == got]
                bad("wrong-content", "%s %s %s: not what the file holds (contents %s)%s: %s" % (
                    label, op["how"], op["p"], sorted(map(str, vs)), "; it is content %s" % other if other else "",
                    where(expect(good[0], op), got) if good else "the file was unreadable"))
            kept.append([label, res[1], got])
        elif not (hit or brk or op.get("cancel") or (op["how"] != "import" and _model_fails(op, good))):
            bad("load-failed", "%s %s %s: raised %s" % (label, op["how"], op["p"], res[1:]))

    def _model_fails(op, good):
        return any("'dis_videos':[]" in expect(v, op) for v in good)

    def thread(ti):
        def go():
            for oi, op in enumerate(sc["threads"][ti]):
                do("t%d.%d" % (ti, oi), op)
        return go
    seams.set_world(w)
    try:
        w.run_threads([("t%d" % i, thread(i)) for i in range(len(sc["threads"]))])
    finally:
        seams.set_world(None)
        os.chdir(root)
    for label, o, snap in kept:
        g = strict(canon.public(o))
        if g != snap:
            bad("earlier-load-changed", "%s: a dataset loaded earlier was changed by a later load: %s" % (label, where(snap, g)))
    for n, m in mods.items():
        if sys.modules.get(n) is not m:
            bad("module-replaced", "sys.modules[%r] was replaced or removed" % n)
    for n, m in list(sys.modules.items()):
        f = getattr(m, "__file__", None)
        if n not in mods and n in names and isinstance(f, str) and os.path.abspath(f).startswith(root):
            bad("module-left-behind", "a dataset file was left in sys.modules[%r]: import %s now gives the dataset" % (n, n))
    for n, old in ns.items():
        cur = vars(mods[n])
        for k in set(old) | set(cur):
            if k in ("ref_videos", "dis_videos", "dataset_name") or (k in old and cur.get(k) is not old[k] and not k.startswith("_")):
                bad("module-disturbed", "module %r changed: %s" % (n, k))
                break
    if sys.path != path0:
        bad("module-disturbed", "the program's module search path was changed: %s" % [p for p in sys.path if p not in path0])
    bump(probes, "loads", st["loads"])
    if len({k[0] for k in kept}) and w.switch_count:
        bump(probes, "concurrent_loads")
    return dict(viol=st["v"], record=d.record(), hash=loghash([w.log, log]), faults=d.fired, probes=probes,
                sim_time=w.mono - 1000.0, steps=w.steps + w.io_total, ops=st["loads"], switches=w.switch_count,
                nontrivial=len(contents_seen) >= 2 and st["loads"] >= 2, sample=dict(init=sc["init"], threads=sc["threads"]),
                trace=[str(x) for x in w.log[-200:]] + [str(x) for x in log])

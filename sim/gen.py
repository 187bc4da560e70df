"""Dataset generation.  A dataset is a JSON-able spec; it can be materialised as an object, a .py source or a .json file."""
import copy
import json
import pprint
import types

SUBJ = ["ann", "bob", "cid", "dee", "eve", "fay", "gus", "hal", "ivy", "joe"]
TWINS = ["ann", "Ann", "ANN", "ann ", "bob", "BOB", "s1", "S1", "s01", "s10", "2", "10"]      # differ only by case, blanks, zeros, order as numbers
NAMES = ["toy", "toy", "set_a", "demo"]


def raw_spec(rng, style=None, small=False, name=None):
    style = style or rng.choice(["list", "list", "dict", "dict_missing", "list_reps", "dict_reps", "list_float", "tuple"])
    C = rng.randint(1, 3)
    A = rng.randint(2, 3 if small else 4)
    S = rng.randint(3, 5 if small else 7)
    names = list(TWINS if rng.random() < .2 else SUBJ)
    rng.shuffle(names)
    names = names[:S]
    hi = rng.choice([5, 5, 5, 10, 100])
    bias = [rng.uniform(-.8, .8) for _ in range(S)]
    reps = rng.randint(2, 3)
    rag = style == "list_reps" and rng.random() < .5
    refs, dis = [], []
    aid = 0
    for c in range(C):
        refs.append(dict(content_id=c, content_name="c%d" % c, path="ref/c%d.yuv" % c))
        for a in range(A):
            q = rng.uniform(1, hi)

            def vote(i):
                x = q + bias[i] * hi / 5 + rng.gauss(0, .15 * hi)
                x = max(1, min(hi, x))
                return round(x, 3) if style == "list_float" else int(round(x))
            if style.startswith("dict"):
                os_ = {}
                for i in range(S):
                    if style == "dict_missing" and rng.random() < .25 and i > 1:
                        continue
                    if style == "dict_reps":
                        os_[names[i]] = [vote(i) for _ in range(rng.randint(1, reps))]
                    else:
                        os_[names[i]] = vote(i)
            elif style == "list_reps":
                os_ = [[vote(i) for _ in range(rng.randint(1, reps) if rag else reps)] for i in range(S)]
            else:
                os_ = [vote(i) for i in range(S)]
            dis.append(dict(content_id=c, asset_id=aid, os=os_,
                            path="ref/c%d.yuv" % c if a == 0 else "dis/c%d_a%d.yuv" % (c, a)))
            aid += 1
    if rng.random() < .25:
        rng.shuffle(dis)                 # neither by content nor by id
    if rng.random() < .1:
        rng.shuffle(refs)
    extras(rng, refs + dis)
    attrs = dict(dataset_name=name or rng.choice(NAMES), yuv_fmt="yuv420p", width=rng.choice([1920, 640]), height=1080)
    if rng.random() < .8:
        attrs["ref_score"] = float(hi)
    if rng.random() < .2:
        attrs["quality_width"], attrs["quality_height"] = 320, 240
    return dict(kind="raw", style=style, attrs=attrs, refs=refs, dis=dis, S=S)


def extras(rng, videos):
    """further attributes of videos, as real datasets have them: plain and nested"""
    if rng.random() < .5:
        return
    for v in videos:
        if rng.random() < .6:
            v["crop"] = [rng.randint(0, 9) for _ in range(4)]
        if rng.random() < .3:
            v["meta"] = dict(codec=rng.choice(["h264", "av1"]), rates=[rng.randint(1, 9000), rng.randint(1, 9000)])
        if rng.random() < .3:
            v["fps"] = rng.choice([24, 29.97, 60])


def pc_spec(rng, name=None):
    n = rng.randint(2, 5)
    S = rng.randint(1, 5)
    names = list(TWINS if rng.random() < .2 else SUBJ)
    rng.shuffle(names)
    refs = [dict(content_id=0, content_name="c0", path="ref/c0.yuv")]
    q = [rng.uniform(0, 2) for _ in range(n)]
    dis = [dict(content_id=0, asset_id=i, os=[], path="dis/c0_a%d.yuv" % i) for i in range(n)]
    for s in names[:S]:
        for i in range(n):
            for j in range(i):
                if rng.random() < .15:
                    continue
                x = q[i] - q[j] + rng.gauss(0, 1)
                if abs(x) < .15:
                    dis[i]["os"].append([s, j, .5])
                    dis[j]["os"].append([s, i, .5])
                elif x > 0:
                    dis[i]["os"].append([s, j, 1])
                else:
                    dis[j]["os"].append([s, i, 1])
    extras(rng, refs + dis)
    return dict(kind="pc", style="pc", attrs=dict(dataset_name=name or rng.choice(NAMES), yuv_fmt="yuv420p", width=1920,
                                                  height=1080), refs=refs, dis=dis, S=S)


def materialise(spec):
    """attribute dict of the dataset, freshly built"""
    d = copy.deepcopy(spec["attrs"])
    d["ref_videos"] = copy.deepcopy(spec["refs"])
    out = []
    for v in spec["dis"]:
        v = copy.deepcopy(v)
        os_ = v["os"]
        if spec["kind"] == "pc":
            os_ = {(s, j): w for s, j, w in os_}
        elif isinstance(os_, dict):
            os_ = {k: list(x) if isinstance(x, list) else x for k, x in os_.items()}
        else:
            os_ = [list(x) if isinstance(x, list) else x for x in os_]
            if spec["style"] == "tuple":
                os_ = tuple(os_)
        v["os"] = os_
        out.append(v)
    d["dis_videos"] = out
    return d


def as_object(spec):
    ns = types.SimpleNamespace()
    ns.__dict__.update(materialise(spec))
    return ns


def as_py(spec, comment=""):
    d = materialise(spec)
    out = [comment and "# " + comment or ""]
    for k, v in d.items():
        out.append("%s = %s" % (k, pprint.pformat(v)))
    return "\n".join(out) + "\n"


def as_json(spec):
    d = materialise(spec)
    return json.dumps(d)


def write(path, text):
    from .seams import R
    with R.open(path, "w") as f:
        f.write(text)

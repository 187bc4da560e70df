"""Canonical plain-data form of results and datasets, and comparison with a tiny float tolerance."""
import types

import numpy as np


def canon(x, depth=0):
    if depth > 12:
        return "<deep>"
    if x is None or isinstance(x, (bool, str, bytes)):
        return x
    if isinstance(x, np.generic):
        return canon(x.item(), depth)
    if isinstance(x, (int, float)):
        return x
    if isinstance(x, np.ndarray):
        return {"__nd__": list(x.shape), "v": [canon(v, depth + 1) for v in x.ravel().tolist()]}
    if isinstance(x, (list, tuple)):
        return [canon(v, depth + 1) for v in x]
    if isinstance(x, dict):
        return {"__d__": [[canon(k, depth + 1), canon(v, depth + 1)] for k, v in
                          sorted(x.items(), key=lambda kv: repr(kv[0]))]}
    if isinstance(x, (set, frozenset)):
        return {"__s__": sorted(repr(v) for v in x)}
    if isinstance(x, types.ModuleType) or hasattr(x, "__dict__"):
        return {"__o__": canon(public(x), depth + 1)}
    return repr(type(x))


def public(o):
    d = getattr(o, "__dict__", {})
    return {k: v for k, v in d.items() if not k.startswith("__") and not isinstance(v, (types.ModuleType, types.FunctionType))}


def same(a, b, rtol=1e-9, atol=1e-11):
    if isinstance(a, float) or isinstance(b, float):
        if isinstance(a, (int, float)) and isinstance(b, (int, float)) and not isinstance(a, bool) and not isinstance(b, bool):
            if a != a or b != b:
                return a != a and b != b
            if a == b:
                return True
            if a in (float("inf"), -float("inf")) or b in (float("inf"), -float("inf")):
                return False
            return abs(a - b) <= atol + rtol * max(abs(a), abs(b))
        return False
    if type(a) is not type(b):
        return False
    if isinstance(a, list):
        return len(a) == len(b) and all(same(x, y, rtol, atol) for x, y in zip(a, b))
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k], rtol, atol) for k in a)
    return a == b


def diff(a, b, path=""):
    """first difference, for messages"""
    if same(a, b):
        return None
    if isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b):
            return "%s: length %d != %d" % (path, len(a), len(b))
        for i, (x, y) in enumerate(zip(a, b)):
            d = diff(x, y, "%s[%d]" % (path, i))
            if d:
                return d
    if isinstance(a, dict) and isinstance(b, dict):
        if a.keys() == {"__d__"} == b.keys():
            da, db = {repr(k): v for k, v in a["__d__"]}, {repr(k): v for k, v in b["__d__"]}
            for k in sorted(set(da) | set(db)):
                if k not in da or k not in db:
                    return "%s.%s only on one side" % (path, k)
                d = diff(da[k], db[k], path + "." + k)
                if d:
                    return d
        for k in sorted(set(a) | set(b)):
            if k not in a or k not in b:
                return "%s.%s only on one side" % (path, k)
            d = diff(a[k], b[k], path + "." + str(k))
            if d:
                return d
    return "%s: %r != %r" % (path, str(a)[:160], str(b)[:160])

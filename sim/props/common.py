"""Shared by the property modules."""
import os
import random

from .. import seams
from ..runner import loghash, REPO
from ..world import World, Decider, Hang

TARGETS = (os.path.realpath(os.path.join(REPO, "sureal")) + "/", os.path.join(REPO, "sureal") + "/")


def bump(d, k, n=1):
    d[k] = d.get(k, 0) + n


def viol(cls, detail):
    return {"class": cls, "detail": str(detail)[:1500]}


def outcome(fn):
    """('ok', value) or ('exc', type name, text); simulation control exceptions pass through."""
    try:
        return ("ok", fn())
    except (Hang,):
        raise
    except SystemExit as e:
        return ("exc", "SystemExit", str(e.code))
    except KeyboardInterrupt as e:
        return ("exc", "KeyboardInterrupt", str(e))
    except Exception as e:
        return ("exc", type(e).__name__, str(e)[:300])


def wall_steps(rng, n):
    """how much later (or, after a clock was set, earlier) each generation of processes runs"""
    return [rng.choice([0, 0, 2., 90., 4000., 90000., 7e5, 3e6, 4e7, 4e8, -5., -4000., -3e6]) for _ in range(n)]


def locale_encoding(rng):
    return rng.choice(["utf-8"] * 7 + ["ascii", "latin-1", "cp1252"])

"""Installs the seams, imports the code under test from the current tree, and returns the property module."""
import importlib
import os
import sys

from . import seams

REPO = os.environ.get("VERIF_REPO", "/repo")


def boot(prop_id):
    # third-party libraries first, with the real functions
    import numpy, scipy, scipy.stats, scipy.optimize, scipy.linalg, pandas       # noqa
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot, matplotlib.backends.backend_agg                     # noqa
    import PIL.Image, PIL.PngImagePlugin                                          # noqa
    import json, pprint, copy, random, multiprocessing, subprocess, tempfile, shutil, uuid, hashlib, secrets  # noqa
    import multiprocessing.managers, multiprocessing.pool, concurrent.futures, runpy, argparse, pickle, ast, fcntl  # noqa
    import logging, warnings, tokenize, glob, fnmatch, pathlib, contextlib, functools, inspect, traceback  # noqa
    import matplotlib.font_manager as fm
    import matplotlib.pyplot as plt
    # warm: font caches, mathtext, png writer
    import io
    fig = plt.figure()
    ax = fig.add_subplot()
    ax.set_title(r"warm ($\psi_j$)")
    ax.errorbar([1, 2], [1, 2], yerr=[.1, .1], label="x")
    ax.legend()
    fig.savefig(io.BytesIO(), format="png")
    plt.close("all")
    seams.install_early()
    from . import mp
    mp.install()
    seams.install_datetime()
    sys.path.insert(0, REPO)
    for m in [m for m in sys.modules if m == "sureal" or m.startswith("sureal.")]:
        del sys.modules[m]
    import sureal
    want = os.path.realpath(os.path.join(REPO, "sureal"))
    got = os.path.dirname(os.path.realpath(sureal.__file__))
    assert got == want, (got, want)
    for m in ("config", "core.mixin", "tools.misc", "tools.decorator", "tools.stats", "tools.inverse", "dataset_reader",
              "subjective_model", "pc_subjective_model", "experimental", "perf_metric", "routine", "__main__",
              "cmd_deprecated"):
        importlib.import_module("sureal." + m)
    warnings.simplefilter("ignore")
    numpy.seterr(all="ignore")
    import gc
    gc.collect()
    gc.freeze()
    return importlib.import_module("sim.props." + prop_id.lower())

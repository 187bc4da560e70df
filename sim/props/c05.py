"""C05 the single-file result cache."""
from .common import *
from . import cachesim

ID = "C05"
TECHNIQUE = "seeded schedules of processes and threads using one cache file, restarted one after another or at the same time, with crash, torn or short write, full disk or I/O error at any I/O step, then a fault-free recovery phase; history checked against the values really computed"
LEVEL_NOTE = "seeded search; real decorator on real files behind a simulated raw layer; a crash is the real death of the simulated process"
RUNS = dict(quick=3600, thorough=150000)
WALL = dict(quick=200, thorough=1500)
RULE = ("a case is one seeded history: one to four generations of one to three processes with one to three threads each calling cached "
        "functions with arguments that resemble each other, functions that raise, are slow or call the cache again, faults and "
        "crashes at drawn I/O steps, and a fault-free recovery; non-trivial when at least two calls ended")
COMPONENTS = dict(real=["sureal.tools.decorator persist_to_file", "sureal.tools.misc atomic_write", "Python json, io", "Linux file system (scratch)"],
                  stub=["process and thread scheduler", "raw file I/O results", "entropy and process ids", "the cached functions"])
ASSUMPTIONS = ["arguments are told apart by their printed form ", "functions that share a file keep their values apart, but what one of them saves may replace what another saved", "values are compared in their JSON form",
               "a crash is the death of a process (what it handed to the kernel survives) or a loss of power (names survive, data as far as they were fsynced)"]


def generate(rng, tier):
    return cachesim.generate(rng, tier, ID)


op_lists = cachesim.op_lists


def execute(sc, refs, root, explicit):
    return cachesim.execute(sc, root, explicit, ID)

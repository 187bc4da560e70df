"""The simulated world of one process: deterministic thread scheduling, simulated clock, faults, and (for nodes of a
multi-process run) the pipe to the controller that grants every I/O step."""
import _thread
import dis
import json
import os
import random
import sys
import threading
import time

from . import seams
from .seams import R, mkerr


class Hang(BaseException):
    pass


class SimAbort(BaseException):
    """Unwinds simulated threads when the run is over."""


class Cancelled(Exception):
    pass


# --------------------------------------------------------------------------------------------------
# Decisions: drawn from a PRNG and recorded, or replayed from a recording

FAULTS_FOR = {
    # kinds that a step of the given I/O kind can suffer ("crash" = process dies before the step,
    # "power" = all processes die and what was not fsynced may be lost, "INTR" = KeyboardInterrupt
    # while the system call waits)
    "open_r": ["EIO", "EMFILE", "crash", "power", "INTR"],
    "open_w": ["ENOSPC", "EIO", "EMFILE", "EACCES", "crash", "power", "INTR"],
    "write": ["nospace", "EIO", "short", "torn", "crash", "power", "INTR"],
    "read": ["EIO", "short", "crash", "power", "INTR"],
    "close": ["EIO", "ENOSPC", "crash", "power"],
    "fsync": ["EIO", "ENOSPC", "crash", "power", "INTR"],
    "rename": ["EIO", "ENOSPC", "crash", "power", "INTR"],
    "mkdir": ["ENOSPC", "EACCES", "crash", "power", "INTR"],
    "unlink": ["EIO", "crash", "power"],
    "truncate": ["EIO", "crash", "power"],
    "stat": ["crash", "power"],
    "listdir": ["crash", "power"],
    "utime": ["crash", "power"],
    "chmod": ["crash", "power"],
    "rmdir": ["crash", "power"],
    "link": ["EIO", "crash", "power"],
    "stdout": ["EPIPE", "ENOSPC", "EIO", "short", "crash", "power", "INTR"],
}


class Decider:
    """cfg: p_switch (per line), p_switch_io (per I/O step), p_fault, fault_kinds (list), fault_steps (I/O kinds), max_faults.
    explicit: dict(switches=[[step, actor]], faults=[[actor, idx, kind, param]]) replays; None draws."""

    def __init__(self, seed, cfg, explicit=None):
        self.rng = random.Random(seed)
        self.cfg = cfg
        self.switches = []
        self.faults = []
        self.explicit = explicit
        self.step = 0
        if explicit is not None:
            self._sw = {int(s): a for s, a in explicit.get("switches", [])}
            self._fl = {(a, int(i)): (k, int(p)) for a, i, k, p in explicit.get("faults", [])}
        self.fired = {}

    def pick(self, cur, ready, p, forced=False):
        """cur: current actor or None when it cannot continue; ready: sorted list of actors that can run."""
        self.step += 1
        if self.explicit is not None:
            a = self._sw.get(self.step)
            if a is None:
                return cur if cur is not None and not forced and cur in ready else \
                    next((r for r in ready if r != cur), cur)
            if a not in ready:
                return cur if cur in ready else ready[0]
            return a
        if cur is not None and not forced and cur in ready:
            if len(ready) == 1 or self.rng.random() >= p:
                return cur
            a = self.rng.choice([r for r in ready if r != cur])
        else:
            others = [r for r in ready if r != cur] or ready
            a = self.rng.choice(others)
        dflt = cur if cur is not None and not forced and cur in ready else next((r for r in ready if r != cur), cur)
        if a != dflt:
            self.switches.append([self.step, a])
        return a

    def fault(self, actor, idx, kind):
        if self.explicit is not None:
            f = self._fl.get((actor, idx))
            if f is None:
                return None
            if f[0] not in FAULTS_FOR.get(kind, ()):
                return None
        else:
            c = self.cfg
            if c.get("p_fault", 0) <= 0 or len(self.faults) >= c.get("max_faults", 1):
                return None
            if c.get("fault_steps") and kind not in c["fault_steps"]:
                return None
            if self.rng.random() >= c["p_fault"]:
                return None
            opts = [k for k in FAULTS_FOR.get(kind, ()) if k in c["fault_kinds"]]
            if not opts:
                return None
            f = (self.rng.choice(opts), self.rng.randrange(1 << 30))
        self.faults.append([actor, idx, f[0], f[1]])
        self.fired[f[0]] = self.fired.get(f[0], 0) + 1
        return f

    def record(self):
        return dict(switches=self.switches, faults=self.faults)


# --------------------------------------------------------------------------------------------------

class _T:
    __slots__ = ("name", "fn", "sem", "state", "result", "lines", "cancel", "io", "atomic", "op")

    def __init__(self, name, fn):
        self.name, self.fn = name, fn
        self.sem = _thread.allocate_lock()
        self.sem.acquire()
        self.state = "ready"
        self.result = None
        self.lines = 0
        self.cancel = None
        self.io = 0
        self.atomic = 0
        self.op = None


CANCEL_TYPES = {"KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError, "Cancelled": Cancelled}

MAX_STEPS = 3_000_000
MAX_BLOCKED = 30_000          # consecutive waits without any thread moving: nobody can make progress
LAST = None                   # the decider of the run in this process, for reporting a hang


_exits = {}


def with_exit(frame):
    """True at a line event that is the leaving of a with statement: CPython delivers no interruption there."""
    code = frame.f_code
    e = _exits.get(code)
    if e is None:
        e = set()
        ins = list(dis.get_instructions(code))
        for i, x in enumerate(ins):
            if x.opname == "WITH_EXCEPT_START" or (x.opname == "CALL" and x.argval == 2 and i >= 3 and all(
                    y.opname == "LOAD_CONST" and y.argval is None for y in ins[i - 3:i])):
                j = i
                while j >= 0 and ins[j].opname in ("CALL", "LOAD_CONST", "SWAP", "NOP", "WITH_EXCEPT_START", "PUSH_EXC_INFO", "COPY"):
                    e.add(ins[j].offset)
                    if ins[j].starts_line is not None:
                        break
                    j -= 1
        _exits[code] = e
    return frame.f_lasti in e


class World:
    def __init__(self, root=None, decider=None, seed=0, bufsize=8192, chunk=8192, target_prefixes=(), pid=4242,
                 sim_clock=True, trace_lines=True):
        self.root = root
        self.decider = decider or Decider(seed, {})
        global LAST
        LAST = self
        self.blocked = 0
        self.bufsize, self.chunk = bufsize, chunk
        self.dying = False
        self.sim_clock = sim_clock
        self.entropy = random.Random("entropy/%s" % (seed,))
        self.pid = pid
        self.cooperative = True
        self.targets = tuple(target_prefixes)
        self.trace_lines = trace_lines
        self._tcache = {}
        self.threads = {}
        self.cur = None
        self.main_sem = _thread.allocate_lock()
        self.main_sem.acquire()
        self.mono = 1000.0
        self.wall_off = 1.6e9
        self.encoding = "utf-8"  # of the locale
        self.stamp = False       # files get simulated time stamps
        self.cpu = 0.0
        self.tick = 1e-6
        self.wakers = []
        self.steps = 0
        self.log = []           # event log (hashed for the determinism proof)
        self.stop = False
        self.error = None
        self.clock_jumps = []   # list of (mono time, delta) applied to the wall clock
        self.jumps_fired = 0
        self.io_total = 0
        self.main = _T("main", None)
        self.mp = None
        self.popen = None
        self.switch_count = 0
        self.line_total = 0
        self.slept = 0.0
        self.on_switch = None   # called whenever control passes from one thread to another

    # ---- clock
    def _apply_jumps(self):
        while self.clock_jumps and self.clock_jumps[0][0] <= self.mono:
            self.wall_off += self.clock_jumps.pop(0)[1]
            self.jumps_fired += 1

    def now_mono(self):
        self.mono += self.tick
        self._apply_jumps()
        return self.mono

    def now_wall(self):
        self.mono += self.tick
        self._apply_jumps()
        return self.mono + self.wall_off

    def now_cpu(self):
        self.cpu += self.tick
        return self.cpu

    def sleep(self, s):
        self.slept += s
        if self.mp is not None:
            self.mp.poll(s)
            self._apply_jumps()
            return
        t = self.current()
        if t is self.main or not self.threads:
            self.mono += s
            self._apply_jumps()
            return
        until = self.mono + s
        t.state = ("sleep", until)
        self._reschedule("sleep", forced=True)

    # ---- threads
    def current(self):
        c = self.cur
        return self.threads[c] if c is not None else self.main

    def target(self, filename):
        r = self._tcache.get(filename)
        if r is None:
            r = self._tcache[filename] = filename.startswith(self.targets) if self.targets else False
        return r

    def gtrace(self, frame, event, arg):
        if self.target(frame.f_code.co_filename):
            return self.ltrace
        return None

    def ltrace(self, frame, event, arg):
        if event == "line":
            self.line_point(frame)
        return self.ltrace

    def line_point(self, frame=None):
        if self.stop:
            raise SimAbort()
        t = self.current()
        t.lines += 1
        self.blocked = 0
        self.line_total += 1
        c = t.cancel
        if c is not None and t.lines >= c[0] and not (frame is not None and with_exit(frame)):
            t.cancel = None
            self.log.append(("cancel", t.name, c[1]))
            self.decider.fired["cancel:" + c[1]] = self.decider.fired.get("cancel:" + c[1], 0) + 1
            raise CANCEL_TYPES[c[1]]("simulated interruption")
        if len(self.threads) > 1:
            self.yield_point("line")

    def enter_atomic(self):
        self.current().atomic += 1

    def exit_atomic(self):
        self.current().atomic -= 1

    def yield_point(self, tag):
        t = self.current()
        if t is self.main or t.atomic:
            return
        self._reschedule(tag, forced=False)

    def block_yield(self, tag):
        t = self.current()
        if t is self.main:
            raise Hang("main blocked at " + tag)
        self.blocked += 1
        if self.blocked > MAX_BLOCKED:
            self.error = "no thread can make progress (waiting at %s)" % tag
            self._finish_all()
            raise SimAbort()
        self._reschedule(tag, forced=True)

    def _ready(self):
        r = [t.name for t in self.threads.values() if t.state == "ready" or
             (isinstance(t.state, tuple) and t.state[1] <= self.mono)]
        if not r:
            sl = [t.state[1] for t in self.threads.values() if isinstance(t.state, tuple)]
            if not sl:
                return []
            self.mono = max(self.mono, min(sl))
            self._apply_jumps()
            r = [t.name for t in self.threads.values() if isinstance(t.state, tuple) and t.state[1] <= self.mono]
        r.sort()
        return r

    def _reschedule(self, tag, forced):
        self.steps += 1
        if self.steps > MAX_STEPS:
            self.error = "step limit"
            self._finish_all()
            raise SimAbort()
        me = self.threads[self.cur]
        ready = self._ready()
        cfg = self.decider.cfg
        p = cfg.get("p_switch_io", 0.3) if tag != "line" else cfg.get("p_switch", 0.02)
        nxt = self.decider.pick(me.name, ready, p, forced)
        if nxt == me.name:
            me.state = "ready"
            return
        self.switch_count += 1
        self.log.append(("sw", self.decider.step, tag, me.name, nxt))
        if self.on_switch is not None:
            self.on_switch()
        self._handoff(me, nxt)

    def _handoff(self, me, nxt):
        t = self.threads[nxt]
        t.state = "ready"
        self.cur = nxt
        t.sem.release()
        me.sem.acquire()
        if self.stop:
            raise SimAbort()

    def _finish_all(self):
        self.stop = True

    def _body(self, t):
        t.sem.acquire()
        try:
            if self.trace_lines:
                sys.settrace(self.gtrace)
            try:
                t.result = ("ok", t.fn())
            finally:
                sys.settrace(None)
        except SimAbort:
            t.result = ("abort", None)
        except BaseException as e:          # harness error: op wrappers catch everything the code under test raises
            import traceback
            t.result = ("err", traceback.format_exc())
            self.error = self.error or t.result[1]
        t.state = "done"
        if self.stop:
            rest = [x for x in self.threads.values() if x.state != "done"]
            if rest:
                self.cur = rest[0].name
                rest[0].sem.release()
            else:
                self.cur = None
                self.main_sem.release()
            return
        ready = self._ready()
        if ready:
            nxt = self.decider.pick(None, ready, 1.0)
            self.log.append(("end", t.name, nxt))
            self.threads[nxt].state = "ready"
            self.cur = nxt
            self.threads[nxt].sem.release()
        else:
            self.log.append(("end", t.name, None))
            self.cur = None
            self.main_sem.release()

    def retrace(self):
        """Re-arm line tracing for the calling thread (an injected exception switches it off)."""
        if self.trace_lines and self.cur is not None:
            sys.settrace(self.gtrace)

    def run_threads(self, fns):
        """fns: list of (name, callable). Runs them to completion under the scheduler; returns {name: result}."""
        self.threads = {}
        ths = []
        for name, fn in fns:
            self.threads[name] = _T(name, fn)
        for name, _ in fns:
            th = threading.Thread(target=self._body, args=(self.threads[name],), daemon=True)
            th.start()
            ths.append(th)
        first = self.decider.pick(None, sorted(self.threads), 1.0)
        self.cur = first
        self.threads[first].sem.release()
        self.main_sem.acquire()
        for th in ths:
            th.join()
        out = {n: t.result for n, t in self.threads.items()}
        self.threads = {}
        self.cur = None
        if self.error:
            if self.stop:
                raise Hang(str(self.error))
            raise RuntimeError("simulation error: " + str(self.error))
        return out

    def begin_op(self, label, cancel=None):
        """Marks the start of an operation in the calling thread: I/O steps and lines are counted from here."""
        t = self.current()
        t.op, t.io, t.lines, t.cancel = label, 0, 0, cancel
        self.retrace()

    def end_op(self):
        t = self.current()
        n = t.lines
        t.op, t.cancel = None, None
        return n

    def run_traced(self, fn):
        """Run fn in the calling (main) thread with line tracing, for cancellation and counting."""
        self.main.lines = 0
        if self.trace_lines:
            sys.settrace(self.gtrace)
        try:
            return fn()
        finally:
            sys.settrace(None)

    # ---- I/O
    def io(self, kind, path, size=None):
        t = self.current()
        if self.stop:
            raise SimAbort()
        self.io_total += 1
        self.blocked = 0
        t.io += 1
        self.yield_point(kind)
        f = self.decider.fault(t.op or t.name, t.io, kind)
        return self._apply(f, kind, path)

    def _apply(self, f, kind, path):
        if f is None:
            return None
        self.log.append(("fault", kind, f[0]))
        if f[0] in ("short", "nospace"):
            return f
        if f[0] == "torn":
            return f
        if f[0] in ("crash", "power"):
            self.die()
        if f[0] == "INTR":
            raise KeyboardInterrupt("while %s %s" % (kind, os.path.basename(str(path))))
        raise mkerr(f[0], path)

    def die(self):
        self.dying = True
        os._exit(137)


class NodeWorld(World):
    """World of one node of a multi-process run: each I/O step is granted by the controller over a pipe."""

    def __init__(self, rfd, wfd, **k):
        super().__init__(**k)
        self.rfd, self.wfd = rfd, wfd
        self._buf = b""
        self._sent_sw = 0

    def _send(self, d):
        b = (json.dumps(d) + "\n").encode()
        while b:
            n = R.os_write(self.wfd, b)
            b = b[n:]

    def _recv(self):
        while b"\n" not in self._buf:
            d = R.os_read(self.rfd, 65536)
            if not d:
                os._exit(139)
            self._buf += d
        line, self._buf = self._buf.split(b"\n", 1)
        return json.loads(line)

    def event(self, **d):
        self._send(dict(t="ev", e=d))

    def grant(self, msg):
        sw = self.decider.switches[self._sent_sw:]
        self._sent_sw = len(self.decider.switches)
        if sw:
            msg["sw"] = sw
        self._send(msg)
        return self._recv()

    def io(self, kind, path, size=None):
        t = self.current()
        if self.stop:
            raise SimAbort()
        if len(self.threads) > 1:
            self.yield_point(kind)
        self.io_total += 1
        t.io += 1
        r = self.grant(dict(t="io", k=kind, p=os.path.relpath(path, self.root), n=size, a=t.op or t.name, i=t.io))
        f = r.get("f")
        if f is None:
            return None
        return self._apply(tuple(f), kind, path)

    def block_yield(self, tag):
        if len(self.threads) > 1:
            super().block_yield(tag)
        self.grant(dict(t="block", k=tag))

    def sleep(self, s):
        if len(self.threads) > 1:
            super().sleep(s)
            return
        self.slept += s
        self.mono += s
        self._apply_jumps()
        self.grant(dict(t="block", k="sleep"))

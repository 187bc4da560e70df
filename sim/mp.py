"""Simulated worker processes (multiprocessing) and external commands (subprocess).

A simulated worker's body runs for real in a forked child at the moment it is started (so it has the memory image a forked
worker has and cannot touch the parent), but when its effects on shared objects become visible, how long it lives, whether it
is killed or cannot start, and in which order a set of workers iterates, is decided by the simulation."""
import errno
import io
import multiprocessing
import multiprocessing.connection
import os
import pickle
import queue as _queue
import subprocess
import sys

from . import seams
from .seams import R
from .world import Hang


class MPSim:
    """plan: {start index -> dict(dur=, fault=None|'kill'|'kill_late'|'start'|'manager', hash=)}"""

    def __init__(self, world, plan, default, cpus, poll_cost, max_polls):
        self.w, self.plan, self.default, self.cpus = world, plan, default, cpus
        self.procs = []
        self.objs = []
        self.depth = 0           # 0 in the calling process, 1 in its workers, 2 in theirs
        self.daemon = False
        self.effects = []
        self.calls = []          # in the child: function calls made (appended by the harness's function)
        self.call_log = []       # in the parent: all calls ever made
        self.max_alive = 0
        self.created = 0
        self.polls = 0
        self.poll_cost = poll_cost
        self.max_polls = max_polls
        self.fired = {}
        self.log = []
        self.started = 0

    def fire(self, k):
        self.fired[k] = self.fired.get(k, 0) + 1

    def poll(self, cost=None):
        self.polls += 1
        if self.polls > self.max_polls:
            raise Hang("still polling after %d polls at simulated time %.3f" % (self.polls, self.w.mono))
        self.w.mono += self.poll_cost if cost is None else cost
        self.settle()

    def settle(self):
        while True:
            due = [p for p in self.procs if p._end is not None and not p._delivered and p._end <= self.w.mono]
            if not due:
                break
            p = min(due, key=lambda p: (p._end, p._seq))
            p._deliver()
        for p in self.procs:                      # a worker cannot end while what it put in a queue does not fit in the pipe
            if p._end is not None and p._delivered and not p._applied and p._end <= self.w.mono and not any(q.full() for q in p._pipes):
                p._finish()

    def alive(self):
        return [p for p in self.procs if p._end is not None and not p._applied]

    def running(self):
        """workers that something still comes from"""
        return [p for p in self.procs if p._end is not None and not p._delivered]

    def record(self, obj, op, *a):
        self.effects.append((obj._idx, op, pickle.dumps(a)))


class SimProcess:
    def __new__(cls, *a, **k):
        w = seams.WORLD
        if w is None or getattr(w, "mp", None) is None:
            if cls is SimProcess:
                return R.Process(*a, **k)
        return object.__new__(cls)

    def __init__(self, group=None, target=None, name=None, args=(), kwargs={}, *, daemon=None):
        m = self._m = seams.WORLD.mp
        self._target, self._args, self._kwargs = target, tuple(args), dict(kwargs)
        self._created = m.created
        m.created += 1
        m.procs.append(self)
        self._plan = m.plan.get(str(self._created), m.default)
        self.name = name or "Process-%d" % (self._created + 1)
        self.daemon = bool(daemon)
        self._end = None
        self._applied = self._delivered = False
        self._pipes = []
        self._exit = None
        self._seq = None
        self.pid = None
        self.ident = None
        self.authkey = b""

    def __hash__(self):
        return self._plan.get("hash", self._created)

    def __eq__(self, o):
        return self is o

    def run(self):
        if self._target:
            self._target(*self._args, **self._kwargs)

    def start(self):
        m = self._m
        assert self._end is None, "cannot start a process twice"
        assert not m.daemon, "daemonic processes are not allowed to have children"
        m.settle()
        if self._plan.get("fault") == "start":
            m.fire("start_error")
            m.log.append(("start_error", self._created))
            raise BlockingIOError(errno.EAGAIN, "Resource temporarily unavailable")
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                R.os_close(r)
                m.depth += 1
                m.daemon = self.daemon
                m.effects, m.calls = [], []
                m.procs, m.plan, m.polls, m.log, m.started, m.call_log = [], {}, 0, [], 0, []
                rc = 0
                try:
                    if self._plan.get("fault") == "manager":
                        m.manager_down = True
                    self.run()
                except SystemExit as e:
                    rc = e.code if isinstance(e.code, int) else 0 if e.code is None else 1
                except BaseException:
                    rc = 1
                b = pickle.dumps((rc, m.effects, m.calls))
                while b:
                    n = R.os_write(w, b)
                    b = b[n:]
            finally:
                os._exit(0)
        R.os_close(w)
        buf = b""
        while True:
            d = R.os_read(r, 1 << 16)
            if not d:
                break
            buf += d
        R.os_close(r)
        os.waitpid(pid, 0)
        rc, self._effects, calls = pickle.loads(buf) if buf else (-11, [], [])
        self._rc = rc
        if self._plan.get("fault") == "manager":
            m.fire("manager_lost")
        if self._plan.get("fault") == "kill":
            m.fire("worker_killed")
            self._effects, self._rc = [], -9
        elif self._plan.get("fault") == "kill_late":
            m.fire("worker_killed_late")
            self._rc = -9
        elif rc == 1:
            m.fire("worker_raised")
        m.call_log += calls
        self._seq = m.started
        m.started += 1
        self._end = m.w.mono + self._plan["dur"]
        self.pid = self.ident = 5000 + self._seq
        m.log.append(("start", self._created, round(m.w.mono, 6)))
        m.max_alive = max(m.max_alive, len(m.alive()))

    def _deliver(self):
        m = self._m
        self._delivered = True
        for idx, op, a in self._effects:
            o = m.objs[idx]
            if o._depth < m.depth:
                m.effects.append((idx, op, a))    # belongs to a process further up
            else:
                o._apply(op, *pickle.loads(a))
                if o._pipe and o not in self._pipes and self._rc != -9:
                    self._pipes.append(o)

    def _finish(self):
        m = self._m
        self._applied = True
        self._exit = self._rc
        m.log.append(("end", self._created, self._rc, round(self._end, 6)))

    def is_alive(self):
        self._m.poll()
        return self._end is not None and not self._applied

    @property
    def exitcode(self):
        self._m.poll()
        return self._exit

    def join(self, timeout=None):
        m = self._m
        assert self._end is not None, "can only join a started process"
        m.poll(0.0)
        if not self._applied:
            end = None if timeout is None else m.w.mono + timeout
            m.w.mono = max(m.w.mono, self._end if end is None else min(self._end, end))
            m.settle()
            if not self._applied and self._delivered:
                if end is None:
                    raise Hang("join() of a worker that waits until its queue is read")
                m.w.mono = max(m.w.mono, end)

    def terminate(self):
        if self._end is not None and not self._applied:
            self._effects, self._rc, self._pipes = [], -15, []
            self._end = self._m.w.mono
            self._m.settle()

    kill = terminate

    def close(self):
        pass

    @property
    def sentinel(self):
        return ("sentinel", self)


class _Shared:
    _pipe = False

    def __init__(self):
        m = seams.WORLD.mp
        self._m = m
        self._depth = m.depth
        self._idx = len(m.objs)
        m.objs.append(self)

    def _do(self, op, *a):
        m = self._m
        if m.depth > self._depth:
            if getattr(m, "manager_down", False):
                raise ConnectionRefusedError("manager is gone")
            m.record(self, op, *a)
            a = pickle.loads(pickle.dumps(a))
        return self._apply(op, *a)

    def _apply(self, op, *a):
        return getattr(self._c, op)(*a)

    def _look(self):
        if self._m.depth == self._depth:
            self._m.poll()


class SimDict(_Shared):
    def __init__(self, *a, **k):
        super().__init__()
        self._c = dict(*a, **k)

    def __setitem__(self, k, v):
        self._do("__setitem__", k, v)

    def __delitem__(self, k):
        self._do("__delitem__", k)

    def update(self, *a, **k):
        self._do("update", dict(*a, **k))

    def setdefault(self, k, d=None):
        return self._do("setdefault", k, d)

    def pop(self, *a):
        return self._do("pop", *a)

    def __getitem__(self, k):
        self._look()
        return self._c[k]

    def get(self, *a):
        self._look()
        return self._c.get(*a)

    def __contains__(self, k):
        self._look()
        return k in self._c

    def __len__(self):
        self._look()
        return len(self._c)

    def __iter__(self):
        self._look()
        return iter(list(self._c))

    def keys(self):
        self._look()
        return list(self._c)

    def values(self):
        self._look()
        return list(self._c.values())

    def items(self):
        self._look()
        return list(self._c.items())

    def copy(self):
        self._look()
        return dict(self._c)


class SimList(_Shared):
    def __init__(self, *a):
        super().__init__()
        self._c = list(*a)

    def append(self, x):
        self._do("append", x)

    def extend(self, x):
        self._do("extend", list(x))

    def __setitem__(self, k, v):
        self._do("__setitem__", k, v)

    def __getitem__(self, k):
        self._look()
        return self._c[k]

    def __len__(self):
        self._look()
        return len(self._c)

    def __iter__(self):
        self._look()
        return iter(list(self._c))


class SimQueue(_Shared):
    def __init__(self, pipe=False):
        super().__init__()
        self._c = []
        self._pipe = pipe                         # a pipe of 64 KiB rather than a manager's queue

    def full(self):
        return self._pipe and sum(len(pickle.dumps(x)) for x in self._c) > 65536

    def put(self, x, *a, **k):
        self._do("append", x)

    put_nowait = put

    def _wait(self, end):
        m = self._m
        while not self._c:
            m.poll(0.0)
            if self._c:
                break
            al = m.running()
            if not al:
                if end is None:
                    raise Hang("get() on a queue nobody will fill")
                m.w.mono = max(m.w.mono, end)
                raise _queue.Empty
            t = min(p._end for p in al)
            if end is not None and t > end:
                m.w.mono = end
                raise _queue.Empty
            m.w.mono = max(m.w.mono, t)
            m.settle()

    def get(self, block=True, timeout=None):
        self._m.poll(0.0)
        if not self._c:
            if not block:
                raise _queue.Empty
            self._wait(None if timeout is None else self._m.w.mono + timeout)
        return self._c.pop(0)

    def get_nowait(self):
        return self.get(False)

    def empty(self):
        self._m.poll()
        return not self._c

    def qsize(self):
        self._m.poll()
        return len(self._c)

    def close(self):
        pass

    def join_thread(self):
        pass

    def cancel_join_thread(self):
        pass


class SimConnection(SimQueue):
    """one end of a pipe"""

    def __init__(self):
        super().__init__(pipe=True)
        self._peer = None
        self.closed = False

    def send(self, x):
        self._peer._do("append", x)

    def recv(self):
        try:
            return self.get()
        except Hang:
            raise EOFError

    def poll(self, timeout=0.0):
        m = self._m
        m.poll(0.0)
        if not self._c and timeout != 0.0:
            try:
                self._wait(None if timeout is None else m.w.mono + timeout)
            except (_queue.Empty, Hang):
                pass
        return bool(self._c) or not m.running()

    def close(self):
        self.closed = True

    def fileno(self):
        return 3

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


def sim_pipe(duplex=True):
    a, b = SimConnection(), SimConnection()
    a._peer, b._peer = b, a
    return a, b


class SimManager:
    def __init__(self):
        assert not seams.WORLD.mp.daemon, "daemonic processes are not allowed to have children"

    def dict(self, *a, **k):
        return SimDict(*a, **k)

    def list(self, *a):
        return SimList(*a)

    def Queue(self, *a):
        return SimQueue()

    def shutdown(self):
        pass

    def start(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


class _Ctx:
    Process = SimProcess

    def __getattr__(self, n):
        return getattr(multiprocessing, n)


# --------------------------------------------------------------------------------------------------

class PopenSim:
    """script: {token in the command: dict(spawn=None|errname, dur=, rc=, out=bytes, intr=None|seconds)}"""

    def __init__(self, world, script):
        self.w, self.script = world, script
        self.children = []
        self.spawned = 0
        self.fired = {}

    def fire(self, k):
        self.fired[k] = self.fired.get(k, 0) + 1

    def lookup(self, args):
        t = args if isinstance(args, (str, bytes)) else " ".join(map(str, args))
        if isinstance(t, bytes):
            t = t.decode("utf-8", "replace")
        for k, s in self.script.items():
            if k in t:
                return k, s
        raise FileNotFoundError(errno.ENOENT, "no such simulated command", t)

    def until(self, t):
        """time passes for the calling thread"""
        if t > self.w.mono:
            self.w.sleep(t - self.w.mono)


SPAWN_ERRORS = {"ENOENT": FileNotFoundError, "EACCES": PermissionError, "EAGAIN": BlockingIOError, "EMFILE": OSError,
                "ENOMEM": OSError}


class _Out(io.BytesIO):
    def __init__(self, p, data):
        super().__init__(data)
        self._p = p

    def _drain(self):
        p = self._p
        p._read = True
        p._interruptible(p._end)

    def read(self, *a):
        self._drain()
        return super().read(*a)

    def readline(self, *a):
        self._drain()
        return super().readline(*a)

    def __next__(self):
        self._drain()
        return super().__next__()


class SimPopen:
    def __new__(cls, *a, **k):
        w = seams.WORLD
        if w is None or getattr(w, "popen", None) is None:
            return R.Popen(*a, **k)
        return object.__new__(cls)

    def __init__(self, args, bufsize=-1, executable=None, stdin=None, stdout=None, stderr=None, preexec_fn=None,
                 close_fds=True, shell=False, cwd=None, env=None, universal_newlines=None, startupinfo=None, creationflags=0,
                 restore_signals=True, start_new_session=False, pass_fds=(), *, user=None, group=None, extra_groups=None,
                 encoding=None, errors=None, text=None, umask=-1, pipesize=-1, process_group=None):
        sim = self._sim = seams.WORLD.popen
        self.args = args
        key, s = sim.lookup(args)
        sim.spawned += 1
        self.key = key
        self.attempts = sim.attempts = getattr(sim, "attempts", {})
        sim.attempts[key] = sim.attempts.get(key, 0) + 1
        self.returncode = None
        if s.get("spawn"):
            sim.fire("spawn_" + s["spawn"])
            raise SPAWN_ERRORS[s["spawn"]](getattr(errno, s["spawn"]), os.strerror(getattr(errno, s["spawn"])), str(args))
        self._text = bool(text or universal_newlines or encoding)
        self._enc, self._errs = encoding or "utf-8", errors or "strict"
        self.pid = 7000 + sim.spawned
        self._end = sim.w.mono + s["dur"]
        self._rc = s["rc"]
        self._intr = None if s.get("intr") is None else sim.w.mono + s["intr"]
        data = s["out"]
        self._read = False
        self._piped = stdout == subprocess.PIPE
        self._big = len(data) > 65536
        self.stdin = io.BytesIO() if stdin == subprocess.PIPE else None
        self.stdout = self.stderr = None
        if self._piped:
            raw = _Out(self, data)
            self.stdout = io.TextIOWrapper(raw, self._enc, self._errs) if self._text else raw
        if stderr == subprocess.PIPE:
            self.stderr = io.StringIO() if self._text else io.BytesIO()
        self._data = data
        self.killed = False
        sim.children.append(self)
        if s["rc"]:
            sim.fire("exit_signal" if s["rc"] < 0 else "exit_nonzero")

    def _over(self):
        return self._sim.w.mono >= self._end

    def _interruptible(self, t):
        """wait until time t, or be interrupted on the way"""
        i = self._intr
        if i is not None and self._sim.w.mono <= i < t:
            self._intr = None
            self._sim.until(i)
            self._sim.fire("interrupted")
            raise KeyboardInterrupt()
        self._sim.until(t)

    def poll(self):
        self._sim.w.sleep(1e-3)
        if self.returncode is None and self._over():
            self.returncode = self._rc
        return self.returncode

    def wait(self, timeout=None):
        w = self._sim.w
        if self.returncode is not None:
            return self.returncode
        if self._piped and self._big and not self._read and not self.killed:
            if timeout is None:
                raise Hang("wait() while the child is blocked on a full pipe")
            self._interruptible(w.mono + timeout)
            self._sim.fire("timeout")
            raise subprocess.TimeoutExpired(self.args, timeout)
        if timeout is not None and self._end - w.mono > timeout:
            self._interruptible(w.mono + timeout)
            self._sim.fire("timeout")
            raise subprocess.TimeoutExpired(self.args, timeout)
        self._interruptible(self._end)
        self.returncode = self._rc
        return self.returncode

    def communicate(self, input=None, timeout=None):
        w = self._sim.w
        self._read = True
        if self.returncode is None and timeout is not None and self._end - w.mono > timeout:
            self._interruptible(w.mono + timeout)
            self._sim.fire("timeout")
            raise subprocess.TimeoutExpired(self.args, timeout, output=self._data[:10] if self._piped else None)
        self._interruptible(self._end)
        self.returncode = self._rc if self.returncode is None else self.returncode
        out = self._data if self._piped else None
        if self._piped and self._text:
            out = out.decode(self._enc, self._errs)
        err = None if self.stderr is None else ("" if self._text else b"")
        return out, err

    def send_signal(self, sig):
        if self.returncode is None and not self._over():
            self._end = self._sim.w.mono
            self._rc = -int(sig)
            self.killed = True

    def kill(self):
        self.send_signal(9)

    def terminate(self):
        self.send_signal(15)

    def __enter__(self):
        return self

    def __exit__(self, et, ev, tb):
        if self.stdout is not None:
            self._read = True          # closing the pipe unblocks the writer
        self.wait()

    def __del__(self):
        pass


def install():
    R.Process = multiprocessing.Process
    R.Manager = multiprocessing.Manager
    R.Queue, R.SimpleQueue = multiprocessing.Queue, multiprocessing.SimpleQueue
    R.mp_cpu_count, R.os_cpu_count = multiprocessing.cpu_count, os.cpu_count
    R.get_context = multiprocessing.get_context
    R.active_children = multiprocessing.active_children
    R.conn_wait = multiprocessing.connection.wait
    R.Popen = subprocess.Popen

    def act():
        w = seams.WORLD
        return getattr(w, "mp", None) if w is not None else None
    multiprocessing.Process = SimProcess
    multiprocessing.Manager = lambda *a, **k: SimManager() if act() else R.Manager(*a, **k)
    multiprocessing.Queue = lambda *a, **k: SimQueue(True) if act() else R.Queue(*a, **k)
    multiprocessing.SimpleQueue = lambda *a, **k: SimQueue(True) if act() else R.SimpleQueue(*a, **k)
    R.Pipe = multiprocessing.Pipe
    multiprocessing.Pipe = lambda *a, **k: sim_pipe() if act() else R.Pipe(*a, **k)
    multiprocessing.JoinableQueue = multiprocessing.Queue
    multiprocessing.cpu_count = lambda: act().cpus if act() else R.mp_cpu_count()
    os.cpu_count = lambda: act().cpus if act() else R.os_cpu_count()
    os.sched_getaffinity = (lambda real: lambda pid: set(range(act().cpus)) if act() else real(pid))(os.sched_getaffinity)
    multiprocessing.get_context = lambda *a: _Ctx() if act() else R.get_context(*a)
    multiprocessing.active_children = lambda: (act().poll(), act().alive())[1] if act() else R.active_children()

    def wait(objs, timeout=None):
        m = act()
        if m is None:
            return R.conn_wait(objs, timeout)
        end = None if timeout is None else m.w.mono + timeout
        while True:
            m.poll(0.0)
            r = [o for o in objs if (o._c or not m.running() if isinstance(o, SimConnection) else isinstance(o, tuple) and o[1]._applied)]
            if r or (end is not None and m.w.mono >= end):
                return r
            al = m.alive()
            if not al:
                raise Hang("wait() on workers that were never started")
            t = min(p._end for p in al)
            m.w.mono = max(m.w.mono, t if end is None else min(t, end))
            m.settle()
    multiprocessing.connection.wait = wait
    subprocess.Popen = SimPopen
    R.system = os.system

    def system(cmd):
        w = seams.WORLD
        if w is None or getattr(w, "popen", None) is None:
            return R.system(cmd)
        try:
            rc = SimPopen(cmd, shell=True).wait()
        except OSError:
            return -1
        return rc << 8 if rc >= 0 else -rc
    os.system = system

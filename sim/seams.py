"""Seams: every source of nondeterminism the code under test can meet goes through the functions installed here.

install_early() is called before anything of sureal is imported.  It replaces module attributes (builtins.open, os.*,
time.*, threading locks, multiprocessing.*, subprocess.Popen ...) by delegators.  With no World active a delegator calls
the original; with a World active it asks the World.  Only paths below the World's scratch root are simulated, so library
files (matplotlib fonts, Python's own modules) are read normally and cost no scheduling step.
"""
import builtins
import errno
import io
import os
import sys
import time
import threading

WORLD = None          # the active World of this process, or None


class R:               # originals
    pass


def set_world(w):
    global WORLD
    WORLD = w


# --------------------------------------------------------------------------------------------------
# File system

ERR = {"ENOSPC": errno.ENOSPC, "EIO": errno.EIO, "EMFILE": errno.EMFILE, "EACCES": errno.EACCES, "EPIPE": errno.EPIPE,
       "EDQUOT": errno.EDQUOT}


def mkerr(name, path):
    e = ERR[name]
    return OSError(e, os.strerror(e), path)


_fd_paths = {}        # fds opened inside the scratch root -> path


def _sim_path(p):
    """The absolute scratch path behind p, or None when p is not simulated."""
    w = WORLD
    if w is None or w.root is None:
        return None
    if isinstance(p, int):
        return _fd_paths.get(p)
    try:
        p = os.fspath(p)
    except TypeError:
        return None
    if isinstance(p, bytes):
        p = os.fsdecode(p)
    if not p.startswith("/"):
        try:
            p = R.getcwd() + "/" + p
        except OSError:
            return None
    if p == w.root or p.startswith(w.root + "/"):
        return os.path.normpath(p)
    return None


def _stamp(fd):
    """what is written carries the simulated time"""
    w = WORLD
    if w is not None and w.sim_clock and w.stamp:
        t = w.mono + w.wall_off
        try:
            R.utime(fd, (t, t))
        except OSError:
            pass


class SimFileIO(io.FileIO):
    """Raw file whose every operation is a scheduling and fault point."""

    def __init__(self, file, mode, path, closefd=True, opener=None):
        self._sim_path = path
        self._sim_closed = False
        w = WORLD
        if not isinstance(file, int):
            kind = "open_r" if mode in ("r", "rb") else "open_w"
            w.io(kind, path)
        super().__init__(file, mode, closefd, opener)
        if mode not in ("r", "rb") and "a" not in mode:
            _stamp(super().fileno())

    def write(self, b):
        n = self._write(b)
        _stamp(super().fileno())
        return n

    def _write(self, b):
        w = WORLD
        if w is None:
            return super().write(b)
        mv = memoryview(b).cast("B")
        n = len(mv)
        act = w.io("write", self._sim_path, n)
        if act is None or n == 0:
            return super().write(mv)
        kind, k = act
        if kind == "short":
            k = max(1, min(k % n if n > 1 else 1, n))
            return super().write(mv[:k])
        if kind in ("torn", "nospace"):
            k = k % (n + 1) if kind == "torn" else k % n
            done = 0
            while done < k:
                done += super().write(mv[done:k])
            if kind == "torn":
                w.die()
            raise mkerr("ENOSPC", self._sim_path)
        raise AssertionError(act)

    def _cut(self, size):
        w = WORLD
        if w is None:
            return size
        act = w.io("read", self._sim_path, size)
        if act is not None and act[0] == "short" and size is not None and size > 1:
            return 1 + act[1] % (size - 1)
        return size

    def read(self, size=-1):
        if size is None or size < 0:
            return self.readall()
        return super().read(self._cut(size))

    def readinto(self, b):
        mv = memoryview(b).cast("B")
        n = len(mv)
        k = self._cut(n)
        return super().readinto(mv[:k])

    def readall(self):
        out = []
        while True:
            d = super().read(self._cut(65536))
            if not d:
                return b"".join(out)
            out.append(d)

    def truncate(self, size=None):
        if WORLD is not None:
            WORLD.io("truncate", self._sim_path)
        return super().truncate(size)

    def close(self):
        if self._sim_closed or self.closed or WORLD is None:
            self._sim_closed = True
            return super().close()
        self._sim_closed = True
        w = WORLD
        err = None
        try:
            _fd_paths.pop(super().fileno(), None)
        except (OSError, ValueError):
            pass
        if not w.dying:
            try:
                w.io("close", self._sim_path)
            except OSError as e:
                err = e
        super().close()
        if err is not None:
            raise err

    def fileno(self):
        f = sys._getframe(1)
        if f.f_globals.get("__name__", "").startswith("PIL"):
            raise io.UnsupportedOperation("fileno")
        return super().fileno()


class SimBufferedWriter(io.BufferedWriter):
    def fileno(self):
        if sys._getframe(1).f_globals.get("__name__", "").startswith("PIL"):
            raise io.UnsupportedOperation("fileno")
        return super().fileno()


class SimBufferedRandom(io.BufferedRandom):
    def fileno(self):
        if sys._getframe(1).f_globals.get("__name__", "").startswith("PIL"):
            raise io.UnsupportedOperation("fileno")
        return super().fileno()


def sim_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    path = _sim_path(file) if not isinstance(file, bool) else None
    if path is None:
        return R.open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    if not isinstance(mode, str):
        raise TypeError("open() argument 'mode' must be str")
    modes = set(mode)
    if modes - set("axrwb+tU") or len(mode) > len(modes):
        raise ValueError("invalid mode: %r" % mode)
    creating, reading, writing, appending = "x" in modes, "r" in modes, "w" in modes, "a" in modes
    updating, text, binary = "+" in modes, "t" in modes, "b" in modes
    if text and binary:
        raise ValueError("can't have text and binary mode at once")
    if creating + reading + writing + appending != 1:
        raise ValueError("must have exactly one of create/read/write/append mode")
    if binary and (encoding is not None or errors is not None or newline is not None):
        raise ValueError("binary mode takes no encoding/errors/newline")
    w = WORLD
    rawmode = (creating and "x" or "") + (reading and "r" or "") + (writing and "w" or "") + (appending and "a" or "") + \
        (updating and "+" or "")
    raw = SimFileIO(file, rawmode, path, closefd, opener)
    try:
        if buffering == 0:
            if binary:
                return raw
            raise ValueError("can't have unbuffered text I/O")
        line_buffering = buffering == 1 and not binary
        size = buffering if buffering > 1 else w.bufsize
        if updating:
            buf = SimBufferedRandom(raw, size)
        elif creating or writing or appending:
            buf = SimBufferedWriter(raw, size)
        else:
            buf = io.BufferedReader(raw, size)
        if binary:
            return buf
        t = io.TextIOWrapper(buf, w.encoding if encoding in (None, "locale") else encoding, errors, newline, line_buffering)
        t._CHUNK_SIZE = w.chunk
        t.mode = mode
        return t
    except BaseException:
        raw.close()
        raise


def _wrap1(name, kind):
    """os.<name>(path, ...) with one path."""
    real = getattr(os, name)
    setattr(R, name, real)

    def f(path, *a, **k):
        sp = _sim_path(path) if path is not None else None
        if sp is not None and k.get("dir_fd") is None:
            WORLD.io(kind, sp)
        return real(path, *a, **k)
    f.__name__ = name
    setattr(os, name, f)
    return f


def _wrap2(name, kind):
    real = getattr(os, name)
    setattr(R, name, real)

    def f(src, dst, *a, **k):
        sp = _sim_path(dst) or _sim_path(src)
        if sp is not None:
            WORLD.io(kind, sp)
        return real(src, dst, *a, **k)
    f.__name__ = name
    setattr(os, name, f)


def install_fs():
    R.open = builtins.open
    R.getcwd = os.getcwd
    R.os_open, R.os_write, R.os_read, R.os_close = os.open, os.write, os.read, os.close
    R.fsync = os.fsync
    builtins.open = sim_open
    io.open = sim_open
    import tokenize
    tokenize._builtin_open = sim_open
    R.open_code = io.open_code

    def open_code(path):
        if _sim_path(path) is not None:
            return sim_open(path, "rb")
        return R.open_code(path)
    io.open_code = open_code

    def os_open(path, flags, mode=0o777, *, dir_fd=None):
        sp = _sim_path(path)
        if sp is None:
            return R.os_open(path, flags, mode, dir_fd=dir_fd)
        acc = flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT)
        WORLD.io("open_w" if acc else "open_r", sp)
        fd = R.os_open(path, flags, mode, dir_fd=dir_fd)
        _fd_paths[fd] = sp
        return fd
    os.open = os_open

    def os_write(fd, b):
        sp = _sim_path(fd)
        if sp is None:
            return R.os_write(fd, b)
        mv = memoryview(b).cast("B")
        n = len(mv)
        act = WORLD.io("write", sp, n)
        if act is None or n == 0:
            n = R.os_write(fd, mv)
            _stamp(fd)
            return n
        kind, k = act
        if kind == "short":
            k = max(1, k % n) if n > 1 else 1
            n = R.os_write(fd, mv[:k])
            _stamp(fd)
            return n
        k = k % (n + 1) if kind == "torn" else k % n
        if k:
            R.os_write(fd, mv[:k])
        if kind == "torn":
            WORLD.die()
        raise mkerr("ENOSPC", sp)
    os.write = os_write

    def os_read(fd, n):
        sp = _sim_path(fd)
        if sp is not None:
            act = WORLD.io("read", sp, n)
            if act is not None and act[0] == "short" and n > 1:
                n = 1 + act[1] % (n - 1)
        return R.os_read(fd, n)
    os.read = os_read

    def os_close(fd):
        sp = _fd_paths.pop(fd, None) if isinstance(fd, int) else None
        if sp is not None and WORLD is not None and not WORLD.dying:
            try:
                WORLD.io("close", sp)
            except OSError:
                R.os_close(fd)
                raise
        return R.os_close(fd)
    os.close = os_close

    def fsync(fd):
        n = fd if isinstance(fd, int) else fd.fileno()
        sp = _fd_paths.get(n)
        if WORLD is not None and WORLD.root is not None:
            if sp is None:
                try:
                    link = R.readlink("/proc/self/fd/%d" % n)
                except OSError:
                    link = ""
                if link.startswith(WORLD.root + "/"):
                    sp = link
            if sp is not None:
                WORLD.io("fsync", sp)
                return None
        return R.fsync(n)
    R.readlink = os.readlink
    os.fsync = fsync
    os.fdatasync = fsync
    for n, k in (("mkdir", "mkdir"), ("rmdir", "rmdir"), ("unlink", "unlink"), ("remove", "unlink"), ("stat", "stat"),
                 ("lstat", "stat"), ("listdir", "listdir"), ("scandir", "listdir"), ("truncate", "truncate"),
                 ("utime", "utime"), ("chmod", "chmod"), ("access", "stat")):
        _wrap1(n, k)
    wrapped_utime = os.utime

    def utime(path, times=None, *, ns=None, **k):
        if times is None and ns is None and WORLD is not None and WORLD.sim_clock and (isinstance(path, int) or _sim_path(path) is not None):
            times = (WORLD.mono + WORLD.wall_off,) * 2
        return wrapped_utime(path, times, **k) if ns is None else wrapped_utime(path, ns=ns, **k)
    os.utime = utime
    for n, k in (("replace", "rename"), ("rename", "rename"), ("link", "link"), ("symlink", "link")):
        _wrap2(n, k)
    import shutil
    shutil._USE_CP_SENDFILE = False
    # importlib reads sources with its private posix/_io modules: route scratch files through the seam, and keep the
    # scheduler out while importlib holds its own (real) module locks.
    import importlib._bootstrap_external as be
    import importlib._bootstrap as ib
    real_get_data = be.FileLoader.get_data

    def get_data(self, path):
        if _sim_path(path) is not None:
            with sim_open(str(path), "rb") as f:
                return f.read()
        return real_get_data(self, path)
    be.FileLoader.get_data = get_data

    def guard(cls, name):
        real = getattr(cls, name)

        def f(*a, **k):
            w = WORLD
            if w is None:
                return real(*a, **k)
            w.enter_atomic()
            try:
                return real(*a, **k)
            finally:
                w.exit_atomic()
        setattr(cls, name, f)
    guard(be.FileLoader, "load_module")
    guard(ib, "_load")
    guard(ib, "_exec")


# --------------------------------------------------------------------------------------------------
# Clocks

def install_time():
    R.time, R.sleep, R.monotonic, R.perf_counter = time.time, time.sleep, time.monotonic, time.perf_counter
    for n in ("time", "monotonic", "perf_counter", "process_time", "thread_time"):
        real = getattr(time, n)
        real_ns = getattr(time, n + "_ns")
        wall = n == "time"
        cpu = n in ("process_time", "thread_time")

        def f(real=real, wall=wall, cpu=cpu):
            w = WORLD
            if w is None or not w.sim_clock:
                return real()
            return w.now_cpu() if cpu else w.now_wall() if wall else w.now_mono()

        def f_ns(real=real_ns, wall=wall, cpu=cpu):
            w = WORLD
            if w is None or not w.sim_clock:
                return real()
            return int(round((w.now_cpu() if cpu else w.now_wall() if wall else w.now_mono()) * 1e9))
        setattr(time, n, f)
        setattr(time, n + "_ns", f_ns)

    def on():
        return WORLD is not None and WORLD.sim_clock
    for n in ("localtime", "gmtime", "ctime"):
        def f(secs=None, real=getattr(time, n)):
            return real(WORLD.now_wall() if secs is None and on() else secs)
        setattr(time, n, f)
    R.strftime, R.asctime, R.clock_gettime, R.clock_gettime_ns = time.strftime, time.asctime, time.clock_gettime, time.clock_gettime_ns
    time.strftime = lambda fmt, t=None: R.strftime(fmt, time.localtime() if t is None else t)
    time.asctime = lambda t=None: R.asctime(time.localtime() if t is None else t)
    CPU = (time.CLOCK_PROCESS_CPUTIME_ID, time.CLOCK_THREAD_CPUTIME_ID)

    def clock_gettime(c):
        if not on():
            return R.clock_gettime(c)
        return WORLD.now_cpu() if c in CPU else WORLD.now_wall() if c == time.CLOCK_REALTIME else WORLD.now_mono()
    time.clock_gettime = clock_gettime
    time.clock_gettime_ns = lambda c: int(round(clock_gettime(c) * 1e9)) if on() else R.clock_gettime_ns(c)

    def sleep(s):
        w = WORLD
        if w is None or not w.sim_clock:
            return R.sleep(s)
        if s < 0:
            raise ValueError("sleep length must be non-negative")
        w.sleep(float(s))
    time.sleep = sleep


def install_datetime():
    import datetime as dtm
    real = dtm.datetime

    class SimDateTime(real):
        @classmethod
        def now(cls, tz=None):
            w = WORLD
            if w is None or not w.sim_clock:
                return real.now(tz)
            return real.fromtimestamp(w.now_wall(), tz)

        @classmethod
        def utcnow(cls):
            w = WORLD
            if w is None or not w.sim_clock:
                return real.utcnow()
            return real.utcfromtimestamp(w.now_wall())

        @classmethod
        def today(cls):
            return cls.now()
    dtm.datetime = SimDateTime
    real_date = dtm.date

    class SimDate(real_date):
        @classmethod
        def today(cls):
            w = WORLD
            if w is None or not w.sim_clock:
                return real_date.today()
            return real_date.fromtimestamp(w.now_wall())
    dtm.date = SimDate


# --------------------------------------------------------------------------------------------------
# Locks created by the code under test: cooperative while a scheduler is active

class SimLock:
    _reentrant = False

    def __init__(self):
        self._owner = None
        self._count = 0
        self._real = R.Lock()

    def acquire(self, blocking=True, timeout=-1):
        w = WORLD
        me = threading.get_ident()
        if self._reentrant and self._owner == me:
            self._count += 1
            return True
        if w is None or not w.cooperative:
            ok = self._real.acquire(blocking, timeout)
        else:
            w.yield_point("lock")
            ok = self._real.acquire(False)
            end = None if timeout is None or timeout < 0 else w.now_mono() + timeout
            while not ok and blocking and (end is None or w.now_mono() < end):
                w.block_yield("lock")
                ok = self._real.acquire(False)
        if ok:
            self._owner = me
            self._count = 1
        return ok

    def release(self):
        if self._reentrant:
            if self._owner != threading.get_ident():
                raise RuntimeError("cannot release un-acquired lock")
            self._count -= 1
            if self._count:
                return
        self._owner = None
        self._real.release()

    def locked(self):
        return self._real.locked()

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()

    # threading.Condition support
    def _is_owned(self):
        return self._owner == threading.get_ident()


class SimRLock(SimLock):
    _reentrant = True


def install_locks():
    R.Lock, R.RLock = threading.Lock, threading.RLock

    def mk(real, sim):
        def factory(*a, **k):
            name = sys._getframe(1).f_globals.get("__name__", "")
            if name.split(".")[0] in ("sureal",):
                return sim()
            return real(*a, **k)
        return factory
    threading.Lock = mk(R.Lock, SimLock)
    threading.RLock = mk(R.RLock, SimRLock)
    import fcntl
    R.flock, R.lockf = fcntl.flock, fcntl.lockf

    def coop(real):
        def f(fd, op, *a):
            w = WORLD
            if w is None or not w.cooperative or op & (fcntl.LOCK_NB | fcntl.LOCK_UN):
                return real(fd, op, *a)
            while True:
                try:
                    return real(fd, op | fcntl.LOCK_NB, *a)
                except (BlockingIOError, PermissionError):
                    w.block_yield("flock")
        return f
    fcntl.flock = coop(R.flock)
    fcntl.lockf = coop(R.lockf)


# --------------------------------------------------------------------------------------------------
# Entropy

def install_entropy():
    R.urandom = os.urandom

    def urandom(n):
        w = WORLD
        if w is None or w.entropy is None:
            return R.urandom(n)
        return w.entropy.randbytes(n)
    os.urandom = urandom
    import random
    random._urandom = urandom
    import uuid
    R.uuid1 = uuid.uuid1

    def uuid1(*a, **k):
        if WORLD is None or WORLD.entropy is None:
            return R.uuid1(*a, **k)
        return uuid.uuid4()
    uuid.uuid1 = uuid1
    # getpid stays real (unique per node) but replay-stable numbers are given to the code under test
    R.getpid = os.getpid

    def getpid():
        w = WORLD
        if w is None or w.pid is None:
            return R.getpid()
        return w.pid
    os.getpid = getpid


def install_early():
    install_fs()
    install_time()
    install_locks()
    install_entropy()


class _TempNames:
    def __iter__(self):
        return self

    def __next__(self):
        return "".join(WORLD.entropy.choice("abcdefghijklmnopqrstuvwxyz0123456789_") for _ in range(8))


def use_sim_tempnames():
    import tempfile
    tempfile._name_sequence = _TempNames()
    tempfile._get_candidate_names = lambda: tempfile._name_sequence
    tempfile.tempdir = os.path.join(WORLD.root, "tmp")

"""Controller of a multi-process simulated run.  Nodes are forked processes; exactly one runs at a time, from one granted
I/O step to the next.  A crash is the real death of the node's process at the granted step, so only what it handed to the
(scratch) file system survives."""
import ctypes
import json
import os
import random
import select
import signal
import stat
import sys
import traceback

from . import seams
from .seams import R
from .world import NodeWorld, Decider, Hang, SimAbort

MAX_STEPS = 60000
_libc = ctypes.CDLL(None)


class NodeError(Exception):
    pass


class _Node:
    def __init__(self, name):
        self.name = name
        self.pid = self.r = self.w = None
        self.buf = b""
        self.state = "new"
        self.io = 0
        self.pending = None
        self.result = None
        self.tsw = []


class Cluster:
    """Runs phases of nodes.  decider: node-level decisions.  observer(step): invariant callback, returns a violation or
    None.  node_cfg(name) -> dict for NodeWorld (seed, decider for threads...)."""

    def __init__(self, root, decider, world_kw, observer=None, tswitches=None, tcfg=None, seed=0, wall_limit=240):
        self.root = root
        self.decider = decider
        self.world_kw = world_kw
        self.observer = observer
        self.log = []
        self.events = []
        self.steps = 0
        self.dead = set()
        self.tsw_rec = {}
        self.tswitches = tswitches
        self.tcfg = tcfg or {}
        self.seed = seed
        self.violation = None
        self.faulted = {}     # node -> list of fault kinds that fired in it
        self.hang = None
        self.wall_limit = wall_limit
        self.npid = 100
        self.iokinds = {}
        self.wall_add = 0.0   # how far the wall clock has moved since the first phase
        self.encoding = "utf-8"
        self.unsynced = {}    # inode -> content that would survive a loss of power

    def _spawn(self, name, fn):
        n = _Node(name)
        pr, cw = os.pipe()
        cr, pw = os.pipe()
        self.npid += 1
        npid = self.npid
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                R.os_close(pr)
                R.os_close(pw)
                _libc.prctl(1, signal.SIGKILL)
                tdec = Decider("%s/threads/%s" % (self.seed, name), self.tcfg,
                               None if self.tswitches is None else dict(switches=self.tswitches.get(name, []), faults=[]))
                w = NodeWorld(cr, cw, root=self.root, decider=tdec, seed="%s/%s" % (self.seed, name), pid=npid,
                              **self.world_kw)
                w.wall_off += self.wall_add
                w.stamp = True
                w.encoding = self.encoding
                seams.set_world(w)
                seams.use_sim_tempnames()
                w.grant(dict(t="start"))
                res = fn(w)
                w._send(dict(t="done", r=res, lines=w.line_total, tsw=w.switch_count, slept=w.slept, sw=tdec.switches[w._sent_sw:]))
            except (KeyboardInterrupt, SimAbort, BaseException) as e:
                try:
                    w._send(dict(t="err", tb=traceback.format_exc()))
                except BaseException:
                    pass
                code = 3
            os._exit(code)
        R.os_close(cr)
        R.os_close(cw)
        n.pid, n.r, n.w = pid, pr, pw
        return n

    def _read(self, n):
        """Next blocking message of node n, or None at EOF; events are recorded on the way."""
        while True:
            while b"\n" not in n.buf:
                rl, _, _ = select.select([n.r], [], [], self.wall_limit)
                if not rl:
                    raise Hang("node %s silent" % n.name)
                d = R.os_read(n.r, 1 << 16)
                if not d:
                    return None
                n.buf += d
            line, n.buf = n.buf.split(b"\n", 1)
            m = json.loads(line)
            if m["t"] == "ev":
                ev = dict(m["e"], node=n.name, at=len(self.log))
                self.events.append(ev)
                self.log.append(("ev", n.name, m["e"]))
                continue
            return m

    def _absorb(self, n):
        m = self._read(n)
        if m is not None and m.get("sw"):
            n.tsw += m["sw"]
            self.tsw_rec[n.name] = n.tsw
        if m is None:
            n.state = "dead"
            self.dead.add(n.name)
            self.log.append(("dead", n.name))
            os.waitpid(n.pid, 0)
            R.os_close(n.r)
            R.os_close(n.w)
        elif m["t"] == "done":
            n.state = "done"
            n.result = m["r"]
            n.lines = m["lines"]
            os.waitpid(n.pid, 0)
            R.os_close(n.r)
            R.os_close(n.w)
            self.log.append(("done", n.name))
        elif m["t"] == "err":
            if "sim.world.Hang: " in m["tb"]:
                raise Hang("node %s: %s" % (n.name, m["tb"].rstrip().rsplit("sim.world.Hang: ", 1)[1][:300]))
            raise NodeError("node %s: %s" % (n.name, m["tb"]))
        else:
            n.state = "wait"
            n.pending = m

    # -- what a loss of power leaves ---------------------------------------------------------------

    def _content(self, rel):
        try:
            p = os.path.join(self.root, rel)
            st = os.lstat(p)
            if not stat.S_ISREG(st.st_mode):
                p = os.path.realpath(p)
                st = os.stat(p)
            if not stat.S_ISREG(st.st_mode) or not p.startswith(os.path.realpath(self.root)):
                return None, None
            with R.open(p, "rb") as f:
                return st.st_ino, f.read()
        except OSError:
            return None, None

    def _before_step(self, kind, rel):
        if kind in ("write", "truncate", "open_w"):
            ino, data = self._content(rel)
            if ino is not None:
                self.unsynced.setdefault(ino, data)
            return ino

    def _after_step(self, kind, rel, before, ok):
        if kind == "open_w" and before is None:
            ino, data = self._content(rel)
            if ino is not None:
                self.unsynced.setdefault(ino, b"")
        elif kind == "fsync" and ok:
            ino, data = self._content(rel)
            self.unsynced.pop(ino, None)

    def lose_power(self, tag):
        """Names survive, data only as far as they were fsynced (or happened to be written back)."""
        rng = random.Random("power/%s" % tag)
        lost = []
        for dp, dn, fn in os.walk(self.root):
            dn.sort()
            for f in sorted(fn):
                rel = os.path.relpath(os.path.join(dp, f), self.root)
                ino, now = self._content(rel)
                if ino not in self.unsynced or os.path.islink(os.path.join(dp, f)):
                    continue
                durable = self.unsynced[ino]
                how = rng.choice(["durable", "durable", "prefix", "zeros", "all"])
                data = dict(durable=durable, prefix=now[:rng.randint(0, len(now))], zeros=b"\0" * len(now), all=now)[how]
                if data != now:
                    with R.open(os.path.join(dp, f), "r+b") as out:
                        out.truncate(0)
                        out.write(data)
                    lost.append(rel)
        self.unsynced.clear()
        self.log.append(("power", str(tag), lost))
        self.events.append(dict(ev="power", lost=lost, at=len(self.log)))

    def phase(self, fns):
        """fns: list of (name, callable(world)->json).  Returns {name: (state, result)}."""
        nodes = {}
        try:
            for name, fn in fns:
                nodes[name] = self._spawn(name, fn)
            for n in nodes.values():
                self._absorb(n)
            cur = None
            while True:
                ready = sorted(n.name for n in nodes.values() if n.state == "wait")
                if not ready:
                    break
                self.steps += 1
                if self.steps > MAX_STEPS:
                    self.hang = "no progress after %d steps" % MAX_STEPS
                    break
                forced = cur is not None and nodes[cur].state == "wait" and nodes[cur].pending["t"] == "block"
                c = cur if cur is not None and nodes[cur].state == "wait" else None
                nm = self.decider.pick(c, ready, self.decider.cfg.get("p_switch_io", 0.3), forced)
                cur = nm
                n = nodes[nm]
                m = n.pending
                rep = {}
                if m["t"] == "io":
                    kind = m["k"]
                    if m["p"].startswith("stdout") and kind == "write":
                        kind = "stdout"
                    self.iokinds[kind] = self.iokinds.get(kind, 0) + 1
                    f = self.decider.fault(nm + "/" + m["a"], m["i"], kind)
                    self.log.append(("io", nm, m["a"], m["k"], m["p"], m.get("n"), f))
                    if f is not None:
                        rep["f"] = list(f)
                        self.faulted.setdefault(nm, []).append((f[0], m["k"], m["p"]))
                        self.events.append(dict(ev="fault", node=nm, kind=f[0], io=m["k"], path=m["p"], op=m.get("a"),
                                                at=len(self.log)))
                if rep.get("f") and rep["f"][0] == "power":
                    for x in nodes.values():
                        if x.state == "wait":
                            os.kill(x.pid, signal.SIGKILL)
                            self._absorb(x)
                    self.lose_power(rep["f"][1])
                else:
                    before = self._before_step(m["k"], m["p"]) if m["t"] == "io" else None
                    b = (json.dumps(rep) + "\n").encode()
                    try:
                        R.os_write(n.w, b)
                    except BrokenPipeError:
                        pass
                    self._absorb(n)
                    if m["t"] == "io":
                        self._after_step(m["k"], m["p"], before, not rep)
                if self.observer is not None and self.violation is None:
                    v = self.observer(self)
                    if v:
                        self.violation = v
                        self.log.append(("observed", v))
        finally:
            for n in nodes.values():
                if n.state not in ("done", "dead"):
                    try:
                        os.kill(n.pid, signal.SIGKILL)
                        os.waitpid(n.pid, 0)
                    except OSError:
                        pass
        return {k: (n.state, n.result) for k, n in nodes.items()}

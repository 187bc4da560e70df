"""Launches: a pool of interpreters that differ in what a launch may differ in (string-hash seed, environment), each forking one
child per request.  The child gets its own time, time zone, process id, working directory, entropy and environment, runs one
operation of the code under test, and sends back everything it printed and wrote."""
import base64
import json
import os
import signal
import socket
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HASHSEEDS = ["0", "1", "2", "3", "17", "99", "12345", "4294967295"]


class Pool:
    def __init__(self, prop_id):
        from .seams import R
        self.dir = "/dev/shm/vsim-%s-z%d" % (prop_id, R.getpid())
        os.makedirs(self.dir, exist_ok=True)
        self.procs = []
        for i, h in enumerate(HASHSEEDS):
            e = dict(os.environ, PYTHONHASHSEED=h, VSIM_ZYGOTE="1")
            self.procs.append(R.Popen([sys.executable, "-u", os.path.abspath(__file__), prop_id, self.sock(i), HERE], env=e, cwd="/",
                                      stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL))
        end = R.monotonic() + 300
        for i in range(len(HASHSEEDS)):
            while not os.path.exists(self.sock(i)):
                if R.monotonic() > end or self.procs[i].poll() is not None:
                    raise RuntimeError("interpreter %d did not start" % i)
                R.sleep(.02)

    def sock(self, i):
        return "%s/%d.sock" % (self.dir, i)

    def ask(self, i, req, wall=35):
        s = socket.socket(socket.AF_UNIX)
        s.settimeout(wall)
        s.connect(self.sock(i))
        s.sendall((json.dumps(req) + "\n").encode())
        buf = b""
        while True:
            d = s.recv(1 << 20)
            if not d:
                break
            buf += d
        s.close()
        if not buf:
            return None
        return json.loads(buf)

    def stop(self):
        import shutil
        for p in self.procs:
            p.kill()
            p.wait()
        shutil.rmtree(self.dir, ignore_errors=True)


def serve(prop_id, path, here):
    sys.path.insert(0, here)
    sys.dont_write_bytecode = True
    sys.pycache_prefix = "/nonexistent/vsim-no-pyc"
    from sim import runner
    runner.die_with_parent()
    from sim import boot
    prop = boot.boot(prop_id)
    signal.signal(signal.SIGCHLD, signal.SIG_IGN)
    s = socket.socket(socket.AF_UNIX)
    s.bind(path + ".tmp")
    s.listen(64)
    os.rename(path + ".tmp", path)
    while True:
        c, _ = s.accept()
        if os.fork() == 0:
            try:
                s.close()
                signal.signal(signal.SIGCHLD, signal.SIG_DFL)
                runner.die_with_parent()
                signal.alarm(30)                     # a computation that takes this long is not what C11 is about
                f = c.makefile("rb")
                req = json.loads(f.readline())
                try:
                    rep = prop.launched(req)
                except BaseException:
                    import traceback
                    rep = dict(error=traceback.format_exc())
                c.sendall(json.dumps(rep).encode())
                c.close()
            finally:
                os._exit(0)
        c.close()


def collect(root):
    from .seams import R
    out = {}
    for d, _, fs in os.walk(root):
        for n in fs:
            p = os.path.join(d, n)
            with R.open(p, "rb") as f:
                out[os.path.relpath(p, root)] = base64.b64encode(f.read()).decode()
    return out


if __name__ == "__main__":
    serve(*sys.argv[1:])

"""References from an interpreter of their own: a server process with another string-hash seed, which computes each reference in
a forked child that has run nothing before.  python -m sim.refserver PROP SOCKET"""
import os
import pickle
import socket
import subprocess
import sys

HASHSEED = "977"
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
_conn = {}


def _send(s, obj):
    b = pickle.dumps(obj)
    s.sendall(len(b).to_bytes(8, "big") + b)


def _recv(s):
    def get(n):
        buf = bytearray()
        while len(buf) < n:
            d = s.recv(min(n - len(buf), 1 << 20))
            if not d:
                raise EOFError
            buf += d
        return bytes(buf)
    return pickle.loads(get(int.from_bytes(get(8), "big")))


def start(prop_id, path):
    """Returns the server process once it listens."""
    from .runner import die_with_parent
    env = dict(os.environ, PYTHONHASHSEED=HASHSEED)
    p = subprocess.Popen([sys.executable, "-c", "import sys; sys.path.insert(0, %r); sys.dont_write_bytecode = True; "
                          "sys.pycache_prefix = '/nonexistent/vsim-no-pyc'; from sim import refserver; refserver.serve(%r, %r)"
                          % (HERE, prop_id, path)], env=env, stdin=subprocess.PIPE, stdout=subprocess.PIPE)
    line = p.stdout.readline()
    if line != b"ready\n":
        p.kill()
        p.wait()
        raise RuntimeError("reference server did not start: %r" % line)
    return p


def stop(p):
    p.kill()
    p.wait()
    p.stdin.close()
    p.stdout.close()


def ask(path, root, sc, keys):
    """{key: ("ok", value) | ("exc", text)}"""
    me = os.getpid()
    for _ in range(2):
        try:
            if me not in _conn:
                s = socket.socket(socket.AF_UNIX)
                s.connect(path)
                _conn.clear()
                _conn[me] = s
            _send(_conn[me], (root, sc, keys))
            return _recv(_conn[me])
        except (OSError, EOFError):
            _conn.pop(me, None)
    return {k: ("exc", "reference server gone") for k in keys}


def serve(prop_id, path):
    from . import boot
    prop = boot.boot(prop_id)
    from . import runner
    runner.die_with_parent()
    ls = socket.socket(socket.AF_UNIX)
    ls.bind(path)
    ls.listen(64)
    runner.R.os_write(1, b"ready\n")
    import signal
    signal.signal(signal.SIGCHLD, signal.SIG_IGN)
    while True:
        s, _ = ls.accept()
        if os.fork() == 0:
            signal.signal(signal.SIGCHLD, signal.SIG_DFL)
            runner.die_with_parent()
            ls.close()
            while True:
                try:
                    root, sc, keys = _recv(s)
                except (EOFError, OSError):
                    os._exit(0)
                prop.ROOT = root
                out = {}
                for k, fn in prop.refs(sc).items():
                    if k in keys:
                        try:
                            out[k] = ("ok", runner.in_child(fn))
                        except runner.ChildDied as e:
                            out[k] = ("exc", str(e))
                _send(s, out)
        s.close()

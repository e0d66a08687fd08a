"""Other processes of the simulated deployment.

A server is a process started with its own environment (another string-hash
seed, or without numba) that imports einsteinpy once and then answers each
request from a fresh fork of that state, over a socket in the scratch
directory."""
import importlib
import os
import pickle
import signal
import socket
import struct
import subprocess
import sys
import time
import traceback

from . import boot

VERIF = boot.VERIF


def _recv(c):
    h = b""
    while len(h) < 8:
        b = c.recv(8 - len(h))
        if not b:
            return None
        h += b
    n = struct.unpack("<Q", h)[0]
    out = bytearray()
    while len(out) < n:
        b = c.recv(min(1 << 20, n - len(out)))
        if not b:
            return None
        out += b
    return bytes(out)


def _send(c, b):
    c.sendall(struct.pack("<Q", len(b)) + b)


def main(path, mode):
    sys.path.insert(0, VERIF)
    bare = mode.startswith("bare ")   # einsteinpy itself not imported yet
    mode = mode.replace("bare ", "")
    if mode == "broken-numba":
        class Broken:
            def find_spec(self, name, p=None, target=None):
                if name == "numba":
                    raise ImportError("simulated: llvmlite is missing a shared library")
        sys.meta_path.insert(0, Broken())
        boot.prepare(plotting=True, numba=None, package=not bare)
    else:
        boot.prepare(plotting=True, numba=mode != "no-numba", package=not bare)
    if mode == "numba" and not bare:
        boot.warm_numba()
    signal.signal(signal.SIGCHLD, signal.SIG_IGN)
    s = socket.socket(socket.AF_UNIX)
    s.bind(path + ".tmp")
    s.listen(64)
    os.rename(path + ".tmp", path)
    parent = os.getppid()
    s.settimeout(5)
    while True:
        try:
            c, _ = s.accept()
        except TimeoutError:
            if os.getppid() != parent:
                return
            continue
        c.settimeout(None)
        pid = os.fork()
        if pid:
            c.close()
            continue
        signal.signal(signal.SIGCHLD, signal.SIG_DFL)
        try:
            s.close()
            signal.alarm(120)
            req = pickle.loads(_recv(c))
            try:
                f = getattr(importlib.import_module(req[0]), req[1])
                ans = pickle.dumps(("ok", f(*req[2])))
            except BaseException:
                ans = pickle.dumps(("err", traceback.format_exc()))
            _send(c, ans)
        except BaseException:
            pass
        os._exit(0)


class Server:
    def __init__(self, tmp, name, hashseed, mode="numba"):
        self.path = os.path.join(tmp, "s-" + name)
        self.log = os.path.join(tmp, "log-" + name)
        env = boot.pinned_env(hashseed, {"VERIF_SCRATCH": tmp})
        if "MPLCONFIGDIR" in os.environ:
            env["MPLCONFIGDIR"] = os.environ["MPLCONFIGDIR"]
        with open(self.log, "wb") as f:
            self.p = subprocess.Popen([boot.PY, "-s", "-c",
                                       "import sys; sys.path.insert(0, %r); from sim import serve; serve.main(%r, %r)" % (
                                           VERIF, self.path, mode)],
                                      env=env, cwd=tmp, stdout=f, stderr=f, stdin=subprocess.DEVNULL)

    def ready(self, timeout=180):
        t = time.monotonic() + timeout
        while not os.path.exists(self.path):
            if self.p.poll() is not None or time.monotonic() > t:
                raise RuntimeError("server failed: " + open(self.log, errors="replace").read()[-3000:])
            time.sleep(0.05)
        return self

    def ask(self, module, fn, *args):
        c = socket.socket(socket.AF_UNIX)
        c.settimeout(150)
        try:
            for k in range(20):
                try:
                    c.connect(self.path)
                    break
                except (BlockingIOError, InterruptedError):
                    time.sleep(0.05)
            _send(c, pickle.dumps((module, fn, args)))
            b = _recv(c)
        finally:
            c.close()
        if b is None:
            raise RuntimeError("server died on %s.%s" % (module, fn))
        v = pickle.loads(b)
        if v[0] == "err":
            raise RuntimeError("server: " + v[1])
        return v[1]

    def terminate(self):
        self.p.terminate()

    def wait(self, t):
        try:
            self.p.wait(t)
        except subprocess.TimeoutExpired:
            self.p.kill()
            self.p.wait()

"""Crash points: the process is started with a library that interposes file-system calls (fault.c)."""
import ctypes
import hashlib
import os
import signal
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
_lib = None
DIE, TEAR, STOP, NOSPACE = 0, 1, 2, 3


def ensure():
    """Re-executes this program with the library preloaded (call before anything is set up)."""
    global _lib
    src = os.path.join(HERE, "fault.c")
    with open(src, "rb") as f:
        tag = hashlib.sha1(f.read()).hexdigest()[:12]
    so = os.path.join(ROOT, "build", f"fault-{tag}.so")
    if os.environ.get("LD_PRELOAD") != so:
        if not os.path.exists(so):
            os.makedirs(os.path.dirname(so), exist_ok=True)
            tmp = f"{so}.{os.getpid()}"
            subprocess.run(["gcc", "-O1", "-w", "-shared", "-fPIC", "-o", tmp, src, "-ldl"], check=True)
            os.replace(tmp, so)
        from mc import env

        if env._scratch:
            env._cleanup(env._scratch, env._scratch_pid)
        os.environ["LD_PRELOAD"] = so
        os.execv(sys.executable, [sys.executable, "-B"] + sys.argv)
    _lib = ctypes.CDLL(so)
    _lib.fault_arm.argtypes = [ctypes.c_char_p, ctypes.c_long, ctypes.c_int]
    _lib.fault_count.restype = ctypes.c_long


def arm(prefix, n, mode):
    _lib.fault_arm(str(prefix).encode(), n, mode)


def disarm():
    _lib.fault_disarm()


def count():
    return _lib.fault_count()


def child(fn, prefix, n, mode):
    """Run fn() in a forked child that dies at the n-th file-system operation below prefix.

    Returns (exit status or signal, operations executed or None): 137 = died at the crash point, 0 = ran to its end,
    1 = fn raised"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            arm(prefix, n, mode)
            try:
                fn()
                code = 0
            except BaseException as e:  # noqa: BLE001
                disarm()
                os.write(w, b"E" + repr(e).encode()[:2000])
            c = count()
            disarm()
            if code == 0:
                os.write(w, b"N%d" % c)
        finally:
            os._exit(code)
    os.close(w)
    data = b""
    while True:
        b = os.read(r, 65536)
        if not b:
            break
        data += b
    os.close(r)
    _, st = os.waitpid(pid, 0)
    code = os.WEXITSTATUS(st) if os.WIFEXITED(st) else -os.WTERMSIG(st)
    return code, data.decode(errors="replace")


class Stoppable:
    """A forked child running fn() that stops itself before its n-th operation below prefix, until resumed."""

    def __init__(self, fn, prefix, n):
        self.pid = os.fork()
        if self.pid == 0:
            code = 1
            try:
                arm(prefix, n, STOP)
                fn()
                code = 0
            finally:
                os._exit(code)
        _, st = os.waitpid(self.pid, os.WUNTRACED)
        self.stopped = os.WIFSTOPPED(st)
        self.code = None if self.stopped else (os.WEXITSTATUS(st) if os.WIFEXITED(st) else -os.WTERMSIG(st))

    def resume(self):
        if self.stopped:
            os.kill(self.pid, signal.SIGCONT)
            _, st = os.waitpid(self.pid, 0)
            self.code = os.WEXITSTATUS(st) if os.WIFEXITED(st) else -os.WTERMSIG(st)
            self.stopped = False
        return self.code

    def kill(self):
        if self.stopped:
            os.kill(self.pid, signal.SIGKILL)
            os.waitpid(self.pid, 0)
            self.stopped = False
            self.code = -9
        return self.code

"""Builds the chunker extension from /repo's current sources: "plain" as it is, "sched" under a controlled scheduler."""
import ctypes
import glob
import importlib.util
import os
import subprocess
import sysconfig

from mc import env

HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "native")
PATHS = {}


def command(kind, out):
    import pyarrow
    import pybind11

    src = os.path.join(env.REPO, "mixtera", "core", "query", "chunker")
    lib = pyarrow.get_library_dirs()[0]
    pick = lambda n: "-l:" + os.path.basename(sorted(glob.glob(os.path.join(lib, n + ".so*")))[0])  # noqa: E731
    absl = ["-l" + os.path.basename(p)[3:-3] for p in sorted(glob.glob("/usr/lib/x86_64-linux-gnu/libabsl_*.so"))]
    inc = ["-I" + HERE, "-I" + os.path.join(src, "include")]
    for d in (pybind11.get_include(), pyarrow.get_include(), sysconfig.get_paths()["include"]):
        inc += ["-isystem", d]
    cmd = ["g++", "-std=c++20", "-O1", "-fPIC", "-shared", "-fvisibility=hidden", "-w", "-pthread", "-DSPDLOG_FMT_EXTERNAL", "-D_GLIBCXX_ASSERTIONS", *inc]
    srcs = sorted(glob.glob(os.path.join(src, "src", "*.cpp")))
    if kind == "sched":
        skip = ["/c++/", "gthr", "/usr/lib/gcc", "pybind11", "arrow", "spdlog", "fmt", "native/sched", "sched.hpp", "absl/base", "absl/hash", "absl/strings", "absl/types", "absl/meta", "absl/numeric"]
        cmd += ["-DMC_SCHED", "-include", os.path.join(HERE, "sched.hpp"), "-finstrument-functions", "-finstrument-functions-exclude-file-list=" + ",".join(skip)]
        obj = out + ".sched.o"
        pre = ["g++", "-std=c++20", "-O1", "-fPIC", "-w", "-pthread", "-c", os.path.join(HERE, "sched.cpp"), "-o", obj]
        srcs.append(obj)
    else:
        pre = None
    cmd += [*srcs, "-o", out, "-L" + lib, pick("libarrow"), pick("libarrow_python"), "-lspdlog", "-lfmt", *(["-Wl,-Bsymbolic-functions"] if kind == "sched" else []), "-Wl,--as-needed", *absl, "-Wl,-rpath," + lib]
    return pre, cmd


def build(kinds=("plain", "sched")):
    """-> {kind: error text or None}; the modules are at PATHS[kind]"""
    d = env.fresh_dir("native")
    procs = {}
    for k in kinds:
        out = os.path.join(d, k, "chunker_extension.so")
        os.makedirs(os.path.dirname(out))
        pre, cmd = command(k, out)
        if pre:
            subprocess.run(pre, check=True)
        procs[k] = (out, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True))
    res = {}
    for k, (out, p) in procs.items():
        text, _ = p.communicate()
        res[k] = None if p.returncode == 0 else text[-2000:]
        if p.returncode == 0:
            PATHS[k] = out
    return res


def load(kind):
    import pyarrow  # noqa: F401  (its libraries first)

    spec = importlib.util.spec_from_file_location("chunker_extension", PATHS[kind])
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m


class Control:
    def __init__(self):
        self.lib = ctypes.CDLL(PATHS["sched"])
        self.lib.mc_begin.argtypes = [ctypes.c_int, ctypes.POINTER(ctypes.c_int), ctypes.c_int, ctypes.POINTER(ctypes.c_uint64), ctypes.POINTER(ctypes.c_int), ctypes.c_int]
        self.lib.mc_end.argtypes = [ctypes.POINTER(ctypes.c_uint64)]

    def begin(self, fine, prio, preempt):
        n = len(preempt)
        self.lib.mc_begin(int(fine), (ctypes.c_int * len(prio))(*prio), len(prio), (ctypes.c_uint64 * max(n, 1))(*[p for p, _ in preempt] or [0]), (ctypes.c_int * max(n, 1))(*[t for _, t in preempt] or [0]), n)

    def end(self):
        out = (ctypes.c_uint64 * 4)()
        self.lib.mc_end(out)
        n = int(out[0])
        buf = (ctypes.c_uint32 * max(n, 1))()
        self.lib.mc_choices(buf, ctypes.c_uint64(n))
        return {"choices": list(buf)[:n], "points": out[0], "switches": out[1], "flags": out[2], "threads": out[3]}

"""Runs a function in a forked child in which the k-th call that changes a file below a directory fails or kills it."""
import ctypes
import errno
import os
import pickle
import shutil
import subprocess
import sys
import tempfile

COUNT, KILL, ERROR, TORN, SHORT, INTERRUPT, AFTER = range(7)
KINDS = {1: "open", 2: "write", 3: "fsync", 4: "truncate", 5: "rename", 6: "unlink", 7: "mkdir", 8: "link"}
KILLED = 99


def preload():
    """called before the check starts: build the shim and load it into this process by starting it anew"""
    if os.environ.get("VERIF_SHIM"):
        shutil.rmtree(os.path.dirname(os.environ["VERIF_SHIM"]), ignore_errors=True)
        os.environ.pop("LD_PRELOAD", None)
        return
    d = tempfile.mkdtemp(prefix="verif_shim_")
    so = os.path.join(d, "shim.so")
    src = os.path.join(os.path.dirname(os.path.abspath(__file__)), "faultshim.c")
    subprocess.run(["gcc", "-O1", "-shared", "-fPIC", "-w", "-o", so, src, "-ldl"], check=True)
    env = dict(os.environ, LD_PRELOAD=so, VERIF_SHIM=so)
    os.execve(sys.executable, [sys.executable] + sys.argv, env)


_LIB = None


def lib():
    global _LIB
    if _LIB is None:
        _LIB = ctypes.CDLL(None)
        _LIB.shim_arm.argtypes = [ctypes.c_char_p, ctypes.c_int, ctypes.c_int, ctypes.c_long, ctypes.c_int]
    return _LIB


def run(fn, directory, k=-1, mode=COUNT, keep=0, err=errno.ENOSPC):
    """-> (exit status of the child: KILLED or 0, what fn returned or None, [(kind, size), ...])"""
    L = lib()
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 3
        try:
            os.close(r)
            import signal

            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGINT, signal.default_int_handler)
            L.shim_arm(os.fsencode(directory), k, mode, keep, err)
            try:
                out = fn()
            except BaseException as e:  # noqa: BLE001
                out = ("raised", repr(e)[:300])
            L.shim_disarm()
            n = min(ctypes.c_int.in_dll(L, "shim_calls").value, 4096)
            kinds = (ctypes.c_int * 4096).in_dll(L, "shim_kind")
            sizes = (ctypes.c_long * 4096).in_dll(L, "shim_size")
            data = pickle.dumps((out, [(KINDS[kinds[i]], sizes[i]) for i in range(n)]))
            with os.fdopen(w, "wb") as f:
                f.write(data)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    _, st = os.waitpid(pid, 0)
    status = os.waitstatus_to_exitcode(st)
    if status == 0 and data:
        out, log = pickle.loads(data)
        return 0, out, log
    return status, None, []

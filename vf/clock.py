"""A settable wall clock for the whole process (csrc/clockshim.c), whichever way the code under test reads it."""
import ctypes, os, sys
from . import build

_lib = None


def prepare():
    """builds the shim; processes started from here on load it"""
    so = build.shim()
    os.environ["LD_PRELOAD"] = so
    return so


def setup():
    """use the shim in this process (started again with it when it is missing)"""
    global _lib
    if _lib is not None:
        return
    so = build.shim()
    _lib = ctypes.CDLL(so)
    _lib.vf_clock_set.argtypes = [ctypes.c_longlong]
    set(1_000_000_000.0)
    import time
    ok = abs(time.time() - 1_000_000_000) < 1
    real()
    if not ok:
        if os.environ.get("VF_CLOCK") == "again":
            raise RuntimeError("the clock shim cannot be loaded")
        os.environ["VF_CLOCK"] = "again"
        os.environ["LD_PRELOAD"] = so
        sys.stdout.flush()
        os.execv(sys.executable, [sys.executable, "-B"] + sys.argv)


def set(t):
    _lib.vf_clock_set(int(round(t * 1e9)))


def set_ns(ns):
    _lib.vf_clock_set(ns)


def real():
    _lib.vf_clock_set(0)

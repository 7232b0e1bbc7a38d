"""ctypes control of the LD_PRELOAD storage seam (native/shim.c)."""
import ctypes
import errno
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
SRC = os.path.join(HERE, "native", "shim.c")
BUILD = os.path.join(os.path.dirname(HERE), "build")
SO = os.path.join(BUILD, "shim.so")

CLS = {"OPENR": 0, "OPENW": 1, "READ": 2, "MUT": 3, "CLOSE": 4}
ACT = {"once": 1, "sticky": 2, "short": 3, "crash_before": 4, "crash_after": 5, "torn": 6}


def build():
    """Build the shim if it is missing or older than its source."""
    if os.path.exists(SO) and os.path.getmtime(SO) >= os.path.getmtime(SRC):
        return SO
    os.makedirs(BUILD, exist_ok=True)
    tmp = SO + ".%d.tmp" % os.getpid()
    subprocess.run(
        ["gcc", "-O2", "-fPIC", "-shared", "-o", tmp, SRC, "-ldl"],
        check=True, stdout=sys.stderr, stderr=sys.stderr,
    )
    os.replace(tmp, SO)
    return SO


class _LogRec(ctypes.Structure):
    _fields_ = [("op", ctypes.c_uint8), ("fault", ctypes.c_uint8), ("pad", ctypes.c_int16),
                ("fd", ctypes.c_int32), ("a", ctypes.c_int64), ("b", ctypes.c_int64)]


class Shim:
    def __init__(self):
        self.lib = None
        if SO in os.environ.get("LD_PRELOAD", ""):
            lib = ctypes.CDLL(SO)
            lib.dst_reset.argtypes = [ctypes.c_char_p]
            lib.dst_plan.argtypes = [ctypes.c_int, ctypes.c_long, ctypes.c_int, ctypes.c_int]
            lib.dst_count.restype = ctypes.c_long
            lib.dst_nlog.restype = ctypes.c_long
            lib.dst_fired.restype = ctypes.c_long
            lib.dst_sticky_hits.restype = ctypes.c_long
            lib.dst_log.restype = ctypes.POINTER(_LogRec)
            self.lib = lib

    def reset(self, root):
        self.lib.dst_reset(root.encode())

    def relative(self, on):
        self.lib.dst_relative(1 if on else 0)

    def arm(self, on):
        self.lib.dst_arm(1 if on else 0)

    def on_crash(self, fn):
        self._cb = ctypes.CFUNCTYPE(None)(fn)
        self.lib.dst_on_crash(self._cb)

    def plan(self, cls, idx, act, err="EIO"):
        self.lib.dst_plan(CLS[cls], idx, ACT[act], getattr(errno, err))

    def clear_sticky(self):
        self.lib.dst_clear_sticky()

    def counts(self):
        return {k: int(self.lib.dst_count(v)) for k, v in CLS.items()}

    def fired(self):
        return {k: int(self.lib.dst_fired(v)) for k, v in ACT.items()}

    def sticky_hits(self):
        return int(self.lib.dst_sticky_hits())

    def log(self):
        n = int(self.lib.dst_nlog())
        p = self.lib.dst_log()
        return [(p[i].op, p[i].fault, p[i].a, p[i].b) for i in range(n)]

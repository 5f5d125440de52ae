"""Python side of the file-system seam (sim/shim.c)."""

import ctypes
import mmap
import os
import subprocess
import sys

NONE, CRASH, TORN, EIO, FULL, SHORT, STOP, RDERR, RDSHORT, RDOPEN = range(10)
NAMES = {CRASH: "crash_before_file_op", TORN: "crash_torn_write", EIO: "io_error", FULL: "disk_full",
         SHORT: "short_write", STOP: "stalled_process", RDERR: "read_error", RDSHORT: "short_read",
         RDOPEN: "open_error"}


def ensure(root_prefix="oasim-shim-"):
    """Compile the shim and re-execute this process with it preloaded."""
    import tempfile
    from pathlib import Path

    if os.environ.get("OASIM_SHIM"):
        return
    d = tempfile.mkdtemp(prefix=root_prefix)
    so = os.path.join(d, "shim.so")
    src = Path(__file__).with_name("shim.c")
    subprocess.run(["gcc", "-O1", "-shared", "-fPIC", "-o", so, str(src), "-ldl", "-w"], check=True)
    env = dict(os.environ, OASIM_SHIM=so, LD_PRELOAD=so)
    os.execve(sys.executable, [sys.executable, "-m", "sim", *sys.argv[1:]], env)


def cleanup():
    import shutil

    so = os.environ.get("OASIM_SHIM")
    if so:
        shutil.rmtree(os.path.dirname(so), ignore_errors=True)


class Shared(ctypes.Structure):
    _fields_ = [("steps", ctypes.c_long), ("ops", ctypes.c_long), ("reads", ctypes.c_long),
                ("fired", ctypes.c_long), ("kind", ctypes.c_long), ("ropens", ctypes.c_long),
                ("spare", ctypes.c_long * 2),
                ("path", ctypes.c_char * 512), ("log", ctypes.c_char * 4096)]


class Seam:
    """One planned fault in one forked process; readable by the parent afterwards."""

    def __init__(self):
        self.map = mmap.mmap(-1, 8192)
        self.s = Shared.from_buffer(self.map)
        self.lib = ctypes.CDLL(None)

    def arm(self, prefix, mode=NONE, nth=1 << 60, arg=50):
        """Called in the process that shall meet the fault."""
        self.lib.oasim_shared(ctypes.byref(self.s))
        self.lib.oasim_arm(str(prefix).encode(), ctypes.c_long(nth), ctypes.c_int(mode),
                           ctypes.c_long(arg))

    def disarm(self):
        self.lib.oasim_disarm()

    @property
    def fired(self):
        return int(self.s.fired)

    @property
    def kind(self):
        return chr(self.s.kind) if self.s.kind else None

    @property
    def path(self):
        return self.s.path.decode(errors="replace")

    @property
    def ops(self):
        return int(self.s.ops)

    @property
    def reads(self):
        return int(self.s.reads)

    @property
    def ropens(self):
        return int(self.s.ropens)

    @property
    def steps(self):
        return int(self.s.steps)

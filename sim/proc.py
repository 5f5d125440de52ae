"""Run a piece of a simulated run in its own process (fork), as the unit that can die."""

import os
import pickle
import signal
import sys
import traceback

from .core import HarnessError, Violation


class Died(Exception):
    """The process of a task ended without delivering a result."""

    def __init__(self, status):
        self.signal = os.WTERMSIG(status) if os.WIFSIGNALED(status) else None
        self.code = os.WEXITSTATUS(status) if os.WIFEXITED(status) else None
        super().__init__(f"signal={self.signal} code={self.code}")


class Task:
    """fn() in a forked child.  `result()` returns its value, re-raises Violation, returns other
    exceptions as ('raise', type name, text), and raises Died if it was killed."""

    def __init__(self, fn, pre=None):
        self.fd, w = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                os.close(self.fd)
                try:
                    if pre:
                        pre()
                    out = ("ok", fn())
                except Violation as v:
                    out = ("violation", v.kind, v.message, v.info)
                except HarnessError:
                    out = ("harness", traceback.format_exc())
                except Exception as e:  # noqa: BLE001
                    out = ("raise", type(e).__name__, str(e)[:400], traceback.format_exc()[-2500:])
                data = pickle.dumps(out, protocol=4)
                with os.fdopen(w, "wb") as f:
                    f.write(data)
            except BaseException:  # noqa: BLE001
                traceback.print_exc()
                os._exit(7)
            os._exit(0)
        os.close(w)
        self._res = None

    def result(self):
        if self._res is None:
            chunks = []
            while True:
                b = os.read(self.fd, 1 << 20)
                if not b:
                    break
                chunks.append(b)
            os.close(self.fd)
            _, status = os.waitpid(self.pid, 0)
            try:
                self._res = pickle.loads(b"".join(chunks))
            except Exception:  # noqa: BLE001
                self._res = ("died", status)
        r = self._res
        if r[0] == "died":
            raise Died(r[1])
        if r[0] == "violation":
            raise Violation(r[1], r[2], **r[3])
        if r[0] == "harness":
            raise HarnessError(r[1])
        return r


def call(fn, pre=None):
    """Value of fn() computed in a forked child; any exception becomes a Violation."""
    r = Task(fn, pre).result()
    if r[0] == "raise":
        raise Violation(f"exception:{r[1]}", f"unexpected {r[1]}: {r[2]}", traceback=r[3])
    return r[1]


def kill(pid, sig=signal.SIGKILL):
    os.kill(pid, sig)

"""Core of the deterministic simulator: seeded choice, run context, event log, violations.

One integer (the run seed) decides everything a run does.  A run is described by a
JSON-serialisable *spec* which is a pure function of that seed; executing the spec is a
pure function of the spec and of the code in /repo.  No scenario reads a real clock, the
process' hash seed, the directory order of the real file system or any other ambient source.
"""

import hashlib
import json
import random
import struct

import numpy as np


class Violation(Exception):
    """A property violation observed on the real code."""

    def __init__(self, kind, message, **info):
        super().__init__(f"{kind}: {message}")
        self.kind = kind
        self.message = message
        self.info = info


class HarnessError(Exception):
    """The simulator itself is wrong (never reported as a violation)."""


def derive(*parts):
    """Derive a 63-bit child seed from a tuple of parts, independent of PYTHONHASHSEED."""
    h = hashlib.blake2b(json.dumps(parts, sort_keys=True, default=str).encode(), digest_size=8)
    return struct.unpack("<Q", h.digest())[0] >> 1


class Rng(random.Random):
    """The only source of choices in a run."""

    def __init__(self, *parts):
        super().__init__(derive(*parts))

    def chance(self, p):
        return self.random() < p

    def pick(self, seq):
        seq = list(seq)
        return seq[self.randrange(len(seq))]

    def np(self):
        return np.random.Generator(np.random.PCG64(self.getrandbits(63)))

    def subset(self, seq, p=0.5):
        return [x for x in seq if self.random() < p]


class Ctx:
    """Per-run context: event log (hashed), fault counters, coverage states, probes."""

    def __init__(self, scratch, keep_log=False):
        self.scratch = scratch
        self._h = hashlib.blake2b(digest_size=16)
        self.events = 0
        self.log = [] if keep_log else None
        self.faults = {}
        self.states = set()
        self.probes = {}
        self.sim_seconds = 0.0
        self.steps = 0
        self.evaluations = 0
        self._dirs = 0

    def event(self, *what):
        s = json.dumps(what, default=str)
        self._h.update(s.encode())
        self.events += 1
        if self.log is not None:
            self.log.append(s)

    def hash_array(self, tag, arr):
        a = np.ascontiguousarray(arr)
        self._h.update(tag.encode())
        self._h.update(a.tobytes())

    def fault(self, kind, n=1):
        self.faults[kind] = self.faults.get(kind, 0) + n

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + int(n)

    def state(self, *key):
        """Record an abstract state (distinct-state coverage measure)."""
        self.states.add(derive(*key))

    def ok(self, n=1):
        """Count evaluated oracle conditions."""
        self.evaluations += n

    def digest(self):
        return self._h.hexdigest()

    def newdir(self, name="d"):
        self._dirs += 1
        d = self.scratch / f"{name}{self._dirs}"
        d.mkdir(parents=True, exist_ok=True)
        return d

    def result(self):
        return {
            "digest": self.digest(),
            "events": self.events,
            "faults": self.faults,
            "probes": self.probes,
            "states": self.states,
            "sim_seconds": self.sim_seconds,
            "steps": self.steps,
            "evaluations": self.evaluations,
        }


def deep_merge(a, b):
    out = dict(a)
    for k, v in b.items():
        if isinstance(v, dict) and isinstance(out.get(k), dict):
            out[k] = deep_merge(out[k], v)
        else:
            out[k] = v
    return out


def set_path(d, path, value):
    keys = path.split(".")
    for k in keys[:-1]:
        d = d.setdefault(k, {})
    d[keys[-1]] = value


def get_path(d, path, default=None):
    for k in path.split("."):
        if not isinstance(d, dict) or k not in d:
            return default
        d = d[k]
    return d

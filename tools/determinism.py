#!/usr/bin/env python3
"""Prove that one seed is one execution: runs the first N runs of every property with different worker counts and
hash seeds and compares the digest over all observed histories (written to evidence/ by each check)."""

import json
import os
import subprocess
import sys
from pathlib import Path

V = Path(__file__).resolve().parent.parent
n = sys.argv[1] if len(sys.argv) > 1 else "24"
props = sys.argv[2:] or sorted(p.name[:3].upper() for p in (V / "sim/props").glob("p[0-9][0-9]_*.py"))
bad = 0
for p in props:
    got = []
    for j, h in (("8", "0"), ("3", "12345")):
        env = {**os.environ, "PYTHONHASHSEED": h}
        r = subprocess.run([str(V / "bin/check"), p, "quick", "-n", n, "-j", j], env=env, capture_output=True, text=True)
        c = json.loads((V / f"evidence/{p}.json").read_text())["coverage"]
        got.append((r.returncode, c["simulated_runs"], c["search_digest"]))
    ok = got[0] == got[1]
    bad += not ok
    print(p, "same" if ok else "DIFFERENT", got, flush=True)
sys.exit(bad > 0)

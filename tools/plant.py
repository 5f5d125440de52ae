#!/usr/bin/env python3
"""plant.py ID [--check PROP...]: confirm a planted bug in seeded/ID (applied to /repo and undone):
applies, stable tests pass, demo passes without and fails with it; optionally run checks on it."""
import json, subprocess, sys, os
from pathlib import Path
V = Path(__file__).resolve().parent.parent
sid = sys.argv[1]; S = V / "seeded" / sid
checks = sys.argv[3:] if len(sys.argv) > 2 and sys.argv[2] == "--check" else []
notest = os.environ.get("NOTEST")
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, cwd="/repo", **k)
assert not sh("git status --porcelain").stdout.strip(), "repo dirty"
a = None if notest else sh(f"bash {S}/demo.sh")
r = sh(f"git apply {S}/patch.diff")
if r.returncode: print("APPLY FAILED", r.stderr); sys.exit(1)
try:
    if not notest:
        b = sh(f"bash {S}/demo.sh")
        sh("bash /opt/vp/test.sh /tmp/exp/t.json")
        t = json.load(open("/tmp/exp/t.json")); st = json.load(open("/opt/vp/BASELINE.json"))
        miss = sorted(set(st["stable"]) - set(t["passed"]))
        print(f"{sid}: demo clean={a.returncode} patched={b.returncode} [{(b.stdout+b.stderr).strip().splitlines()[-1:]}] tests missing={miss}")
        if a.returncode: print(a.stdout[-800:], a.stderr[-800:])
    for c in checks:
        p = subprocess.run(["bash", "bin/check", c, "quick"], cwd=V, capture_output=True, text=True)
        print(f"{sid}: check {c} rc={p.returncode}", "\n   ".join(p.stdout.strip().splitlines()[-3:]))
finally:
    sh("git checkout -- .")

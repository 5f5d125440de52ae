import argparse
import os
import sys


def main():
    ap = argparse.ArgumentParser(prog="sim")
    sub = ap.add_subparsers(dest="cmd", required=True)
    c = sub.add_parser("check")
    c.add_argument("prop")
    c.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    c.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    c.add_argument("-n", type=int)
    c.add_argument("--cap", type=float)
    c.add_argument("-j", type=int)
    c.add_argument("-v", action="count", default=0)
    r = sub.add_parser("replay")
    r.add_argument("file")
    o = sub.add_parser("one")
    o.add_argument("prop")
    o.add_argument("index", type=int)
    o.add_argument("--tier", default="quick")
    o.add_argument("--seed", type=int, default=1)
    a = ap.parse_args()
    from . import fsfault, runner

    prop = a.prop if a.cmd != "replay" else runner.replay_property(a.file)
    if runner.wants_preload(prop):
        fsfault.ensure()
    try:
        return dispatch(a, runner)
    finally:
        fsfault.cleanup()


def dispatch(a, runner):
    if a.cmd == "check":
        return runner.check(a.prop.upper(), a.tier, a.seed, width=a.j, n=a.n, cap=a.cap,
                            verbose=a.v)
    if a.cmd == "replay":
        return runner.replay(a.file)
    if a.cmd == "one":
        import json
        import shutil
        import tempfile

        scn = runner.load(a.prop)
        spec = runner.spec_for(scn, a.seed, a.index, a.tier)
        print(json.dumps(spec))
        d = tempfile.mkdtemp(prefix="oasim-one-")
        from . import world

        world.quiet()
        setup = getattr(scn, "setup", None)
        if setup:
            from pathlib import Path

            setup(Path(d))
        try:
            res = runner.execute(scn, spec, d, keep_log=True)
        finally:
            shutil.rmtree(d, ignore_errors=True)
        res.pop("states")
        tr = res.pop("trace")
        for line in tr[-30:]:
            print("  ", line)
        tb = res.get("info", {}).pop("traceback", None) if res.get("info") else None
        print(json.dumps(res, default=str, indent=1))
        if tb:
            print(tb)
        return 0


sys.exit(main())

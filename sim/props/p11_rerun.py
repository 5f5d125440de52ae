"""P11: runs are repeatable on what earlier or concurrent runs left behind."""

import os
import signal
import time

from ..common import *  # noqa: F403
from ..common import REAL_MODEL, STUB_WORLD, ASSUME
from .. import common, durable, outputs, proc
from ..fsfault import CRASH, NAMES, NONE, STOP, TORN, Seam

ID = "P11"
PRELOAD = True
LEVEL = "exploration"
N = {"quick": 110, "thorough": 3000}
REAL = REAL_MODEL + ["output managers and sky view factor cache on real files, two OS processes"]
STUB = STUB_WORLD + ["file-system calls: preloaded seam (sim/shim.c) which kills or stalls a process at "
                     "the n-th operation; the two processes are scheduled by stop/continue at it"]
ASSUMPTIONS = ASSUME + [
    "failure model: death or stall of a process (what was handed to the kernel survives)",
    "one process at a time uses a results directory; the grids directory may be shared",
]
RULE = (
    "one evaluation = one output row group / raster / slice or one complete model state compared with "
    "a solo run in fresh directories; distinct = (scenario, formats, config change, fault mode, "
    "operation kind hit, steps done) classes"
)
REQUIRED_PROBES = ("leftovers", "leftovers_other_config", "crash_loop", "svf_crash", "svf_torn",
                   "svf_concurrent", "svf_second_run", "extended_svf", "stalled_mid_write")


def warm(root):
    common.warm(root)


def gen(rng, index, tier):
    if rng.chance(0.5):
        spec = durable.gen_case(rng)
        spec["scenario"] = "leftovers"
        spec["crashes"] = durable.plan(rng, rng.randint(1, 4), ["crash", "torn", "kill", "done"])
        if rng.chance(0.5):  # the next run has another output configuration
            other = durable.gen_case(rng)
            change = rng.pick(["out", "steps", "both"])
            spec["next"] = {}
            if change != "steps":
                t = copy.deepcopy(spec["out"]["timeseries"])
                t["format"] = other["out"]["timeseries"]["format"]
                t["write_freq"] = other["out"]["timeseries"].get("write_freq", "ME")
                t["points"] = t["points"][:1]
                o = {"timeseries": t}
                if "grids" in spec["out"]:
                    g = copy.deepcopy(spec["out"]["grids"])
                    if g["format"] == "netcdf":
                        g["append"] = not g.get("append")
                    o["grids"] = g
                spec["next"]["out"] = o
            if change != "out":
                spec["next"]["steps"] = max(2, spec["time"]["steps"] - rng.randint(1, 5))
        return spec
    spec = gen_world(rng, rows=rng.randint(4, 6), cols=rng.randint(4, 6), steps=2, nan=0, svf="compute",
                     relief=rng.pick([50.0, 400.0, 1200.0]))
    spec["grid"]["roi"] = rng.pick([1.0, 0.6])
    if rng.chance(0.4):
        spec["grid"]["ext"] = rng.pick([1, 2, 5])
    spec["cfg"] = gen_physics_cfg(rng, spec, canopy=False, et=False)
    spec["scenario"] = "svf"
    spec["ops"] = [{"do": rng.pick(["crash", "torn", "torn", "pair", "pair", "plain"]),
                    "frac": round(rng.random(), 4), "arg": rng.pick([0, 1, 30, 50, 90])}
                   for _ in range(rng.randint(1, 4))]
    return spec


def run(spec, ctx):
    (run_leftovers if spec["scenario"] == "leftovers" else run_svf)(spec, ctx)


# ---------------------------------------------------------------- results directory


def run_leftovers(spec, ctx):
    count_faults(ctx, spec)
    c = durable.Case(spec, ctx)
    c.reference(ctx)
    res = c.newresults()
    crashed = 0
    for i, f in enumerate(spec["crashes"]):
        what = f"attempt {i} ({f['mode']})"
        if f["mode"] == "done":
            proc.call(lambda: c.run(res))
            c.complete(res, ctx, what)
            continue
        seam, r = c.victim(f, res, ctx)
        if r is None:
            crashed += 1
            hit = os.path.basename(seam.path)
            if seam.steps and c.durable(seam.steps):
                c.survivors(res, seam.steps, ctx, what, grid_nc=hit != durable.GRID_FILE)
            ctx.state("left", f["mode"], seam.kind, hit.split("_20")[0], min(seam.steps, 5))
            ctx.event(i, seam.kind, hit, seam.steps)
        elif r[0] == "raise":
            raise Violation(f"rerun-failed:{r[1]}", f"{what} on the leftovers of an interrupted run "
                            f"fails: {r[1]}: {r[2]}", traceback=r[3])
    nxt = c
    if spec.get("next"):
        s2 = copy.deepcopy(spec)
        s2["out"] = spec["next"].get("out", spec["out"])
        s2["time"]["steps"] = spec["next"].get("steps", spec["time"]["steps"])
        nxt = durable.Case(s2, ctx, "w2")
        nxt.reference(ctx)
    t = proc.Task(lambda: nxt.run(res)).result()
    if t[0] == "raise":
        raise Violation(f"rerun-failed:{t[1]}", "a run on the leftovers of an interrupted run fails: "
                        f"{t[1]}: {t[2]}", traceback=t[3])
    nxt.complete(res, ctx, "run on the leftovers of interrupted runs")
    ctx.probe("leftovers", crashed > 0)
    ctx.probe("leftovers_other_config", bool(spec.get("next")) and crashed > 0)
    ctx.probe("crash_loop", crashed > 1)


# ---------------------------------------------------------------- grids directory


def observe(w, grids, results):
    """Init and run; everything that depends on the grids directory."""
    m = new_model(w, grids, results)
    for _ in range(len(m.dates)):
        m.run_single()
    s = snapshot(m)
    if m.grid.extended_grid.available:
        s["ext.svf"] = m.grid.extended_grid.svf.copy()
    return s


def svf_files(d):
    out = {}
    for p in sorted(d.iterdir()):
        if "svf" in p.name and p.suffix == ".asc":
            out[p.name] = outputs.read_raster(p)[0]
    return out


def run_svf(spec, ctx):
    w = World(spec, ctx.newdir("w"))
    solo_dir = w.write_grids(w.root / "solo")
    seam = Seam()

    def counted():
        s = observe(w, solo_dir, w.root / "rs")
        return s

    ref = Task_result(proc.Task(counted, lambda: seam.arm(solo_dir)))
    ops = seam.ops
    files = svf_files(solo_dir)
    if not files:
        raise HarnessError("no sky view factor cache")
    again = proc.call(lambda: observe(w, solo_dir, w.root / "rs"))
    diff_states(ref, again, "second run which finds the sky view factor cache")
    ctx.ok()
    ctx.probe("svf_second_run")
    ctx.probe("extended_svf", bool(spec["grid"].get("ext")))
    for i, op in enumerate(spec["ops"]):
        d = w.write_grids(w.root / f"g{i}")
        nth = min(ops - 1, int(op["frac"] * ops))
        s = Seam()
        what = f"op {i} ({op['do']} at operation {nth} of {ops})"
        if op["do"] in ("crash", "torn"):
            mode = {"crash": CRASH, "torn": TORN}[op["do"]]
            t = proc.Task(lambda: observe(w, d, w.root / f"r{i}"), lambda: s.arm(d, mode, nth,
                                                                                 op["arg"]))
            try:
                Task_result(t)
            except proc.Died:
                ctx.fault(NAMES[mode])
                ctx.probe("svf_" + op["do"])
        elif op["do"] == "pair":
            # A is stalled at its n-th file operation while B does everything
            t = proc.Task(lambda: observe(w, d, w.root / f"ra{i}"), lambda: s.arm(d, STOP, nth))
            _, st = os.waitpid(t.pid, os.WUNTRACED)
            if not os.WIFSTOPPED(st):
                raise HarnessError(f"{what}: not stopped ({st}, ops {s.ops} of {ops})")
            ctx.fault(NAMES[STOP])
            try:
                b = Task_result(proc.Task(lambda: observe(w, d, w.root / f"rb{i}")))
            finally:
                os.kill(t.pid, signal.SIGCONT)
            a = Task_result(t)
            diff_states(ref, b, f"{what}: process running beside a stalled one")
            diff_states(ref, a, f"{what}: process stalled while another one ran")
            ctx.ok(2)
            ctx.probe("svf_concurrent")
            ctx.probe("stalled_mid_write", s.kind == "w")
        got = Task_result(proc.Task(lambda: observe(w, d, w.root / f"rc{i}")))
        diff_states(ref, got, f"{what}: run after it")
        left = svf_files(d)
        for name in files:
            if name not in left or not same(files[name], left[name]):
                raise Violation("svf-cache", f"{what}: {name} differs from the one of a solo run")
            ctx.ok()
        ctx.ok()
        ctx.state("svf", op["do"], s.kind, os.path.basename(s.path).split(".")[0], op["arg"],
                  bool(spec["grid"].get("ext")), bool(s.fired))
        ctx.event(i, op["do"], nth, s.kind)
    ctx.steps += 2
    ctx.sim_seconds += 2 * w.ts_seconds
    for k in sorted(ref):
        ctx.hash_array(k, ref[k])


def Task_result(t):
    r = t.result()
    if r[0] == "raise":
        raise Violation(f"init-failed:{r[1]}", f"initialisation / run failed: {r[1]}: {r[2]}",
                        traceback=r[3])
    return r[1]

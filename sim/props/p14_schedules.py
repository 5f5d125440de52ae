"""P14: results do not depend on the number of threads or their interleaving."""

from .. import interleave

interleave.install()

from ..common import *  # noqa: E402, F403
from ..common import REAL_MODEL, STUB_WORLD, ASSUME  # noqa: E402
from .. import common  # noqa: E402

ID = "P14"
LEVEL = "exploration"
N = {"quick": 450, "thorough": 4000}
REAL = REAL_MODEL + ["all parallel kernels, executed as Python with their loop bodies rewritten into "
                     "generators (sim/interleave.py)"]
STUB = STUB_WORLD + ["the numba thread pool: simulated threads, one statement or array access at a time",
                     "the JIT compiler (disabled)"]
ASSUMPTIONS = ASSUME + [
    "sequentially consistent memory; statements are atomic except for the load and the store of an "
    "array update; array expressions outside prange loops are race-free",
    "the kernels compute the same when interpreted as when compiled (up to rounding)",
]
RULE = (
    "one evaluation = one time step whose complete state (or one kernel call whose result) was compared "
    "bit for bit between in-order execution and a seeded interleaving of 2-8 simulated threads; distinct "
    "= distinct (interleaving hash) per (scenario, policy, thread count, splitting)"
)
REQUIRED_PROBES = ("multilayer", "cryolayers", "canopy", "idw", "shadows", "openness", "svf", "walk",
                   "pct", "roundrobin", "reverse", "dynamic", "ragged", "static", "snow_present",
                   "snow_kernel", "soil_kernel")


def warm(root):
    quiet()
    import openamundsen  # noqa: F401
    import openamundsen.terrain  # noqa: F401


def gen_plan(rng):
    return {"threads": rng.randint(2, 8), "policy": rng.pick(["walk", "walk", "pct", "roundrobin",
                                                             "reverse"]),
            "p": rng.pick([0.05, 0.3, 0.9]), "split": rng.pick(["static", "static", "ragged", "dynamic"]),
            "seed": rng.randrange(1 << 30)}


def gen(rng, index, tier):
    mode = rng.pick(["model", "model", "model", "kernels"])
    n = rng.randint(2, 5)
    if tier == "thorough":
        n = rng.randint(2, 10)
    spec = gen_world(rng, rows=rng.randint(2, 4), cols=rng.randint(2, 5), steps=n,
                     svf="file" if mode == "model" and rng.chance(0.8) else "compute",
                     timestep=rng.pick(["h", "3h", "3h", "D"]))
    spec["grid"]["forest"] = rng.chance(0.5)
    if rng.chance(0.4):
        spec["faults"] = gen_sensor_faults(rng, spec, rate=0.5)
    spec["cfg"] = gen_physics_cfg(rng, spec, canopy=rng.chance(0.3), et=rng.chance(0.3))
    if rng.chance(0.5):
        spec["warm_start"] = {"swe": rng.pick([20.0, 150.0]), "density": rng.pick([120.0, 300.0])}
    spec["mode"] = mode
    spec["plans"] = [gen_plan(rng) for _ in range(2 if mode == "model" else 3)]
    return spec


def model_history(w, g, spec, sched, tag):
    """[state snapshot per step]; an exception ends the history."""
    hist = []
    with interleave.use(sched):
        m = new_model(w, g, w.root / tag)
        pre_snow(m, spec)
        for d in w.dates:
            m.run_single()
            hist.append(snapshot(m))
    return hist, m


def pre_snow(m, spec):
    ws = spec.get("warm_start")
    if not ws:
        return
    import numpy as np

    m.snow.add_snow(m.grid.roi, np.full(m.grid.roi.sum(), ws["swe"]), density=ws["density"])


def run(spec, ctx):
    w = World(spec, ctx.newdir("w"))
    count_faults(ctx, spec)
    if spec["mode"] == "kernels":
        kernels(w, spec, ctx)
        return
    g = w.write_grids(w.root / "g")
    try:
        ref, m = model_history(w, g, spec, None, "ref")
    except Exception:  # noqa: BLE001
        if os.environ.get("OASIM_DEBUG"):
            raise
        ctx.probe("reference_error")  # not a matter of schedules
        return
    for k in sorted(ref[-1]):
        ctx.hash_array(k, ref[-1][k])
    for i, plan in enumerate(spec["plans"]):
        s = interleave.Scheduler(Rng("sched", plan["seed"]), plan)
        got, _ = model_history(w, g, spec, s, f"v{i}")
        for k, (a, b) in enumerate(zip(ref, got)):
            ctx.ok()
            diff_states(a, b, f"step {k}, {describe(plan)}", step=k, plan=plan)
        done(ctx, spec, plan, s, spec["cfg"]["snow"]["model"])
    ctx.probe(spec["cfg"]["snow"]["model"])
    ctx.probe("canopy", bool(spec["cfg"].get("canopy", {}).get("enabled")))
    ctx.probe("snow_present", bool(np.nanmax(nz(ref[-1]["snow.swe"])) > 0))
    ctx.probe("soil_kernel", interleave.loops.get("soil.py", 0) > 0)
    ctx.probe("snow_kernel", interleave.loops.get("multilayermodel.py", 0) > 0)
    ctx.probe("idw", interleave.loops.get("interpolation.py", 0) > 0)
    ctx.probe("shadows", interleave.loops.get("shadows.py", 0) > 0)
    ctx.steps += len(ref) * len(spec["plans"])
    ctx.sim_seconds += len(ref) * len(spec["plans"]) * w.ts_seconds


def describe(plan):
    return f"{plan['threads']} threads, {plan['policy']}/{plan['split']}"


def done(ctx, spec, plan, s, what):
    ctx.probe(plan["policy"])
    ctx.probe(plan["split"])
    ctx.fault("thread_switch", s.switches)
    ctx.state(what, plan["policy"], plan["threads"], plan["split"], s.trace)
    ctx.event(what, s.yields, s.switches, s.trace)


def kernels(w, spec, ctx):
    from openamundsen import interpolation, terrain

    rng = Rng("kernel", spec["grid"]["seed"])
    dem = np.array(w.dem)
    res = float(w.res)
    n = 3 + int(rng.random() * 3)
    xs, ys = (np.array([rng.random() * 1000 for _ in range(n)]) for _ in range(2))
    zs = np.array([rng.random() * 10 for _ in range(n)])
    xt, yt = np.array(xs.tolist() + [rng.random() * 1000 for _ in range(8)]), np.array(
        ys.tolist() + [rng.random() * 1000 for _ in range(8)])
    todo = {
        "idw": lambda: interpolation.idw(xs, ys, zs, xt, yt),
        "openness": lambda: terrain.openness(dem, res, L=res * 4, mean=False),
        "svf": lambda: terrain.sky_view_factor(dem, res, elev_step=45, azim_step=90),
    }
    for name, f in todo.items():
        ref = np.asarray(f())
        ctx.hash_array(name, ref)
        for plan in spec["plans"]:
            s = interleave.Scheduler(Rng("sched", plan["seed"], name), plan)
            with interleave.use(s):
                got = np.asarray(f())
            ctx.ok()
            diff_states({name: ref}, {name: got}, describe(plan), kernel=name)
            done(ctx, spec, plan, s, name)
        ctx.probe(name)

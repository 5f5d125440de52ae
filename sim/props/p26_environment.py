"""P26: the environment of the process never influences a result."""

import json
import pickle
import subprocess
import sys

import pandas as pd

from ..common import *  # noqa: F403
from ..common import REAL_MODEL, STUB_WORLD, ASSUME
from .. import common, durable, outputs, proc
from ..envrun import observe

ID = "P26"
PRELOAD = True
LEVEL = "exploration"
N = {"quick": 130, "thorough": 2500}
REAL = REAL_MODEL + ["input readers, output managers, real files; new interpreters for hash seeds and -O"]
STUB = STUB_WORLD + ["wall clock: preloaded seam (sim/shim.c), steps and jumps in both directions",
                     "directory listings: seeded order", "time zone, working directory, umask, standard streams, "
                     "garbage collector, global random state, hash seed: set by the simulator"]
ASSUMPTIONS = ASSUME + ["configured paths are absolute if the working directory changes during the run",
                        "files with the suffix of station files in the station directory are station files"]
RULE = (
    "one evaluation = one time step (complete state) or one output variable or file of a run in a disturbed "
    "environment compared bit for bit with the run in an ordinary one; distinct = (snow model, input and "
    "output formats, set of disturbances) classes"
)
KINDS = ("tz", "clock", "dirorder", "cwd", "random", "umask", "gc", "streams", "mtime", "litter", "log")
REQUIRED_PROBES = tuple(KINDS) + ("new_interpreter", "relative", "strange_path", "optimized", "csv_input",
                                  "netcdf_input", "svf_computed", "clock_change", "several_stations", "clock_read",
                                  "moved_inputs")
ZONES = ("Pacific/Kiritimati", "America/St_Johns", "Europe/Vienna", "Asia/Kathmandu", "XXX11:30", "EST5EDT",
         "CET-1CEST,M3.5.0,M10.5.0/3")
CHANGES = {"America/St_Johns": ("2021-03-14", "2020-11-01"), "EST5EDT": ("2020-03-08", "2021-11-07"),
           "Europe/Vienna": ("2020-03-29", "2021-10-31"),
           "CET-1CEST,M3.5.0,M10.5.0/3": ("2021-03-28", "2020-10-25")}
PLACES = ("plain", "with space", "umläut ö", "br[ack]et", "x" * 60, "quo'te", "per%cent", "a+b=c,d")


def warm(root):
    common.warm(root)


def gen(rng, index, tier):
    spec = durable.gen_case(rng)
    spec["grid"]["forest"] = rng.chance(0.5)
    spec["cfg"] = gen_physics_cfg(rng, spec, canopy=rng.chance(0.3), et=rng.chance(0.3))
    spec["cfg"].pop("extend_roi_with_stations", None)
    if rng.chance(0.2):
        g = spec["grid"]
        g["svf"], g["nan"] = "compute", 0
        g["rows"], g["cols"] = max(4, g["rows"]), max(4, g["cols"])
    if len(spec["stations"]) < 3 and rng.chance(0.5):
        st = copy.deepcopy(spec["stations"][0])
        for i in range(len(spec["stations"]), 4):
            s = copy.deepcopy(st)
            s.update(id=f"st{i}", alt=st["alt"] + 170.0 * i, fx=round(rng.uniform(0, 1), 3),
                     fy=round(rng.uniform(0, 1), 3))
            spec["stations"].append(s)
        rng.shuffle(spec["stations"])
    spec["meteo"] = rng.pick(["memory", "netcdf", "csv"])
    spec["whole"] = rng.chance(0.35)
    env = {}
    for k in KINDS:
        if rng.chance(0.35):
            env[k] = draw(rng, k)
    if not env:
        k = rng.pick(KINDS)
        env[k] = draw(rng, k)
    if rng.chance(0.2):
        env["tz"] = rng.pick(sorted(CHANGES))
    if env.get("tz") in CHANGES and rng.chance(0.6):
        at_clock_change(rng, spec, rng.pick(CHANGES[env["tz"]]))
    spec["env"] = env
    spec["exec"] = None
    if rng.chance(0.2):
        spec["exec"] = {"PYTHONHASHSEED": str(rng.randint(1, 10**6))}
        if rng.chance(0.5):
            spec["exec"]["PYTHONOPTIMIZE"] = "1"
        if rng.chance(0.5):
            spec["exec"]["LC_ALL"] = rng.pick(["C", "POSIX", "C.UTF-8"])
        if rng.chance(0.5):
            spec["exec"]["HOME"] = "/nonexistent"
    spec["relative"] = "cwd" not in env and rng.chance(0.25)
    spec["place"] = rng.pick(PLACES) if rng.chance(0.4) else "plain"
    return spec


def at_clock_change(rng, spec, day):
    """Move the run onto a day on which the clocks of the time zone change."""
    t = spec["time"]
    old = pd.Timestamp(t["start"])
    sec = outputs.td(t["timestep"]).total_seconds()
    back = rng.randint(0, max(0, min(t["steps"] - 2, int(86400 / sec) - 1))) if sec < 86400 else rng.randint(0, 3)
    new = pd.Timestamp(day) + (old - old.normalize()) - back * outputs.td(t["timestep"])
    t["start"] = str(new)
    grids = spec["out"].get("grids")
    if grids:
        from .p07_gridded_output import gen_fields

        grids["variables"] = gen_fields(rng, spec, spec["cfg"]["snow"]["model"], n=rng.randint(1, 3))


def draw(rng, k):
    if k == "tz":
        return rng.pick(ZONES)
    if k == "clock":
        return {"start": rng.pick([0, 951782399, 1700000000, 4102444799, 32503680000]),
                "step": rng.pick([0, 1, 1000, 3600000]), "every": rng.pick([0, 2, 5]),
                "by": rng.pick([-86400 * 400, 86400, 86400 * 4000])}
    if k in ("dirorder", "random"):
        return rng.getrandbits(30)
    if k == "cwd":
        return rng.randrange(3)
    if k == "umask":
        return rng.pick([0o000, 0o077, 0o027])
    if k == "gc":
        return rng.pick(["off", "eager", "steps"])
    if k == "streams":
        return rng.pick(["full", "null", "closed"])
    if k == "mtime":
        return rng.pick([0, 4102444800])
    if k == "log":
        return rng.pick(["DEBUG", "INFO", "ERROR"])
    return 1


def prepare(spec, root):
    w = World(spec, root)
    w.write_grids(root / "in" / "g")
    if spec["meteo"] != "memory":
        recs = w.records()
        (w.write_netcdf if spec["meteo"] == "netcdf" else w.write_csv)(root / "in" / "m", recs)
    return w


def run(spec, ctx):
    count_faults(ctx, spec)
    env = spec["env"]
    a, b = ctx.newdir("a"), ctx.newdir("b") / spec["place"]
    b.mkdir()
    w = prepare(spec, a)
    prepare(spec, b)
    base = {k: v for k, v in spec.items() if k not in ("env", "exec")}

    def ordinary():
        return observe({"spec": base, "env": {}, "root": str(a), "results": "r"})

    ref_states, ref_out, _ = proc.call(ordinary)
    job = {"spec": base, "env": env, "root": str(b), "results": "r", "relative": spec["relative"]}
    what = f"environment {sorted(env)}" + (f", new interpreter {spec['exec']}" if spec["exec"] else "") + (
        f", place {spec['place'][:12]!r}" if spec["place"] != "plain" else "") + (
        ", relative paths" if spec["relative"] else "")
    if spec["exec"]:
        r = elsewhere(job, spec["exec"], ctx)
    else:
        r = proc.Task(lambda: observe(job)).result()
    if r[0] == "raise":
        raise Violation(f"env-error:{r[1]}", f"{what}: {r[1]}: {r[2]}", traceback=r[3])
    states, out, reads = r[1]
    for k, s in enumerate(ref_states):
        diff_states(s, states[k], f"{what}: " + (f"after step {k - 1}" if k else "after the initialisation"),
                    step=k)
        ctx.ok()
    diff_states(ref_out, out, f"{what}: outputs")
    ctx.ok(len(ref_out))
    for k in env:
        ctx.probe(k)
        ctx.fault("environment_" + k)
    ctx.probe("clock_read", reads > 0)
    d = w.dates
    ctx.probe("clock_change", any(d[0] <= pd.Timestamp(x) + pd.Timedelta("12h") <= d[-1]
                                  for x in CHANGES.get(env.get("tz"), ())))
    ctx.probe("new_interpreter", bool(spec["exec"]))
    ctx.probe("optimized", bool(spec["exec"]) and "PYTHONOPTIMIZE" in spec["exec"])
    ctx.probe("relative", spec["relative"])
    ctx.probe("moved_inputs")
    ctx.probe("strange_path", spec["place"] not in ("plain",))
    ctx.probe(spec["meteo"] + "_input")
    ctx.probe("svf_computed", spec["grid"]["svf"] == "compute")
    ctx.probe("several_stations", len(spec["stations"]) > 2)
    n = len(w.dates)
    ctx.steps += n
    ctx.sim_seconds += n * w.ts_seconds
    ctx.state(spec["cfg"]["snow"]["model"], spec["meteo"], spec["out"]["timeseries"]["format"],
              spec["out"].get("grids", {}).get("format"), tuple(sorted(env))[:2], bool(spec["exec"]))
    for v in sorted(ref_states[-1]):
        ctx.hash_array(v, ref_states[-1][v])
    for v in sorted(ref_out):
        ctx.event(v, ref_out[v].shape)


def elsewhere(job, environ, ctx):
    d = ctx.newdir("x")
    job = dict(job, out=str(d / "out.pkl"))
    (d / "job.json").write_text(json.dumps(job))
    here = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    env = {**os.environ, **environ}
    path = [here, *[p for p in env.get("PYTHONPATH", "").split(os.pathsep) if p]]
    env["PYTHONPATH"] = os.pathsep.join(dict.fromkeys(path))
    p = subprocess.run([sys.executable, "-m", "sim.envrun", str(d / "job.json")], env=env, cwd=d,
                       capture_output=True, text=True)
    try:
        return pickle.loads((d / "out.pkl").read_bytes())
    except OSError:
        raise Violation("died", f"the run in a new interpreter died ({p.returncode}): "
                        f"{p.stderr[-300:]}") from None

"""P05: model instances are isolated from each other and from their caller."""

import logging
import os
import warnings

import numba
import pandas as pd
import xarray as xr

from ..common import *  # noqa: F403
from ..common import REAL_MODEL, STUB_WORLD, ASSUME
from .. import common, proc
from ..core import deep_merge
from .p07_gridded_output import gen_fields

ID = "P05"
LEVEL = "exploration"
N = {"quick": 200, "thorough": 4000}
REAL, STUB = REAL_MODEL, STUB_WORLD + ["scheduler of model instances: seeded interleaving of calls"]
ASSUMPTIONS = ASSUME + [
    "instances use different result directories; instances that share a grid directory find the "
    "sky view factor file there"
]
RULE = (
    "one evaluation = one completed call (initialize / run_single / run) of an interleaved instance "
    "after which its complete state was compared bit for bit with its solo run in a separate process "
    "and the caller's objects and process-wide settings with their values before the call; distinct "
    "= (models, snow models, sharing mode, interleaving pattern) classes"
)
REQUIRED_PROBES = ("shared_meteo", "shared_config", "shared_results_parent", "different_domains",
                   "late_init", "run_amid_steps", "mixed_snow_models", "failing_instance",
                   "thread_counts_differ", "land_cover_params", "deprecated_keys",
                   "default_logging", "extra_outputs", "output_files", "failing_step")


def warm(root):
    common.warm(root)


def gen(rng, index, tier):
    n = rng.pick([2, 2, 3])
    insts = []
    share = rng.pick(["none", "none", "meteo", "config", "config"])
    for i in range(n):
        if i and share in ("meteo", "config"):
            w = copy.deepcopy(insts[0]["world"])
            if share == "meteo":
                w["cfg"] = gen_physics_cfg(rng, w, canopy=rng.chance(0.4), et=rng.chance(0.3))
        else:
            w = gen_world(rng, rows=rng.randint(2, 4), cols=rng.randint(2, 4),
                          steps=rng.randint(3, 9), nan=0, svf="file")
            w["grid"]["forest"] = rng.chance(0.5)
            w["cfg"] = gen_physics_cfg(rng, w, canopy=rng.chance(0.4), et=rng.chance(0.3))
            if rng.chance(0.4):
                w["cfg"]["land_cover"] = {"classes": {rng.pick([4, 5, 6]): {
                    "max_height": rng.pick([0.5, 9.0]), "leaf_area_index": {
                        "min": 0.5, "max": rng.pick([1.5, 4.0]), "effective_add": 0.4}}}}
            for old in ({"wind_speed": {"trend_method": "fixed"}}, {"cloudiness": {"night_method": "constant"}},
                        {"cloudiness": {"day_method": "humidity"}}):
                if rng.chance(0.15):
                    ip = w["cfg"].get("meteo", {}).get("interpolation", {})
                    if "day_method" in old.get("cloudiness", {}) and "method" in ip.get("cloudiness", {}):
                        continue
                    w["cfg"] = deep_merge(w["cfg"], {"meteo": {"interpolation": old}})
            if rng.chance(0.4):
                w["faults"] = gen_sensor_faults(rng, w, rate=1.0)
        w["cfg"]["numba_threads"] = rng.pick([1, 1, 2, None, "auto"])
        if not (i and share == "config"):
            w["cfg"].pop("output_data", None)
            if rng.chance(0.6):
                w["cfg"]["output_data"] = gen_outputs(rng, w, share != "config")
        insts.append({"world": w})
        if share == "config":
            w["cfg"]["numba_threads"] = insts[0]["world"]["cfg"]["numba_threads"]
    # schedule: which instance is called next ("-": its remaining steps through run())
    sched = []
    left = {i: insts[i]["world"]["time"]["steps"] + 1 for i in range(n)}
    whole = {i: rng.chance(0.2) for i in range(n)}
    while left:
        i = rng.pick(sorted(left))
        burst = rng.pick([1, 1, 1, 2, 5])
        for _ in range(burst):
            if i not in left:
                break
            sched.append(i)
            left[i] -= 1
            if whole[i] and left[i] == insts[i]["world"]["time"]["steps"]:
                pass
            if left[i] == 0:
                del left[i]
    return {"insts": insts, "share": share, "schedule": sched,
            "whole": [bool(whole[i]) for i in range(n)], "fail": rng.chance(0.25),
            "logging": rng.chance(0.25)}


TS_VARS = ("snow.swe", "snow.melt", "meteo.sw_out", "surface.albedo", "meteo.wet_bulb_temp", "snow.ice_content",
           "soil.temp")


def gen_outputs(rng, w, files):
    """Extra output variables, points and formats (files only if every instance has its own directory)."""
    ts = {"format": rng.pick(["memory", "csv", "netcdf"]) if files else "memory"}
    if rng.chance(0.7):
        ts["variables"] = [{"var": v, "name": f"my_{v.split('.')[1]}"} for v in rng.sample(list(TS_VARS), rng.randint(1, 3))]
    if rng.chance(0.3):
        ts["add_default_variables"] = False
        ts.setdefault("variables", [{"var": "snow.swe"}])
    grids = {"format": rng.pick(["memory", "netcdf", "ascii"]) if files else "memory",
             "variables": gen_fields(rng, w, w["cfg"]["snow"]["model"], n=rng.randint(1, 3))}
    return {"timeseries": ts, "grids": grids}


def process_state():
    lg = logging.getLogger("openamundsen")
    return {
        "numba threads": numba.get_num_threads(),
        "working directory": os.getcwd(),
        "environment": dict(os.environ),
        "numpy error handling": np.geterr(),
        "log handlers": [type(h).__name__ for h in lg.handlers],
        "root log handlers": [type(h).__name__ for h in logging.getLogger().handlers],
        "random state": np.random.get_state()[1].tolist()[:8] + [np.random.get_state()[2]],
        "umask": _umask(),
    }


def _umask():
    u = os.umask(0o22)
    os.umask(u)
    return u


def solo(spec, root, meteo_from=None):
    w = World(spec, root)
    g = w.write_grids(root / "g")
    m = new_model(w, g, root / "r")
    out = [snapshot(m)]
    for _ in range(len(m.dates)):
        m.run_single()
        out.append(snapshot(m))
    return out, outputs_of(m)


def outputs_of(m):
    """All outputs of a finished run, in memory and on disk."""
    out = {}

    def add(pre, ds):
        for k in sorted(map(str, list(ds.data_vars) + list(ds.coords))):
            out[f"{pre}{k}"] = np.array(ds[k].values)

    if m.point_output.data is not None:
        add("ts:", m.point_output.data)
    if getattr(m.gridded_output, "data", None) is not None:
        add("grid:", m.gridded_output.data)
    d = m.config.results_dir
    for p in sorted(d.rglob("*")) if d.exists() else ():
        if p.suffix == ".nc":
            with xr.open_dataset(p) as ds:
                add(f"{p.name}:", ds.load())
        elif p.is_file():
            out[f"file:{p.name}"] = np.frombuffer(p.read_bytes(), np.uint8)
    return out


def run(spec, ctx):
    import openamundsen as oa

    insts, share = spec["insts"], spec["share"]
    worlds, refs = [], []
    for i, inst in enumerate(insts):
        count_faults(ctx, inst["world"])
        root = ctx.newdir(f"solo{i}_")
        refs.append(proc.call(lambda r=root, s=inst["world"]: solo(s, r)))
        d = ctx.newdir(f"w{i}_")
        w = World(inst["world"], d)
        w.gdir = w.write_grids(d / "g")
        worlds.append(w)
    for inst in insts:
        od = inst["world"]["cfg"].get("output_data", {})
        ctx.probe("extra_outputs", bool(od))
        ctx.probe("output_files", any(x.get("format") in ("csv", "netcdf", "ascii") for x in od.values()))
    cfgs, meteos = [], []
    for i, w in enumerate(worlds):
        if i and share == "config":
            w0 = worlds[0]
            cfgs.append(cfgs[0])
            meteos.append(meteos[0])
            continue
        cfgs.append(oa.Configuration.fromDict(w.config(w.gdir, w.root / "r")))
        meteos.append(meteos[0] if i and share == "meteo" else w.dataset())
    logs = spec.get("logging")
    if logs:  # the built-in log handler, at a level which prints nothing
        for c in cfgs:
            c["enable_default_logging"], c["log_level"] = True, "CRITICAL"
    cfg_before = [copy.deepcopy(c.toDict()) for c in cfgs]
    meteo_before = [m.copy(deep=True) for m in meteos]
    models = [None] * len(insts)
    done = [0] * len(insts)
    log0 = None

    def unchanged(what):
        for i, c in enumerate(cfgs):
            if c.toDict() != cfg_before[i]:
                raise Violation("config-mutated", f"{what} changed the configuration passed by the "
                                f"caller: {first_difference(cfg_before[i], c.toDict())}")
        for i, d in enumerate(meteos):
            if not d.identical(meteo_before[i]):
                raise Violation("meteo-mutated", f"{what} changed the forcing dataset passed by the "
                                "caller")

    def compare(i, what):
        diff_states(refs[i][0][done[i]], snapshot(models[i]), f"{what}: instance {i} differs from its "
                    "solo run", step=done[i] - 1)
        ctx.ok()

    for pos, i in enumerate(spec["schedule"]):
        if i >= len(insts):
            continue
        before = process_state()
        w = worlds[i]
        if models[i] is None:
            m = oa.OpenAmundsen(cfgs[i])
            m.initialize(meteo=meteos[i])
            models[i] = m
            what = f"call {pos} (initialize {i})"
            ctx.probe("late_init", any(d > 0 for j, d in enumerate(done) if j != i))
        elif done[i] >= len(models[i].dates):
            continue
        elif spec["whole"][i] and done[i] == 0:
            models[i].run()
            done[i] = len(models[i].dates)
            what = f"call {pos} (run {i})"
            ctx.probe("run_amid_steps", any(0 < d for j, d in enumerate(done) if j != i))
        else:
            models[i].run_single()
            done[i] += 1
            what = f"call {pos} (step {i})"
            account(ctx, w, spec)
        after = process_state()
        if logs:
            ctx.probe("default_logging")
            n = len([h for h in logging.getLogger("openamundsen").handlers
                     if not isinstance(h, logging.NullHandler)])
            if n != 1:
                raise Violation("log-handlers", f"{what}: {n} log handlers are installed although "
                                "the default logging installs exactly one")
            before["log handlers"] = after["log handlers"]
        for k in before:
            if before[k] != after[k]:
                raise Violation("process-state", f"{what} changed the {k} of the process: "
                                f"{before[k]} -> {after[k]}")
        unchanged(what)
        compare(i, what)
        for j in range(len(insts)):  # nobody else moved
            if j != i and models[j] is not None and (pos + j) % 3 == 0:
                compare(j, what + " (bystander)")
        if spec["fail"] and pos == len(spec["schedule"]) // 2:
            # an instance of the same process that fails must not affect the others
            before = process_state()
            try:
                bad = oa.OpenAmundsen(cfgs[i])
                bad.initialize(meteo=meteos[i].isel(time=slice(0, 0)))
            except Exception as e:  # noqa: BLE001
                ctx.fault("failed_initialisation")
                ctx.probe("failing_instance")
            if process_state() != before:
                raise Violation("process-state", "a failed initialisation changed process settings")
            unchanged("a failed initialisation")
            failing_step(worlds[i], ctx, logs)
            unchanged("a failed step of another instance")
        ctx.event(pos, i, done[i])
    for i, m in enumerate(models):
        if m is not None and done[i] == len(m.dates):
            diff_states(refs[i][1], outputs_of(m), f"time series of instance {i}")
            for k, a in refs[i][0][-1].items():
                ctx.hash_array(k, a)
    kinds = {w.spec["cfg"]["snow"]["model"] for w in worlds}
    ctx.probe("mixed_snow_models", len(kinds) > 1)
    ctx.probe("shared_meteo", share == "meteo")
    ctx.probe("shared_config", share == "config")
    ctx.probe("shared_results_parent", True)
    ctx.probe("different_domains", share == "none")
    ctx.probe("thread_counts_differ", len({str(w.spec["cfg"]["numba_threads"]) for w in worlds}) > 1)
    ctx.probe("land_cover_params", any("land_cover" in w.spec["cfg"] for w in worlds))
    ctx.probe("deprecated_keys", any("wind_speed" in w.spec["cfg"].get("meteo", {}).get(
        "interpolation", {}) for w in worlds))
    sw = sum(a != b for a, b in zip(spec["schedule"], spec["schedule"][1:]))
    ctx.state(len(insts), sorted(kinds), share, min(sw, 12), spec["whole"], spec["fail"])


def failing_step(w, ctx, logs):
    """A step of one more instance raises half-way."""
    before = process_state()
    boom = {"on": False}

    def cb(model):
        r = model.grid.roi
        met = model.state.meteo
        met.temp[r], met.precip[r], met.rel_hum[r], met.wind_speed[r] = 270.0, 1.0, 70.0, 2.0
        met.cloud_factor[r], met.cloud_fraction[r] = 0.8, 0.5
        if boom["on"]:
            raise RuntimeError("injected")

    d = ctx.newdir("bad_")
    m = new_model(w, w.gdir, d, {"input_data": {"meteo": {"format": "callback"}}, "numba_threads": 2,
                                  "enable_default_logging": bool(logs), "log_level": "CRITICAL"}, callback=cb)
    if len(m.dates) > 1:
        m.run_single()
    boom["on"] = True
    try:
        m.run_single()
    except RuntimeError:
        ctx.fault("failed_step")
        ctx.probe("failing_step")
    else:
        raise Violation("exception-swallowed", "an exception of the meteo callback was swallowed")
    after = process_state()
    for k in before:
        if before[k] != after[k]:
            raise Violation("process-state", f"a failed step changed the {k} of the process: {before[k]} -> {after[k]}")


def first_difference(a, b, path=""):
    if isinstance(a, dict) and isinstance(b, dict):
        for k in sorted(set(a) | set(b), key=str):
            if a.get(k, "<absent>") != b.get(k, "<absent>"):
                return first_difference(a.get(k, "<absent>"), b.get(k, "<absent>"), f"{path}.{k}")
    return f"{path[1:]}: {a!r} -> {b!r}"[:300]

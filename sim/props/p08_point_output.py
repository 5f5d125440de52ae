"""P08: time series output equals the history of the model state at the points' pixels."""

import pandas as pd
import xarray as xr

from ..common import *  # noqa: F403
from ..common import REAL_MODEL, STUB_WORLD, ASSUME
from .. import common, outputs

ID = "P08"
LEVEL = "exploration"
N = {"quick": 300, "thorough": 5000}
REAL = REAL_MODEL + ["point output manager, xarray/netCDF4, CSV files, real files"]
STUB = STUB_WORLD
ASSUMPTIONS = ASSUME + ["values are compared at float32 (the storage precision)"]
RULE = (
    "one evaluation = one (variable, time step) row of a time series file compared with the "
    "recorded state at the independently located pixels; files are re-read at random steps and at "
    "the end; distinct = (format, write frequency, number of chunks, points, variables) classes"
)
REQUIRED_PROBES = ("extended_roi", "netcdf", "csv", "memory", "multi_chunk", "single_chunk", "no_points", "outside_roi",
                   "three_dim", "int_var", "custom_names", "mid_run_read", "odd_timestep",
                   "first_write_date_off_grid", "renamed_point", "unwritten_tail_absent")


def warm(root):
    common.warm(root)


def gen_points(rng, spec):
    g = spec["grid"]
    from ..world import CRS

    x0, y0 = CRS[g["crs"]]["x0"], CRS[g["crs"]]["y0"]
    pts = []
    for i in range(rng.pick([0, 1, 2, 3])):
        p = {"x": round(x0 + rng.uniform(0.01, 0.99) * g["cols"] * g["res"], 2),
             "y": round(y0 + rng.uniform(0.01, 0.99) * g["rows"] * g["res"], 2)}
        if rng.chance(0.5):
            p["name"] = f"my_{i}"
        pts.append(p)
    return pts


def gen_timeseries(rng, spec, fmt=None):
    model = spec["cfg"]["snow"]["model"]
    steps, tstep = spec["time"]["steps"], spec["time"]["timestep"]
    ts = outputs.td(tstep)
    fmt = fmt or rng.pick(["netcdf", "netcdf", "csv", "csv", "memory"])
    from .p07_gridded_output import mult

    t = {"format": fmt, "points": gen_points(rng, spec)}
    if fmt != "memory" or rng.chance(0.5):
        t["write_freq"] = rng.pick(["ME", "ME", "MS", "YE", "D", "2D", mult(ts, rng.randint(1, 5)),
                                    mult(ts, rng.randint(1, 9)), "7h", "90min"])
    if rng.chance(0.2):
        t["add_default_points"] = False
    if rng.chance(0.4):
        t["add_default_variables"] = False
    vs = []
    pool = ["snow.albedo", "surface.roughness_length", "meteo.dry_air_density",
            "surface.conductance", "snow.area_fraction", "meteo.psych_const"]
    if t.get("add_default_variables") is False:
        pool += ["snow.swe", "meteo.temp", "snow.ice_content", "snow.temp", "snow.temp",
                 "soil.temp", "surface.temp"]
    if model == "multilayer":
        pool += ["snow.num_layers"] * 3
    for i in range(rng.randint(0, 4) or (t.get("add_default_variables") is False)):
        v = {"var": rng.pick(pool)}
        nm = v["var"].split(".")[-1]
        if nm in [outputs.name_of(u) for u in vs] or nm == "temp" or rng.chance(0.3):
            v["name"] = f"x{i}_{nm}"
        vs.append(v)
    t["variables"] = vs
    return t


def gen(rng, index, tier):
    ts = rng.pick(["h", "3h", "6h", "D", "D", "12h", "2h", "5h", "7h", "10h", "2D"])
    steps = rng.randint(6, 34) if ts != "D" else rng.pick([rng.randint(6, 34), rng.randint(30, 70)])
    spec = gen_world(rng, rows=rng.randint(2, 4), cols=rng.randint(2, 4), steps=steps, timestep=ts,
                     svf="file", n_stations=rng.randint(1, 4))
    if rng.chance(0.4):
        st = pd.Timestamp(spec["time"]["start"])
        spec["time"]["start"] = str(st + pd.offsets.MonthEnd(0) - pd.Timedelta(
            days=rng.randint(0, 3)))
    spec["cfg"] = gen_physics_cfg(rng, spec, canopy=False, et=False)
    if rng.chance(0.25):
        spec["cfg"]["extend_roi_with_stations"] = True
    if rng.chance(0.4):
        spec["faults"] = gen_sensor_faults(rng, spec, rate=1.0)
    t = gen_timeseries(rng, spec)
    if ts == "2D":
        t["write_freq"] = rng.pick(["2D", "4D", "8D"])
    spec["out"] = {"timeseries": t}
    spec["checks"] = sorted({rng.randrange(steps) for _ in range(rng.randint(1, 5))})
    return spec


def verify(m, hist, t, ctx, what, results):
    done = len(hist)
    fmt = t["format"]
    if fmt == "memory":
        ds = m.point_output.data
        if list(pd.DatetimeIndex(ds.time.values)) != list(hist.dates):
            raise Violation("points-times", f"{what}: time axis is not the simulation period")
        for v in ds.data_vars:
            rest = ds[v].values[done:]
            if rest.dtype.kind == "f" and np.isfinite(rest).any():
                raise Violation("points-invented", f"{what}: {v} holds values for future steps")
        outputs.check_point_dataset(ds.isel(time=slice(0, done)), hist, done, ctx, what)
        return
    n = outputs.ref_point_durable(hist.dates, t.get("write_freq", "ME"), done)
    if fmt == "netcdf":
        p = results / "output_timeseries.nc"
        if n == 0:
            if p.exists():
                raise Violation("points-files", f"{what}: file exists before the first write date")
            return
        if not p.exists():
            raise Violation("points-missing", f"{what}: no time series file although "
                            f"{n} steps are due")
        with xr.open_dataset(p) as ds:
            ds = ds.load()
        outputs.check_point_dataset(ds, hist, n, ctx, what)
    else:
        outputs.read_point_csv(results, hist, n, ctx, what)
    ctx.probe("unwritten_tail_absent", n < done)


def run(spec, ctx):
    count_faults(ctx, spec)
    t = spec["out"]["timeseries"]
    w, m = build(spec, ctx, {"output_data": {"timeseries": t}})
    results = w.root / "r"
    hist = outputs.PointHistory(m, w, t)
    steps = len(m.dates)
    for k in range(steps):
        m.run_single()
        hist.record(m)
        account(ctx, w, spec)
        if k in spec["checks"] and k != steps - 1:
            verify(m, hist, t, ctx, f"after step {k}", results)
            ctx.probe("mid_run_read")
    verify(m, hist, t, ctx, "after the run", results)
    fmt = t["format"]
    ctx.probe(fmt)
    chunks = 1
    if fmt != "memory":
        ns = {outputs.ref_point_durable(hist.dates, t.get("write_freq", "ME"), d)
              for d in range(1, steps + 1)} - {0}
        chunks = len(ns)
        ctx.probe("multi_chunk", chunks > 1)
        ctx.probe("single_chunk", chunks == 1)
        wd = pd.date_range(m.dates[0], m.dates[-1], freq=t.get("write_freq", "ME"))
        ctx.probe("first_write_date_off_grid", len(wd) > 0 and wd[0] not in m.dates and chunks > 1)
    ctx.probe("no_points", not hist.points)
    ctx.probe("extended_roi", bool((m.grid.roi & ~(w.roi_mask & np.isfinite(w.dem))).any()))
    ctx.probe("outside_roi", any(not m.grid.roi[rc] for rc, _, _ in hist.points.values()))
    for v in hist.vars.values():
        ctx.probe("three_dim", v in outputs.GRID_VARS_3D)
        ctx.probe("int_var", v in outputs.GRID_VARS_INT)
    ctx.probe("custom_names", any("name" in v for v in t["variables"]))
    ctx.probe("renamed_point", any("name" in p for p in t["points"]))
    ctx.probe("odd_timestep", spec["time"]["timestep"] in ("5h", "7h", "10h"))
    ctx.state(fmt, t.get("write_freq"), min(chunks, 4), len(hist.points),
              t.get("add_default_variables", True), len(t["variables"]))
    for v in sorted(hist.rows):
        if hist.points:
            ctx.hash_array(v, np.stack(hist.rows[v]))
    ctx.event("done", steps, chunks)

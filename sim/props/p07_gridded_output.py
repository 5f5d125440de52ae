"""P07: gridded output equals the history of the model state."""

import openamundsen.util
import pandas as pd
import xarray as xr

from ..common import *  # noqa: F403
from ..common import REAL_MODEL, STUB_WORLD, ASSUME
from .. import common, outputs

ID = "P07"
LEVEL = "exploration"
N = {"quick": 300, "thorough": 5000}
REAL = REAL_MODEL + ["gridded output manager, netCDF4/HDF5, GDAL raster writers, real files"]
STUB = STUB_WORLD
ASSUMPTIONS = ASSUME + [
    "month/year-anchored output frequencies are used with runs which start at 00:00 and whose time "
    "step divides one day",
    "values are compared at float32 / six significant digits (the storage precision)",
]
RULE = (
    "one evaluation = one output slice (field x date, or one raster file) compared with the value "
    "recomputed from the recorded state history; files are re-read at randomly chosen steps and at "
    "the end; distinct = (format, layout, append, aggregation, frequency kind, dimensionality, "
    "missing data inside) classes"
)
REQUIRED_PROBES = ("netcdf", "netcdf_append", "ascii", "geotiff", "memory", "roi_pixel", "agg_sum",
                   "agg_mean", "anchored", "dates_list", "dates_unsorted", "three_dim", "int_var", "nan_in_agg",
                   "mid_run_read", "multi_time_dims", "expanded", "partial_interval_dropped")


def warm(root):
    common.warm(root)


def gen_fields(rng, spec, model, n=None):
    t = spec["time"]
    dates = pd.date_range(t["start"], periods=t["steps"], freq=t["timestep"])
    ts = dates[1] - dates[0]
    midnight = dates[0].normalize() == dates[0]
    divides = (pd.Timedelta("1D") % ts) == pd.Timedelta(0)
    fields = []
    used = set()
    for _ in range(n or rng.randint(1, 6)):
        pool = list(outputs.GRID_VARS_2D)
        r = rng.random()
        if r < 0.25:
            pool = list(outputs.GRID_VARS_3D)
        elif r < 0.35 and model == "multilayer":
            pool = list(outputs.GRID_VARS_INT)
        f = {"var": rng.pick(pool)}
        if rng.chance(0.6):
            f["agg"] = rng.pick(["sum", "mean"])
        k = rng.random()
        if k < 0.45:
            f["freq"] = mult(ts, rng.pick([1, 2, 3, 4, 6, 8]))
        elif k < 0.6 and midnight and divides:
            opts = ["ME", "YE"] if f.get("agg") else ["ME", "YE", "MS", "YS"]
            f["freq"] = rng.pick(opts)
            if f.get("agg") and bad_anchor(dates, ts, f["freq"]):
                del f["freq"]
        elif k < 0.8:
            m = rng.randint(1, max(1, min(6, t["steps"])))
            ds = sorted(rng.sample(range(t["steps"]), m))
            lst = [dates[i] for i in ds]
            if rng.chance(0.2):
                lst.append(dates[-1] + 5 * ts)  # outside of the run: ignored
            if rng.chance(0.15):
                lst = [dates[0] - 3 * ts, *lst]
            if rng.chance(0.15):
                lst.append(rng.pick(lst))
            if rng.chance(0.25):
                lst = rng.sample(lst, len(lst))
            f["dates"] = [str(d) for d in lst]
        name = outputs.name_of(f)
        if name in used or rng.chance(0.3):
            name = f"v{len(fields)}_{name}"
            f["name"] = name
        used.add(name)
        fields.append(f)
    return fields


def mult(ts, n):
    s = int((ts * n).total_seconds())
    for unit, sec in (("D", 86400), ("h", 3600), ("min", 60)):
        if s % sec == 0:
            k = s // sec
            return unit if k == 1 else f"{k}{unit}"


def bad_anchor(dates, ts, freq):
    """Runs ending inside the first period less than a day before its end are left out (whether
    such a period counts as covered is a documented approximation of the code)."""
    p = dates[0].to_period("M" if freq == "ME" else "Y")
    end = p.end_time
    return dates[-1] <= end and (end - dates[-1]) < pd.Timedelta("26h") + ts


def gen(rng, index, tier):
    ts = rng.pick(["h", "3h", "6h", "D", "D", "12h", "2h"])
    steps = rng.randint(6, 34) if ts != "D" else rng.pick([rng.randint(6, 34), rng.randint(30, 70)])
    spec = gen_world(rng, rows=rng.randint(2, 4), cols=rng.randint(2, 4), steps=steps, timestep=ts,
                     svf="file")
    if rng.chance(0.4):
        # close to a month / year boundary
        st = pd.Timestamp(spec["time"]["start"]).normalize()
        month_end = st + pd.offsets.MonthEnd(0) if not rng.chance(0.3) else pd.Timestamp(
            st.year, 12, 31)
        spec["time"]["start"] = str(month_end - pd.Timedelta(days=rng.randint(0, 2)))
    spec["cfg"] = gen_physics_cfg(rng, spec, canopy=False, et=False)
    spec["cfg"].pop("extend_roi_with_stations", None)
    if rng.chance(0.5):
        spec["faults"] = gen_sensor_faults(rng, spec, rate=1.0)
    model = spec["cfg"]["snow"]["model"]
    fmt = rng.pick(["netcdf", "netcdf", "netcdf", "memory", "ascii", "geotiff"])
    g = {"format": fmt, "variables": gen_fields(rng, spec, model)}
    if fmt in ("netcdf", "memory") and rng.chance(0.4):
        g["layout"] = "roi_pixel"
    if fmt == "netcdf":
        g["append"] = rng.chance(0.5)
    if rng.chance(0.3):
        g["compress"] = True
    spec["out"] = {"grids": g}
    spec["checks"] = sorted({rng.randrange(steps) for _ in range(rng.randint(1, 4))})
    return spec


def open_nc(path):
    with xr.open_dataset(path) as ds:
        return ds.load()


def unpack(ds, hist, mg, layout, done_only, ctx, what):
    """ROI pixel datasets expand to the same maps as the grid layout has."""
    if layout != "roi_pixel":
        return
    full = openamundsen.util.convert_roi_pixel_dataset_to_grid(ds)
    if full.attrs.get("openamundsen_output_layout") != "grid":
        raise Violation("output-coords", f"{what}: the expanded dataset is marked as "
                        f"{full.attrs.get('openamundsen_output_layout')!r}")
    for n, v in full.data_vars.items():
        if v.dims[-2:] == ("y", "x") and v.dtype.kind == "f" and np.isfinite(v.values[..., ~hist.roi]).any():
            raise Violation("output-invented", f"{what} (expanded to the grid): {n} holds values outside of the ROI")
    outputs.check_grid_dataset(full, hist, mg, "grid", done_only=done_only, ctx=ctx,
                               what=f"{what} (expanded to the grid)", roi_only=True)
    ctx.probe("expanded")


def verify(m, hist, g, ctx, what, results):
    fmt = g["format"]
    layout = g.get("layout", "grid")
    mg = {"x": m.grid.X[0, :], "y": m.grid.Y[:, 0]}
    if fmt == "memory":
        ds = m.gridded_output.data
        if ds is None:
            if any(outputs.ref_write_dates(hist.dates, f) for f in hist.fields):
                raise Violation("output-missing", f"{what}: no in-memory output dataset")
            return
        outputs.check_grid_dataset(ds, hist, mg, layout, ctx=ctx, what=what)
        unpack(ds, hist, mg, layout, False, ctx, what)
    elif fmt == "netcdf":
        p = results / "output_grids.nc"
        if not any(outputs.ref_write_dates(hist.dates, f) for f in hist.fields):
            return
        if not p.exists():
            raise Violation("output-missing", f"{what}: output file does not exist")
        ds = open_nc(p)
        app = bool(g.get("append"))
        outputs.check_grid_dataset(ds, hist, mg, layout, done_only=app, ctx=ctx, what=what)
        unpack(ds, hist, mg, layout, app, ctx, what)
    else:
        outputs.check_rasters(results, hist, {"ascii": "asc", "geotiff": "tif"}[fmt],
                              m.grid.transform, ctx=ctx, what=what)


def run(spec, ctx):
    count_faults(ctx, spec)
    g = spec["out"]["grids"]
    w, m = build(spec, ctx, {"output_data": {"grids": g}})
    results = w.root / "r"
    hist = outputs.GridHistory(m, g["variables"])
    steps = len(m.dates)
    for k in range(steps):
        m.run_single()
        hist.record(m)
        account(ctx, w, spec)
        if k in spec["checks"] and k != steps - 1:
            verify(m, hist, g, ctx, f"after step {k}", results)
            ctx.probe("mid_run_read")
    verify(m, hist, g, ctx, "after the run", results)
    # coverage
    ctx.probe(g["format"])
    ctx.probe("netcdf_append", bool(g.get("append")))
    ctx.probe("roi_pixel", g.get("layout") == "roi_pixel")
    keys = set()
    for f in g["variables"]:
        wd = outputs.ref_write_dates(m.dates, f)
        if not wd:
            continue
        keys.add((tuple(wd), f.get("agg") is None))
        ex = [e for e in hist.expected(f) if e[2] is not None]
        nan_in = any(np.isnan(np.asarray(e[2], float)[..., hist.roi]).any() for e in ex)
        ctx.probe(f"agg_{f['agg']}" if f.get("agg") else "agg_none")
        ctx.probe("anchored", f.get("freq", "") in ("ME", "MS", "YE", "YS"))
        ctx.probe("dates_list", "dates" in f)
        lst = list(pd.to_datetime(f.get("dates", [])))
        ctx.probe("dates_unsorted", lst != sorted(set(lst)))
        ctx.probe("three_dim", f["var"] in outputs.GRID_VARS_3D)
        ctx.probe("int_var", f["var"] in outputs.GRID_VARS_INT)
        ctx.probe("nan_in_agg", bool(f.get("agg")) and nan_in)
        ctx.probe("partial_interval_dropped", bool(f.get("agg")) and wd[-1] != m.dates[-1])
        ctx.state(g["format"], g.get("layout"), g.get("append"), f.get("agg"),
                  "dates" if "dates" in f else f.get("freq"), f["var"], nan_in, len(wd) > 1)
    ctx.probe("multi_time_dims", len(keys) > 1)
    for f in g["variables"]:
        for e in hist.expected(f):
            if e[2] is not None:
                ctx.hash_array(f["var"], e[2])
    ctx.event("done", steps)

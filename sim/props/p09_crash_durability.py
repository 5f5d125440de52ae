"""P09: output that was written stays intact when the process dies."""

from ..common import *  # noqa: F403
from ..common import REAL_MODEL, STUB_WORLD, ASSUME
from .. import common, durable

ID = "P09"
PRELOAD = True
LEVEL = "exploration"
N = {"quick": 100, "thorough": 3000}
REAL = REAL_MODEL + ["output managers, xarray, netCDF4/HDF5, GDAL, pandas CSV writer, real files"]
STUB = STUB_WORLD + ["file-system calls below the results directory: preloaded seam (sim/shim.c) which "
                     "kills the process before, within (torn write) or after the n-th operation"]
ASSUMPTIONS = ASSUME + [
    "failure model: death of the process (SIGKILL); what was handed to the kernel survives",
    "an HDF5 file is not readable while it is being modified: the gridded NetCDF file is only "
    "required to be intact when the process dies while it is not writing to it",
]
RULE = (
    "one evaluation = one surviving row group / raster / slice compared with the fault-free history "
    "after a crash at a seeded file operation or step boundary; distinct = (formats, crash mode, kind "
    "of the operation hit, file hit, chunks already durable) classes"
)
REQUIRED_PROBES = ("crash_in_ts_nc", "crash_in_csv", "crash_in_raster", "crash_in_grid_nc",
                   "crash_on_rename", "torn_write", "kill_between_steps", "durable_rows_before_crash",
                   "grid_nc_checked")


def warm(root):
    common.warm(root)


def gen(rng, index, tier):
    spec = durable.gen_case(rng)
    spec["crashes"] = durable.plan(rng, rng.randint(3, 6), ["crash", "crash", "torn", "torn", "kill"])
    return spec


def run(spec, ctx):
    count_faults(ctx, spec)
    c = durable.Case(spec, ctx)
    c.reference(ctx)
    fmt = (spec["out"]["timeseries"]["format"], spec["out"].get("grids", {}).get("format"))
    for i, f in enumerate(spec["crashes"]):
        res = c.newresults()
        seam, r = c.victim(f, res, ctx)
        what = f"crash {i} ({f['mode']} at operation {c.nth(f)} of {c.ops}, {seam.steps} steps done)"
        if r is not None:
            if r[0] == "raise":
                raise Violation(f"exception:{r[1]}", f"{what}: {r[1]}: {r[2]}", traceback=r[3])
            if seam.fired or f["mode"] == "kill" and int(f["frac"] * c.steps) < c.steps:
                raise HarnessError(f"{what}: victim survived")
            c.complete(res, ctx, what)
            continue
        k = seam.steps
        hit = os.path.basename(seam.path)
        in_grid_nc = hit == durable.GRID_FILE
        c.survivors(res, k, ctx, what, grid_nc=not in_grid_nc)
        n1 = c.durable(k)
        ctx.probe("crash_in_grid_nc", in_grid_nc)
        ctx.probe("crash_in_ts_nc", hit.startswith("output_timeseries"))
        ctx.probe("crash_in_csv", hit.endswith(".csv"))
        ctx.probe("crash_in_raster", ".asc" in hit or ".tif" in hit)
        ctx.probe("crash_on_rename", seam.kind == "r")
        ctx.probe("torn_write", f["mode"] == "torn" and seam.kind == "w")
        ctx.probe("kill_between_steps", f["mode"] == "kill")
        ctx.probe("durable_rows_before_crash", n1 > 0)
        ctx.probe("grid_nc_checked", fmt[1] == "netcdf" and not in_grid_nc and k > 0)
        ctx.state(fmt, f["mode"], seam.kind, hit.split("_20")[0], min(n1, 5), min(k, 5))
        ctx.event(i, f["mode"], k, seam.kind, hit)
    for v in sorted(c.phist.rows):
        if c.phist.points:
            ctx.hash_array(v, np.stack(c.phist.rows[v]))

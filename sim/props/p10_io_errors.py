"""P10: file-system errors are never swallowed, and leave earlier output and the process usable."""

import gc

from ..common import *  # noqa: F403
from ..common import REAL_MODEL, STUB_WORLD, ASSUME
from .. import common, durable, proc
from ..fsfault import EIO, FULL, NAMES, SHORT, Seam

ID = "P10"
PRELOAD = True
LEVEL = "exploration"
N = {"quick": 100, "thorough": 3000}
REAL = REAL_MODEL + ["output managers, xarray, netCDF4/HDF5, GDAL, pandas CSV writer, real files"]
STUB = STUB_WORLD + ["file-system calls below the results directory: preloaded seam (sim/shim.c) which "
                     "fails or shortens the n-th operation, or all from the n-th on (disk full)"]
ASSUMPTIONS = ASSUME + [
    "an HDF5 file whose modification failed is not readable: the gridded NetCDF file is only required "
    "to be intact when the failing operation was on another file",
    "the HDF5 library may crash the process or keep a file locked when closing it fails; this is an "
    "error report, not a silent loss",
]
RULE = (
    "one evaluation = one surviving or completed row group / raster / slice compared with the "
    "fault-free history; each fault: the call raises, or all output is complete; data of completed "
    "steps is intact; a new run in the same process and directory after the fault succeeds; distinct "
    "= (formats, fault mode, kind of the operation hit, file hit, outcome) classes"
)
REQUIRED_PROBES = ("raised", "tolerated", "eio", "full", "short", "fault_in_ts_nc", "fault_in_csv",
                   "fault_in_raster", "fault_in_grid_nc", "rerun_same_process_new_dir",
                   "rerun_new_process_same_dir")


def warm(root):
    common.warm(root)


def gen(rng, index, tier):
    spec = durable.gen_case(rng)
    spec["io_faults"] = durable.plan(rng, rng.randint(3, 6), ["eio", "eio", "full", "full", "short"])
    for f in spec["io_faults"]:
        f["rerun"] = rng.pick([None, None, "same_process_new_dir", "new_process_same_dir"])
    return spec


def attempt(c, results, seam):
    """In the victim: meet the fault; returns the reported error."""
    try:
        c.run(results, seam)
        return None
    except Exception as e:  # noqa: BLE001
        return f"{type(e).__name__}: {e}"[:200]


def recover(c, results, what, ctx):
    try:
        c.run(results)
    except Exception as e:  # noqa: BLE001
        raise Violation("no-recovery", f"{what}: a new run after the fault fails with "
                        f"{type(e).__name__}: {e}") from None
    c.complete(results, ctx, f"{what}, new run after the fault")
    return ctx.evaluations


def run(spec, ctx):
    count_faults(ctx, spec)
    c = durable.Case(spec, ctx)
    c.reference(ctx)
    fmt = (spec["out"]["timeseries"]["format"], spec["out"].get("grids", {}).get("format"))
    for i, f in enumerate(spec["io_faults"]):
        res = c.newresults()
        seam = Seam()
        mode = {"eio": EIO, "full": FULL, "short": SHORT}[f["mode"]]
        nth = c.nth(f)
        what = f"fault {i} ({f['mode']} at operation {nth} of {c.ops})"

        def body():
            err = attempt(c, res, seam)
            seam.disarm()
            gc.collect()
            k = seam.steps
            hit = os.path.basename(seam.path)
            if not seam.fired:
                c.complete(res, ctx, f"{what} (not reached)")
            elif err is None:
                c.complete(res, ctx, f"{what} on {hit} (no error reported)")
            if f.get("rerun") == "same_process_new_dir":
                recover(c, c.w.root / f"again{i}", f"{what} on {hit}", ctx)
            return err, ctx.evaluations

        try:
            r = proc.Task(body, lambda: seam.arm(res, mode, nth, f.get("arg", 50))).result()
            if r[0] == "raise":
                raise Violation(f"exception:{r[1]}", f"{what}: {r[1]}: {r[2]}", traceback=r[3])
            err, ctx.evaluations = r[1]
        except proc.Died as d:
            # the HDF5 library may crash when closing a file fails: loud, too
            if not seam.fired:
                raise Violation("died", f"the process died by itself ({d})") from None
            err = f"died ({d})"
            ctx.probe("process_died")
        hit = os.path.basename(seam.path)
        if err:
            c.survivors(res, seam.steps, ctx, f"{what} on {hit} ({seam.steps} steps done)",
                        grid_nc=hit != durable.GRID_FILE)
        if f.get("rerun") == "new_process_same_dir":
            ctx.evaluations = proc.call(lambda: recover(c, res, f"{what} on {hit}", ctx))
        if seam.fired:
            ctx.fault(NAMES[mode], seam.fired if mode == FULL else 1)
            ctx.probe("raised" if err else "tolerated")
            ctx.probe(f["mode"])
            ctx.probe("fault_in_grid_nc", hit == durable.GRID_FILE)
            ctx.probe("fault_in_ts_nc", hit.startswith("output_timeseries"))
            ctx.probe("fault_in_csv", hit.endswith(".csv"))
            ctx.probe("fault_in_raster", ".asc" in hit or ".tif" in hit)
            if f.get("rerun"):
                ctx.probe("rerun_" + f["rerun"])
        ctx.state(fmt, f["mode"], seam.kind, hit.split("_20")[0], bool(err))
        ctx.event(i, f["mode"], seam.steps, seam.kind, hit, bool(err))

"""P25: long runs need constant resources; nothing is left behind."""

import collections
import functools
import gc
import pickle
import signal
import sys
import threading
import weakref

import pandas as pd

from ..common import *  # noqa: F403
from ..common import REAL_MODEL, STUB_WORLD, ASSUME
from .. import common, durable, outputs, proc
from ..core import Ctx
from ..fsfault import EIO, FULL, NAMES, RDERR, RDOPEN, RDSHORT, SHORT, Seam

ID = "P25"
PRELOAD = True
LEVEL = "exploration"
N = {"quick": 110, "thorough": 2500}
REAL = REAL_MODEL + ["input readers and output managers, xarray, netCDF4/HDF5, GDAL, pandas, real files",
                     "the process: descriptors, mappings, threads and children as the kernel reports them"]
STUB = STUB_WORLD + ["file-system calls below the input and results directories: preloaded seam (sim/shim.c)"]
ASSUMPTIONS = ASSUME + [
    "retained state = everything reachable from the instance, and the pickled instance; growth = strictly "
    "larger at the end of every write interval after the first day (the canopy averages over 24 h)",
    "a failed operation on a NetCDF file may keep that file open (HDF5)",
    "cycles are freed by the garbage collector before resources are counted",
]
RULE = (
    "one evaluation = one resource count (open files and mappings, threads, children, temporary files, "
    "module-level containers, size of the retained state, liveness of a discarded instance) at the end "
    "of an initialisation, step, write interval, failed operation or life of an instance; "
    "distinct = (snow model, input and output formats, mode, outcome) classes"
)
REQUIRED_PROBES = ("long", "output_error", "input_error", "several_intervals", "canopy", "csv_input",
                   "netcdf_input", "memory_input", "callback_input", "csv", "netcdf_ts", "raster",
                   "netcdf_grid", "svf_computed", "discarded", "raised_output", "raised_input", "failing_callback")
SLACK = 64


def warm(root):
    common.warm(root)


def gen(rng, index, tier):
    spec = durable.gen_case(rng)
    mode = rng.pick(["long", "long", "long", "output_error", "input_error"])
    spec["mode"] = mode
    g = spec["grid"]
    g["forest"] = rng.chance(0.5)
    spec["cfg"] = gen_physics_cfg(rng, spec, canopy=rng.chance(0.3), et=rng.chance(0.3))
    spec["cfg"].pop("extend_roi_with_stations", None)
    if rng.chance(0.25):
        g["svf"], g["nan"] = "compute", 0
        g["rows"], g["cols"] = max(4, g["rows"]), max(4, g["cols"])
    spec["meteo"] = rng.pick(["memory", "netcdf", "csv", "callback"])
    if mode == "long":
        per = rng.randint(2, 5)
        ts = outputs.td(spec["time"]["timestep"])
        day = max(1, int(pd.Timedelta("1D") / ts))
        if day > 8:  # the canopy window has to be full in time
            per = rng.randint(3, 8)
        n = day + per * rng.randint(7, 9)
        spec["time"]["steps"] = n
        spec["weather"]["n"] = n + 64
        spec["faults"] = gen_sensor_faults(rng, spec, rate=1.0) if rng.chance(0.6) else []
        from .p07_gridded_output import mult

        spec["out"]["timeseries"]["write_freq"] = mult(ts, per)
    else:
        spec["faults"] = []
        spec["io_faults"] = []
        for _ in range(rng.randint(3, 5)):
            if mode == "output_error":
                f = durable.plan(rng, 1, ["eio", "eio", "full", "short"])[0]
                f["on"] = rng.pick(["results", "results", "grids"])
            else:
                f = {"mode": rng.pick(["read_error", "short_read", "open_error", "missing", "empty",
                                       "callback"]),
                     "at": round(rng.random(), 4), "arg": rng.pick([1, 5, 13, 24])}
            spec["io_faults"].append(f)
    return spec


# ---------------------------------------------------------------- what the process holds


def open_files(root):
    """Open descriptors (all but the shim's) and mappings of files below root."""
    out = []
    for fd in os.listdir("/proc/self/fd"):
        try:
            out.append(os.readlink(f"/proc/self/fd/{fd}"))
        except OSError:
            pass
    out = [p for p in out if not p.startswith("/proc/")]
    with open("/proc/self/maps") as f:
        out += ["map:" + line.split(None, 5)[5].strip() for line in f if str(root) in line]
    return sorted(out)


def containers():
    """Sizes of the containers and caches that live in the modules of the package."""
    out = {}
    for name, mod in sorted(sys.modules.items()):
        if name != "openamundsen" and not name.startswith("openamundsen."):
            continue
        objs = dict(vars(mod))
        for k, v in list(objs.items()):
            if isinstance(v, type) and getattr(v, "__module__", "").startswith("openamundsen"):
                objs.update({f"{k}.{a}": b for a, b in list(vars(v).items())})
            elif callable(v) and hasattr(v, "__dict__") and getattr(
                    v, "__module__", "").startswith("openamundsen") and not hasattr(v, "py_func"):
                objs.update({f"{k}.{a}": b for a, b in list(vars(v).items())})
        for k, v in objs.items():
            if k.startswith("__"):
                continue
            if isinstance(v, (list, dict, set, bytearray)) and not isinstance(v, type(os.environ)):
                out[f"{name}.{k}"] = weight(v)
            elif isinstance(getattr(v, "cache_info", None), functools.partial) or hasattr(
                    v, "cache_info"):
                try:
                    out[f"{name}.{k}"] = v.cache_info().currsize
                except Exception:  # noqa: BLE001
                    pass
    return out


def weight(v, depth=0):
    if depth > 3:
        return 1
    if isinstance(v, dict):
        return 1 + sum(weight(x, depth + 1) for x in list(v.values()))
    if isinstance(v, (list, set, tuple)):
        return 1 + sum(weight(x, depth + 1) for x in list(v))
    if isinstance(v, np.ndarray):
        return 1 + v.size
    if isinstance(v, (str, bytes, bytearray)):
        return 1 + len(v)
    return 1


def extent(m):
    """Sizes of everything an instance holds: path -> number of elements."""
    out, seen, todo = {}, set(), [("model", m)]
    while todo:
        path, v = todo.pop()
        if v is None or isinstance(v, (bool, int, float, np.generic, type)) or callable(v) or id(v) in seen:
            continue
        seen.add(id(v))
        if isinstance(v, (str, bytes, bytearray)):
            out[path] = out.get(path, 0) + len(v)
        elif isinstance(v, np.ndarray):
            out[path] = out.get(path, 0) + v.size
        elif isinstance(v, dict):
            out[path] = out.get(path, 0) + len(v)
            todo += [(f"{path}.{k}" if isinstance(k, str) else f"{path}[]", x) for k, x in v.items()]
        elif isinstance(v, (list, tuple, set, frozenset, collections.deque)):
            out[path] = out.get(path, 0) + len(v)
            todo += [(f"{path}[]", x) for x in v]
        elif type(v).__module__.startswith("openamundsen") and hasattr(v, "__dict__"):
            todo += [(f"{path}.{k}", x) for k, x in vars(v).items()]
        elif hasattr(v, "nbytes"):
            out[path] = out.get(path, 0) + int(v.nbytes)
        elif type(v).__module__.split(".")[0] not in ("pandas", "numpy", "xarray", "logging", "rasterio",
                                                      "affine", "pyproj") and hasattr(v, "__dict__"):
            todo += [(f"{path}.{k}", x) for k, x in vars(v).items()]
        elif hasattr(v, "__len__"):
            out[path] = out.get(path, 0) + len(v)
    return out


POOLS = 24  # thread pools which numerical libraries start when they are first used (numpy, scipy, numba)


def holdings(root):
    return {"files": open_files(root), "threads": threading.active_count(),
            "native": len(os.listdir("/proc/self/task")),
            "containers": containers(), "children": children()}


def children():
    try:
        with open(f"/proc/self/task/{os.getpid()}/children") as f:
            return len(f.read().split())
    except OSError:
        return 0


def check_holdings(ref, root, what, ctx, allow=()):
    got = holdings(root)
    if any(got[k] != ref[k] for k in ("files", "children")):
        gc.collect()
        got = holdings(root)
    extra = list(got["files"])
    for p in ref["files"]:
        if p in extra:
            extra.remove(p)
    extra = [p for p in extra if not any(p.removesuffix(" (deleted)").endswith(a) for a in allow)]
    if extra:
        raise Violation("open-files", f"{what}: {os.path.basename(extra[0])} is still open "
                        f"({len(extra)} descriptors or mappings more than before)")
    if got["children"] > ref["children"]:
        raise Violation("children", f"{what}: a child process is left over")
    if got["threads"] > ref["threads"]:
        raise Violation("threads", f"{what}: {got['threads']} Python threads instead of {ref['threads']}")
    if got["native"] > ref["native"] + POOLS:
        raise Violation("threads", f"{what}: {got['native']} threads instead of {ref['native']}")
    ctx.ok(3)
    return got


def check_caches(ref, what, ctx):
    got = containers()
    for k, v in got.items():
        if k in ref and v > ref[k]:
            raise Violation("module-growth", f"{what}: {k} grew from {ref[k]} to {v}")
    ctx.ok()


def check_files(c, results, grids, tmp, what, ctx, complete=True):
    """No temporary files; nothing but the configured output."""
    for d in (grids, tmp):
        for p in sorted(d.rglob("*")):
            if p.is_file() and p not in c.known:
                if d == grids and p.suffix == ".asc" and "svf" in p.name:
                    continue
                raise Violation("leftover-file", f"{what}: {p.name} is left behind")
    for p in sorted(results.rglob("*")) if results.exists() else ():
        if p.is_file() and p.suffix not in (".nc", ".csv", ".asc", ".tif"):
            raise Violation("leftover-file", f"{what}: {p.name} is left behind in the results "
                            "directory")
    ctx.ok(2)


# ---------------------------------------------------------------- run


class Setup:
    def __init__(self, spec, ctx):
        self.spec = spec
        self.w = World(spec, ctx.newdir("w"))
        self.grids = self.w.write_grids(self.w.root / "in" / "g")
        self.tmp = ctx.newdir("tmp")
        self.recs = self.w.records()
        self.fmt = spec["meteo"]
        self.src = self.w.root / "in"
        d = self.src / "m"
        if self.fmt == "netcdf":
            self.w.write_netcdf(d, self.recs)
        elif self.fmt == "csv":
            self.w.write_csv(d, self.recs)
        self.ds = self.w.dataset(self.recs)
        self.extra = {"output_data": spec["out"], "input_data": {"meteo": {"format": self.fmt}}}
        if self.fmt in ("netcdf", "csv"):
            self.extra["input_data"]["meteo"].update(dir=str(d), bounds="global")
        self.known = {p for p in self.src.rglob("*") if p.is_file()}
        self.n = 0
        self.hdf = set()

    def results(self):
        self.n += 1
        return self.w.root / f"r{self.n}"

    def model(self, results, callback=None):
        return new_model(self.w, self.grids, results, self.extra,
                         meteo=self.ds.copy(deep=True) if self.fmt == "memory" else None,
                         callback=callback or coupled)


def coupled(m):
    """A coupled program that writes the interpolated fields itself."""
    s = m.state.meteo
    roi = m.grid.roi
    k = m.date_idx
    s.temp[roi] = 268.0 + 4.0 * ((k % 7) / 3.0)
    s.precip[roi] = 1.5 if k % 3 == 0 else 0.0
    s.rel_hum[roi] = 70.0 + k % 5
    s.wind_speed[roi] = 2.0
    s.sw_in[roi] = 150.0
    s.sw_out[roi] = 0.0


class Boom(Exception):
    pass


def run(spec, ctx):
    count_faults(ctx, spec)
    c = Setup(spec, ctx)
    import tempfile

    tempfile.tempdir = str(c.tmp)
    os.environ["TMPDIR"] = str(c.tmp)
    ctx.probe(spec["mode"])
    ctx.probe(c.fmt + "_input")
    out = spec["out"]
    grid_fmt = out.get("grids", {}).get("format")
    ctx.probe("csv", out["timeseries"]["format"] == "csv")
    ctx.probe("netcdf_ts", out["timeseries"]["format"] == "netcdf")
    ctx.probe("raster", grid_fmt in ("ascii", "geotiff"))
    ctx.probe("netcdf_grid", grid_fmt == "netcdf")
    ctx.probe("svf_computed", spec["grid"]["svf"] == "compute")
    ctx.probe("canopy", bool(spec["cfg"].get("canopy", {}).get("enabled")))
    if spec["mode"] == "long":
        outcome = long_run(spec, c, ctx)
    else:
        outcome = faulty(spec, c, ctx)
    ctx.state(spec["cfg"]["snow"]["model"], c.fmt, out["timeseries"]["format"], grid_fmt, spec["mode"],
              outcome)


def life(c, ctx, steps=None):
    """One undisturbed instance."""
    m = c.model(c.results())
    for _ in range(min(steps or len(m.dates), len(m.dates))):
        m.run_single()
    del m
    gc.collect()


def long_run(spec, c, ctx):
    life(c, ctx, 2)  # what libraries keep for ever once they are used
    gc.collect()
    before = holdings(c.w.root)
    r = c.results()
    m = c.model(r)
    check_holdings(before, c.w.root, "after the initialisation", ctx)
    check_files(c, r, c.grids, c.tmp, "after the initialisation", ctx)
    n = len(m.dates)
    has_ts = bool(m.point_output.points)
    wf = spec["out"]["timeseries"]["write_freq"]
    due = [outputs.ref_point_durable(m.dates, wf, k + 1) == k + 1 for k in range(n - 1)] + [True]
    day = int(np.ceil(86400 / c.w.ts_seconds))
    ends = []
    caches = None
    for k in range(n):
        m.run_single()
        account(ctx, c.w, spec)
        what = f"step {k}"
        check_holdings(before, c.w.root, what, ctx)
        if (due[k] or not has_ts) and k >= day:
            ends.append((k, extent(m), len(pickle.dumps(m, protocol=4))))
        if caches is None and k >= 2:
            caches = containers()
        elif caches is not None:
            check_caches(caches, what, ctx)
    # the state after the write intervals: nothing grows from one to the next all the time
    ends = ends[1:-1]
    if len(ends) >= 4:
        ctx.probe("several_intervals")
        for path in sorted(ends[-1][1]):
            v = [e[1].get(path, 0) for e in ends]
            ctx.ok()
            if all(x < y for x, y in zip(v, v[1:])):
                raise Violation("state-growth", f"{path} grows: {v[:6]} elements after the steps "
                                f"{[e[0] for e in ends[:6]]} (write interval {wf})")
        v = [e[2] for e in ends]
        if all(x < y for x, y in zip(v, v[1:])) and v[-1] - v[0] > SLACK:
            raise Violation("state-growth", f"the retained state grows: {v[:6]} bytes after the steps "
                            f"{[e[0] for e in ends[:6]]} (write interval {wf})")
    check_files(c, r, c.grids, c.tmp, "after the run", ctx)
    ctx.event(n, len(ends))
    for v in ("snow.swe", "meteo.temp"):
        ctx.hash_array(v, m.state[v])
    ref = weakref.ref(m)
    m = None
    gc.collect()
    if ref() is not None:
        raise Violation("instance-kept", "the discarded instance is still alive")
    ctx.probe("discarded")
    ctx.ok()
    check_holdings(before, c.w.root, "after discarding the instance", ctx)
    return "long"


def faulty(spec, c, ctx):
    """All faults, one after another in one process (a child: the HDF5 library may crash after a file
    operation of a NetCDF file failed)."""
    c.seams = [Seam() for _ in spec["io_faults"]]

    def body():
        sub = Ctx(ctx.scratch / "child")
        return faults(spec, c, sub), sub.result()

    try:
        r = proc.Task(body).result()
    except proc.Died as d:
        if d.signal not in (signal.SIGSEGV, signal.SIGABRT) or not any(
                s.fired and is_hdf(s) for s in c.seams):
            raise Violation("died", f"the process died by itself ({d})") from None
        ctx.probe("process_died")
        ctx.event("died")
        return "died"
    if r[0] == "raise":
        raise Violation(f"exception:{r[1]}", f"unexpected {r[1]}: {r[2]}", traceback=r[3])
    out, res = r[1]
    ctx.event(res["digest"])
    for k, v in res["faults"].items():
        ctx.fault(k, v)
    for k, v in res["probes"].items():
        ctx.probe(k, v)
    ctx.steps += res["steps"]
    ctx.sim_seconds += res["sim_seconds"]
    ctx.ok(res["evaluations"])
    return out


def faults(spec, c, ctx):
    life(c, ctx, 2)  # what libraries keep for ever once they are used
    before = holdings(c.w.root)
    res = []
    for i, f in enumerate(spec["io_faults"]):
        what = f"fault {i} ({f['mode']})"
        res.append(one(spec, c, ctx, f, i, what, before))
    return str(sorted(set(map(str, res))))


def is_hdf(seam):
    """Whether the file operation that failed may be one of the HDF5 library (whatever temporary name is used)."""
    return not seam.path.endswith((".csv", ".asc", ".tif")) and "svf" not in os.path.basename(seam.path)


def one(spec, c, ctx, f, i, what, before):
    r = c.results()
    seam = c.seams[i]
    total = Seam()
    undo = None
    callback = None
    svf = c.grids / f"svf_sim_{c.w.res}.asc"
    on_grids = f.get("on") == "grids"
    if on_grids:
        if spec["grid"]["svf"] != "compute":
            return None
        svf.unlink(missing_ok=True)
    if f["mode"] in ("eio", "full", "short"):
        mode = {"eio": EIO, "full": FULL, "short": SHORT}[f["mode"]]
        target = c.grids if on_grids else r

        # count the operations of an undisturbed life
        def count():
            total.arm(target)
            try:
                m = c.model(r)
                if not on_grids:
                    while m.date_idx is None or m.date_idx < len(m.dates) - 1:
                        m.run_single()
            finally:
                total.disarm()

        proc.call(count)
        if on_grids:
            svf.unlink(missing_ok=True)
        if not total.ops:
            return None
        import shutil

        shutil.rmtree(r, ignore_errors=True)
        seam.arm(target, mode, min(total.ops - 1, int(f["frac"] * total.ops)), f.get("arg", 50))
    elif f["mode"] == "callback":
        if c.fmt != "callback":
            return None

        def callback(m, at=f["arg"] % max(1, spec["time"]["steps"])):
            coupled(m)
            if m.date_idx == at:
                raise Boom("coupled program failed")
    elif f["mode"] in ("missing", "empty"):
        cand = sorted(p for p in c.known if p.exists() and (p.suffix in (".nc",) or "dem" in p.name))
        p = cand[int(f["at"] * len(cand))]
        orig = p.read_bytes()
        if f["mode"] == "missing" and "dem" in p.name:
            p.unlink()
        else:
            p.write_bytes(b"")

        def undo():
            p.write_bytes(orig)
    else:
        if c.fmt not in ("netcdf", "csv"):
            return None

        def count():
            total.arm(c.src / "m")
            m = c.model(r)
            total.disarm()
            del m

        proc.call(count)
        n = total.ropens if f["mode"] == "open_error" else total.reads
        if not n:
            return None
        import errno

        mode = {"read_error": RDERR, "short_read": RDSHORT, "open_error": RDOPEN}[f["mode"]]
        seam.arm(c.src / "m", mode, int(f["at"] * n), errno.EIO if mode == RDOPEN else 50)
    err = None
    m = None
    try:
        m = c.model(r, callback)
        for _ in range(len(m.dates)):
            m.run_single()
    except Exception as e:  # noqa: BLE001
        err = type(e).__name__
        e.__traceback__ = None
        e.__context__ = e.__cause__ = None
        del e
    finally:
        seam.disarm()
        if undo:
            undo()
    gc.collect()
    hit = os.path.basename(seam.path)
    hdf = is_hdf(seam)
    what = f"{what} on {hit} ({'raised ' + err if err else 'no error'})"
    if hdf:
        c.hdf.add(hit)
    allow = tuple(c.hdf)
    check_holdings(before, c.w.root, what, ctx, allow)
    check_files(c, r, c.grids, c.tmp, what, ctx)
    ref = weakref.ref(m) if m is not None else None
    m = None
    gc.collect()
    if ref is not None and ref() is not None:
        raise Violation("instance-kept", f"{what}: the discarded instance is still alive")
    check_holdings(before, c.w.root, f"{what}, discarded", ctx, allow)
    if seam.fired:
        ctx.fault(NAMES[mode], 1)
    elif f["mode"] in ("missing", "empty"):
        ctx.fault(f"input_{f['mode']}")
    elif f["mode"] == "callback":
        ctx.fault("failing_callback")
        ctx.probe("failing_callback")
    if err:
        ctx.probe("raised_output" if f["mode"] in ("eio", "full", "short") else "raised_input")
    ctx.event(i, f["mode"], hit, err)
    ctx.steps += spec["time"]["steps"]
    return f["mode"], bool(err), hit.rsplit(".", 1)[-1]

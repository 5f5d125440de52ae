"""Crash and I/O-fault scenarios of the output side: a fault-free reference execution, victims which
meet one planned fault, and the oracle for what has to be on disk afterwards."""

import copy
import gc
import io
import os
import signal

import numpy as np
import pandas as pd
import xarray as xr

from . import outputs, proc
from .core import HarnessError, Violation
from .fsfault import CRASH, EIO, FULL, NAMES, NONE, SHORT, TORN, Seam  # noqa: F401
from .world import World, gen_physics_cfg, gen_sensor_faults, gen_world, new_model

GRID_FILE = "output_grids.nc"
TS_FILE = "output_timeseries.nc"
EXT = {"ascii": "asc", "geotiff": "tif"}


def gen_case(rng, ts_fmt=None):
    from .props.p07_gridded_output import gen_fields
    from .props.p08_point_output import gen_timeseries

    ts = rng.pick(["h", "3h", "6h", "D", "12h"])
    steps = rng.randint(4, 16)
    spec = gen_world(rng, rows=rng.randint(2, 4), cols=rng.randint(2, 4), steps=steps, timestep=ts,
                     svf="file", n_stations=rng.randint(1, 3))
    spec["cfg"] = gen_physics_cfg(rng, spec, canopy=False, et=False)
    spec["cfg"].pop("extend_roi_with_stations", None)
    if rng.chance(0.3):
        spec["faults"] = gen_sensor_faults(rng, spec, rate=1.0)
    out = {}
    t = gen_timeseries(rng, spec, fmt=ts_fmt or rng.pick(["netcdf", "csv"]))
    if not t["points"]:
        g = spec["grid"]
        from .world import CRS

        t["points"] = [{"x": CRS[g["crs"]]["x0"] + 0.5 * g["res"],
                        "y": CRS[g["crs"]]["y0"] + 0.5 * g["res"]}]
    if rng.chance(0.75):  # several chunks
        from .props.p07_gridded_output import mult

        t["write_freq"] = mult(outputs.td(ts), rng.randint(1, max(1, steps // 2)))
    out["timeseries"] = t
    fmt = rng.pick(["netcdf", "netcdf", "ascii", "geotiff", None])
    if fmt:
        g = {"format": fmt, "variables": gen_fields(rng, spec, spec["cfg"]["snow"]["model"],
                                                    n=rng.randint(1, 3))}
        if fmt == "netcdf":
            g["append"] = rng.chance(0.5)
            if rng.chance(0.4):
                g["layout"] = "roi_pixel"
        out["grids"] = g
    spec["out"] = out
    return spec


class GridView:
    """A GridHistory as of `done` completed steps."""

    def __new__(cls, hist, done):
        h = copy.copy(hist)
        h.hist = {k: v[:done] for k, v in hist.hist.items()}
        return h


class Case:
    """World, inputs and reference execution of a spec."""

    def __init__(self, spec, ctx, name="w"):
        self.spec = spec
        self.w = World(spec, ctx.newdir(name))
        self.grids = self.w.write_grids(self.w.root / "g")
        self.meteo = self.w.dataset()
        self.out = spec["out"]
        self.n = 0

    def model(self, results):
        return new_model(self.w, self.grids, results, {"output_data": self.out},
                         meteo=self.meteo.copy(deep=True))

    def newresults(self, name="v"):
        self.n += 1
        return self.w.root / f"{name}{self.n}"

    def reference(self, ctx):
        """Fault-free run in this process; records the history and counts the file operations."""
        r = self.newresults("ref")
        seam = Seam()
        seam.arm(r)
        try:
            m = self.model(r)
            g = self.out.get("grids")
            self.ghist = outputs.GridHistory(m, g["variables"]) if g else None
            self.phist = outputs.PointHistory(m, self.w, self.out["timeseries"])
            self.transform = m.grid.transform
            self.mg = {"x": m.grid.X[0, :].copy(), "y": m.grid.Y[:, 0].copy()}
            self.dates = m.dates
            self.ops_at = [seam.ops]
            for _ in range(len(m.dates)):
                m.run_single()
                if self.ghist is not None:
                    self.ghist.record(m)
                self.phist.record(m)
                self.ops_at.append(seam.ops)
                ctx.sim_seconds += self.w.ts_seconds
                ctx.steps += 1
        finally:
            seam.disarm()
        del m
        gc.collect()
        self.steps = len(self.dates)
        self.ops = self.ops_at[-1]
        self.log = seam.s.log.decode()
        self.complete(r, ctx, "reference run")
        return r

    # ---------------------------------------------------------------- oracle

    def durable(self, k):
        t = self.out["timeseries"]
        return outputs.ref_point_durable(self.dates, t.get("write_freq", "ME"), k) if k else 0

    def complete(self, results, ctx, what):
        """Everything a finished run owes."""
        self.check_points(results, self.steps, self.steps, ctx, what)
        self.check_grids(results, self.steps, self.steps, ctx, what)

    def survivors(self, results, k, ctx, what, grid_nc=True):
        """What has to be there after k completed steps and an unknown part of step k."""
        k2 = min(k + 1, self.steps)
        self.check_points(results, k, k2, ctx, what)
        self.check_grids(results, k, k2, ctx, what, nc=grid_nc)

    def check_points(self, results, k, k2, ctx, what):
        if not self.phist.points:
            return
        n1, n2 = self.durable(k), self.durable(k2)
        if self.out["timeseries"]["format"] == "netcdf":
            p = results / TS_FILE
            if n1 == 0 and k < self.steps:
                return  # nothing is owed yet; a first chunk may be torn
            if not p.exists():
                raise Violation("durable-missing", f"{what}: {TS_FILE} does not exist although {n1} "
                                "steps had been written")
            try:
                with xr.open_dataset(p) as ds:
                    ds = ds.load()
            except Exception as e:  # noqa: BLE001
                raise Violation("durable-unreadable", f"{what}: {TS_FILE} is unreadable although "
                                f"{n1} steps had been written ({type(e).__name__})") from None
            rows = ds.sizes["time"]
            if rows not in (n1, n2):
                raise Violation("durable-rows", f"{what}: {TS_FILE} holds {rows} rows, {n1} or {n2} "
                                "are due")
            outputs.check_point_dataset(ds, self.phist, rows, ctx, what)
        else:
            for i, name in enumerate(self.phist.points):
                self.check_csv(results / f"point_{name}.csv", i, n1, n2, ctx, what)

    def check_csv(self, path, i, n1, n2, ctx, what):
        h = self.phist
        if n1 == 0:
            return
        if not path.exists():
            raise Violation("durable-missing", f"{what}: {path.name} does not exist although {n1} "
                            "steps had been written")
        text = path.read_bytes()
        cut = text.rfind(b"\n") + 1
        torn = text[cut:]
        if torn and n1 == n2:
            raise Violation("durable-torn", f"{what}: {path.name} ends with half a line although no "
                            "write was due")
        df = pd.read_csv(io.BytesIO(text[:cut]), index_col=0, skip_blank_lines=False)
        idx = list(pd.to_datetime(df.index, format="ISO8601"))
        if len(idx) < n1:
            raise Violation("durable-rows", f"{what}: {path.name} holds {len(idx)} rows, {n1} had "
                            "been written")
        if idx != list(h.dates[: len(idx)]) or len(idx) > n2:
            raise Violation("durable-rows", f"{what}: {path.name} holds {len(idx)} rows ({n1}..{n2} "
                            "are due) or foreign dates")
        for out in h.vars:
            ref = np.stack(h.rows[out][: len(idx)])[..., i]
            cols = [out] if ref.ndim == 1 else [f"{out}{k}" for k in range(ref.shape[1])]
            if ref.ndim == 1:
                ref = ref[:, None]
            if any(c not in df.columns for c in cols):
                raise Violation("durable-columns", f"{what}: {path.name} lacks {cols}")
            outputs.cmp(df[cols].values, ref, out, f"{what} {path.name}", h)
            ctx.ok()

    def check_grids(self, results, k, k2, ctx, what, nc=True):
        g = self.out.get("grids")
        if not g:
            return
        if g["format"] in EXT:
            ext = EXT[g["format"]]
            due = outputs.raster_files(GridView(self.ghist, k), ext)
            for name, (a, f) in sorted(due.items()):
                p = results / name
                if not p.exists():
                    raise Violation("durable-missing", f"{what}: {name} does not exist")
                try:
                    got, tr = outputs.read_raster(p)
                except Violation:
                    raise
                except Exception as e:  # noqa: BLE001
                    raise Violation("durable-unreadable", f"{what}: {name} is unreadable "
                                    f"({type(e).__name__})") from None
                ref, v = a, np.asarray(got, float)
                if a.dtype.kind == "i":
                    v, ref = v[self.ghist.roi], a[self.ghist.roi]
                tol = {"rtol": 2e-5, "atol": 1e-6} if p.suffix == ".asc" else {}
                if not outputs.close(v, np.asarray(ref, float), **tol):
                    raise Violation("durable-value", f"{what}: {name}: {outputs.worst(v, ref)}")
                ctx.ok()
            return
        if not nc or k == 0:
            return
        if not any(outputs.ref_write_dates(self.dates, f) for f in self.ghist.fields):
            return
        p = results / GRID_FILE
        if not p.exists():
            raise Violation("durable-missing", f"{what}: {GRID_FILE} does not exist")
        try:
            with xr.open_dataset(p) as ds:
                ds = ds.load()
        except Exception as e:  # noqa: BLE001
            raise Violation("durable-unreadable", f"{what}: {GRID_FILE} is unreadable "
                            f"({type(e).__name__})") from None
        err = None
        for kk in dict.fromkeys((k, k2)):
            try:
                outputs.check_grid_dataset(ds, GridView(self.ghist, kk), self.mg,
                                           g.get("layout", "grid"), ctx=ctx, what=what,
                                           done_only=bool(g.get("append")))
                return
            except Violation as v:
                err = err or v
        raise err

    # ---------------------------------------------------------------- victims

    def run(self, results, seam=None, stop_after=None):
        """One execution; returns the number of completed steps (also in the seam)."""
        m = self.model(results)
        for k in range(len(m.dates)):
            if stop_after is not None and k == stop_after:
                os.kill(os.getpid(), signal.SIGKILL)
            m.run_single()
            if seam is not None:
                seam.s.steps = k + 1
        return len(m.dates)

    def nth(self, f):
        """Operation index of a planned fault: a fraction of all operations, or of those of one
        kind (open, write, truncate, rename, unlink, close)."""
        if "kind" in f and self.ops:
            kinds = sorted(set(self.log))
            k = kinds[int(f["kind"] * len(kinds))]
            idx = [i for i, c in enumerate(self.log) if c == k]
            return idx[int(f["frac"] * len(idx))]
        return min(self.ops - 1, int(f["frac"] * self.ops)) if self.ops else 0

    def victim(self, f, results, ctx, grids=None):
        """Fork a process which meets the fault f; returns (seam, result tuple or None if dead)."""
        seam = Seam()
        mode = {"crash": CRASH, "torn": TORN, "eio": EIO, "full": FULL, "short": SHORT,
                "kill": NONE}[f["mode"]]
        stop = int(f["frac"] * self.steps) if f["mode"] == "kill" else None

        def pre():
            seam.arm(results if grids is None else grids, mode,
                     self.nth(f) if mode != NONE else 1 << 60, f.get("arg", 50))

        task = proc.Task(lambda: self.run(results, seam, stop), pre)
        try:
            res = task.result()
        except proc.Died as d:
            if d.signal != signal.SIGKILL or not (seam.fired or stop is not None):
                raise Violation("died", f"the process died by itself ({d})") from None
            res = None
        if f["mode"] == "kill":
            ctx.fault("kill_between_steps")
        elif seam.fired:
            ctx.fault(NAMES[mode], seam.fired if mode in (FULL,) else 1)
        return seam, res


def plan(rng, n, modes):
    out = []
    for _ in range(n):
        f = {"mode": rng.pick(modes), "frac": round(rng.random(), 4)}
        if f["mode"] in ("torn", "short"):
            f["arg"] = rng.pick([0, 1, 10, 50, 90, 99])
        if f["mode"] != "kill" and rng.chance(0.5):
            f["kind"] = round(rng.random(), 4)
        out.append(f)
    return out

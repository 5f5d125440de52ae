"""Reference model of the output side: what the files of a run have to contain, computed from the
recorded history of the model state only (no code of the output managers is used)."""

from pathlib import Path

import numpy as np
import pandas as pd
import xarray as xr

from .core import Violation

GRID_VARS_2D = ["meteo.temp", "meteo.precip", "meteo.snowfall", "snow.swe", "snow.depth", "snow.melt",
                "meteo.sw_in", "surface.temp", "meteo.rel_hum", "snow.albedo", "snow.runoff"]
GRID_VARS_3D = ["soil.temp", "snow.thickness", "snow.ice_content", "snow.temp", "snow.density"]
GRID_VARS_INT = ["snow.num_layers"]  # multilayer only


def td(freq):
    return pd.Timedelta({"D": "1D", "h": "1h"}.get(freq, freq))


# ------------------------------------------------------------------ gridded: write dates


def ref_write_dates(dates, field):
    """Dates at which a gridded output field has to be written: naive per-date rules."""
    ts = dates[1] - dates[0] if len(dates) > 1 else None
    agg = field.get("agg") is not None
    lo, hi = dates[0], dates[-1]
    if "dates" in field:
        return [d for d in sorted(set(pd.to_datetime(field["dates"]))) if lo <= d <= hi]
    freq = field.get("freq")
    if freq is None:
        return list(dates)
    if freq in ("MS", "YS", "ME", "YE"):
        def period(d):
            return (d.year, d.month) if freq[0] == "M" else (d.year,)

        if agg or freq[1] == "E":
            return [d for d in dates if period(d) != period(d + ts)]
        return [d for d in dates if period(d) != period(d - ts)]
    n = int(td(freq) / ts)
    return [d for i, d in enumerate(dates) if (i + 1) % n == 0] if agg else [
        d for i, d in enumerate(dates) if i % n == 0
    ]


class GridHistory:
    """Records the fields of every completed step (taken from the public model state)."""

    def __init__(self, model, fields):
        self.roi = model.grid.roi.copy()
        self.fields = fields
        self.hist = {f["var"]: [] for f in fields}
        self.dates = model.dates

    def record(self, model):
        for v in self.hist:
            cat, name = v.split(".")
            self.hist[v].append(np.array(model.state[cat][name], copy=True))

    def __len__(self):
        return len(next(iter(self.hist.values()))) if self.hist else 0

    def expected(self, field):
        """[(start, date, array float64 or int)] of everything due so far; plus the list of all
        configured dates."""
        done = len(self)
        wd = ref_write_dates(self.dates, field)
        out = []
        prev = -1
        idx = {d: i for i, d in enumerate(self.dates)}
        agg = field.get("agg")
        h = self.hist[field["var"]]
        for d in wd:
            i = idx.get(d)
            if i is None:
                out.append((None, d, None))  # never reached: stays empty
                continue
            if i >= done:
                out.append((None, d, None))
                continue
            if agg is None:
                out.append((d, d, h[i]))
            else:
                arr = np.stack([a.astype(float) if agg == "mean" else a for a in h[prev + 1 : i + 1]])
                val = arr.sum(axis=0) if agg == "sum" else arr.mean(axis=0)
                if val.dtype.kind == "f":
                    val = np.where(self.roi, val, np.nan)
                out.append((self.dates[prev + 1], d, val))
            prev = i
        return out


def close(a, b, rtol=1e-7, atol=1e-30):
    """Equal up to one rounding to single precision."""
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and np.allclose(a, b, rtol=rtol, atol=atol, equal_nan=True)


def name_of(field):
    return field.get("name") or field["var"].split(".")[-1]


def check_grid_dataset(ds, hist, model_grid, layout, done_only=False, ctx=None, what="", coords=True,
                       exact=True, roi_only=False):
    """Compare an opened gridded output dataset with the reference."""
    roi = hist.roi
    names = {name_of(f) for f in hist.fields if ref_write_dates(hist.dates, f)}
    have = set(ds.data_vars)
    if names != {n for n in have if not n.endswith("_bounds")}:
        raise Violation("output-variables", f"{what}: variables {sorted(have)} instead of "
                        f"{sorted(names)}")
    if coords:
        if layout == "grid":
            if not (np.allclose(ds.x.values, model_grid["x"]) and np.allclose(ds.y.values,
                                                                           model_grid["y"])):
                raise Violation("output-coords", f"{what}: x/y coordinates do not match the grid")
        elif not np.array_equal(ds.pixel.values, np.flatnonzero(roi)):
            raise Violation("output-coords", f"{what}: pixel indices do not match the ROI")
    for f in hist.fields:
        exp = hist.expected(f)
        if not exp:
            continue
        n = name_of(f)
        v = ds[n]
        tdim = v.dims[0]
        times = pd.DatetimeIndex(ds[tdim].values)
        if done_only:  # file grows with the run: exactly what is due
            last = max([k for k, e in enumerate(exp) if e[2] is not None], default=-1)
            exp = exp[: last + 1]
            times, v = times[: last + 1], v[: last + 1]
            pick = [k for k, e in enumerate(exp) if e[2] is not None]
            if len(times) != len(exp) or [times[k] for k in pick] != [exp[k][1] for k in pick]:
                raise Violation("output-times", f"{what}: {n} has times {list(times)} instead of "
                                f"{[e[1] for e in exp]}", field=n)
        elif list(times) != [e[1] for e in exp]:
            raise Violation("output-times", f"{what}: {n} has times {list(times)[:6]}.. instead of "
                            f"{[e[1] for e in exp][:6]}..", field=n)
        vals = v.values
        for k, (start, d, a) in enumerate(exp):
            got = vals[k]
            if a is None:
                if np.asarray(got).dtype.kind == "f" and np.isfinite(got).any():
                    raise Violation("output-invented", f"{what}: {n} at {d} holds values although "
                                    "nothing was due", field=n)
                continue
            ref = a if layout == "grid" else a[..., roi]
            if (a.dtype.kind == "i" or roi_only) and layout == "grid":
                got, ref = np.asarray(got, float)[..., roi], a[..., roi]
            if not close(got, ref):
                raise Violation(
                    "output-value", f"{what}: {n} ({f.get('agg')}) at {d} (step "
                    f"{list(hist.dates).index(d)}) differs from the model state: "
                    f"{worst(got, ref)}", field=n)
            if ctx is not None:
                ctx.ok()
        if f.get("agg") is not None and f"{tdim}_bounds" in ds.variables:
            b = ds[f"{tdim}_bounds"].values
            prev = None
            for k, (start, d, a) in enumerate(exp):
                if a is not None:
                    lo = hist.dates[0] if k == 0 else exp[k - 1][1]
                    if pd.Timestamp(b[k, 0]) != lo or pd.Timestamp(b[k, 1]) != d:
                        raise Violation("output-bounds", f"{what}: bounds of {n} at {d} are {b[k]}",
                                        field=n)


def worst(got, ref):
    got, ref = np.asarray(got, float), np.asarray(ref, float)
    if got.shape != ref.shape:
        return f"shape {got.shape} vs {ref.shape}"
    bad = ~(np.isclose(got, ref, rtol=1e-7, atol=1e-30, equal_nan=True))
    if not bad.any():
        bad = ~(np.isclose(got, ref, rtol=0, atol=0, equal_nan=True))
    p = tuple(int(x) for x in np.argwhere(bad)[0])
    return f"{got[p]!r} instead of {ref[p]!r} at {p} ({int(bad.sum())} values)"


def raster_files(hist, ext):
    """name -> (array, field) of all raster files due so far."""
    out = {}
    for f in hist.fields:
        for start, d, a in hist.expected(f):
            if a is None:
                continue
            ds = f"{d:%Y-%m-%dT%H%M}"
            if f.get("agg") is not None:
                ds = f"{start:%Y-%m-%dT%H%M}_{ds}"
            if a.ndim == 2:
                out[f"{name_of(f)}_{ds}.{ext}"] = (a, f)
            else:
                for k in range(a.shape[0]):
                    out[f"{name_of(f)}_{k}_{ds}.{ext}"] = (a[k], f)
    return out


def read_raster(path):
    """(values, transform).  ASCII grids are parsed as text: GDAL guesses an integer type for
    grids which hold only missing values."""
    path = Path(path)
    if path.suffix == ".asc":
        lines = path.read_text().splitlines()
        head = {}
        while lines and lines[0].split()[0].lower() not in ("nan",) and lines[0][:1].isalpha():
            k, v = lines.pop(0).split()
            head[k.lower()] = float(v)
        data = np.array([float(v) for ln in lines for v in ln.split()])
        nr, nc = int(head["nrows"]), int(head["ncols"])
        if data.size != nr * nc:
            raise Violation("output-torn", f"{path.name} holds {data.size} of {nr * nc} values")
        data = data.reshape(nr, nc)
        if "nodata_value" in head:
            data[data == head["nodata_value"]] = np.nan
        dx, dy = head.get("cellsize", head.get("dx")), head.get("cellsize", head.get("dy"))
        return data, (dx, 0.0, head["xllcorner"], 0.0, -dy, head["yllcorner"] + nr * dy)
    import rasterio

    with rasterio.open(path) as src:
        return src.read(1), tuple(src.transform)[:6]


def check_rasters(results_dir, hist, ext, transform, crs=None, ctx=None, what="", ignore=()):
    exp = raster_files(hist, ext)
    have = {p.name for p in Path(results_dir).iterdir() if p.suffix == f".{ext}"}
    if have - set(ignore) != set(exp) - set(ignore):
        raise Violation("output-files", f"{what}: missing {sorted(set(exp) - have)[:4]}, unexpected "
                        f"{sorted(have - set(exp))[:4]}")
    for name, (a, f) in sorted(exp.items()):
        if name in ignore:
            continue
        got, tr = read_raster(Path(results_dir) / name)
        ref = a
        g = np.asarray(got, float)
        if a.dtype.kind == "i":
            g, ref = g[hist.roi], a[hist.roi]
        tol = {"rtol": 2e-5, "atol": 1e-6} if ext == "asc" else {}  # text with few digits
        if not close(g, np.asarray(ref, np.float64), **tol):
            raise Violation("output-value", f"{what}: {name} differs from the model state: "
                            f"{worst(g, ref)}", file=name)
        if not np.allclose(tuple(tr)[:6], tuple(transform)[:6]):
            raise Violation("output-georef", f"{what}: {name} has transform {tuple(tr)[:6]}")
        if ctx is not None:
            ctx.ok()


# ------------------------------------------------------------------ point output

DEFAULT_POINT_VARS = {  # documented default time series variables
    "temp": "meteo.temp", "precip": "meteo.precip", "snowfall": "meteo.snowfall",
    "rainfall": "meteo.rainfall", "rel_hum": "meteo.rel_hum", "wind_speed": "meteo.wind_speed",
    "sw_in": "meteo.sw_in", "sw_out": "meteo.sw_out", "lw_in": "meteo.lw_in",
    "lw_out": "meteo.lw_out", "surface_temp": "surface.temp", "surface_albedo": "surface.albedo",
    "soil_temp": "soil.temp", "swe": "snow.swe", "snow_depth": "snow.depth",
    "snow_temp": "snow.temp", "snow_thickness": "snow.thickness", "snow_density": "snow.density",
    "ice_content": "snow.ice_content", "liquid_water_content": "snow.liquid_water_content",
    "melt": "snow.melt", "runoff": "snow.runoff", "sublimation": "snow.sublimation",
    "refreezing": "snow.refreezing",
}


class PointHistory:
    """Reference for the time series output: value of the variables at the points' pixels."""

    def __init__(self, model, world, cfg):
        self.dates = model.dates
        self.vars = {}
        if cfg.get("add_default_variables", True):
            self.vars.update(DEFAULT_POINT_VARS)
        self.n_default = len(self.vars)
        for v in cfg.get("variables", []):
            self.vars[v.get("name") or v["var"].split(".")[-1]] = v["var"]
        self.points = {}
        if cfg.get("add_default_points", True):
            for st in world.spec["stations"]:
                x, y = world.station_xy(st)
                rc = pixel(world, x, y)
                if rc is not None and model.grid.roi[rc]:
                    self.points[st["id"]] = (rc, x, y)
        for i, p in enumerate(cfg.get("points", [])):
            self.points[p.get("name") or f"point{i + 1}"] = (pixel(world, p["x"], p["y"]), p["x"],
                                                            p["y"])
        self.rows = {v: [] for v in self.vars}
        self.defaults = cfg.get("add_default_variables", True)
        self.dem = world.dem

    def record(self, model):
        for out, var in self.vars.items():
            cat, name = var.split(".")
            a = model.state[cat][name]
            self.rows[out].append(np.stack([a[(..., *rc)] for rc, _, _ in self.points.values()],
                                           axis=-1) if self.points else np.empty(0))

    def __len__(self):
        return len(next(iter(self.rows.values())))


def pixel(world, x, y):
    col = int(np.floor((x - world.x0) / world.res))
    row = int(np.floor((world.y0 + world.rows * world.res - y) / world.res))
    if 0 <= row < world.rows and 0 <= col < world.cols:
        return row, col
    return None


def ref_point_durable(dates, write_freq, done):
    """Number of leading time steps which have to be on disk after `done` completed steps."""
    wd = pd.date_range(dates[0], dates[-1], freq=write_freq)
    last = dates[done - 1]
    if done == len(dates):
        return done
    n = 0
    for i in range(done):
        # a chunk is complete when the next step would already pass the write date
        if any(dates[i] <= w < dates[i + 1] for w in wd):
            n = i + 1
    return n


def check_point_dataset(ds, hist, n, ctx=None, what="", exact_vars=True):
    times = pd.DatetimeIndex(ds.time.values)
    if list(times) != list(hist.dates[:n]):
        raise Violation("points-times", f"{what}: {len(times)} times "
                        f"[{times[0] if len(times) else None} .. {times[-1] if len(times) else None}"
                        f"] instead of {n} [{hist.dates[0]} .. {hist.dates[n - 1]}]")
    if list(ds.point.values) != list(hist.points):
        raise Violation("points-names", f"{what}: points {list(ds.point.values)} instead of "
                        f"{list(hist.points)}")
    missing = set(hist.vars) - set(ds.data_vars)
    if missing:
        raise Violation("points-vars", f"{what}: missing variables {sorted(missing)}")
    if not hist.defaults and set(ds.data_vars) != set(hist.vars):
        raise Violation("points-vars", f"{what}: variables {sorted(ds.data_vars)} instead of "
                        f"{sorted(hist.vars)}")
    for i, (rc, x, y) in enumerate(hist.points.values()):
        if abs(float(ds.x[i]) - x) > 0.01 or abs(float(ds.y[i]) - y) > 0.01 or not close(
            ds.alt[i], hist.dem[rc]
        ):
            raise Violation("points-coords", f"{what}: coordinates of point {list(hist.points)[i]}")
    for out in hist.vars:
        if n == 0 or not hist.points:
            continue
        ref = np.stack(hist.rows[out][:n])
        got = ds[out].values
        cmp(got, ref, out, what, hist)
        if ctx is not None:
            ctx.ok(n)


def cmp(got, ref, out, what, hist):
    g, r = np.asarray(got, float), np.asarray(ref, float)
    if ref.dtype.kind == "i":
        r = ref.astype(float)
    if g.shape != r.shape:
        raise Violation("points-value", f"{what}: {out} has shape {g.shape} instead of {r.shape}",
                        var=out)
    bad = ~np.isclose(g, r, rtol=1e-6, atol=1e-9, equal_nan=True)
    # float32 storage
    with np.errstate(over="ignore"):
        bad &= ~(g.astype(np.float32) == r.astype(np.float32))
    if bad.any():
        p = tuple(int(v) for v in np.argwhere(bad)[0])
        raise Violation("points-value", f"{what}: {out} at {hist.dates[p[0]]} {p} is {g[p]!r}, the "
                        f"model state was {r[p]!r}", var=out, step=p[0])


def read_point_csv(results_dir, hist, n, ctx=None, what=""):
    files = {p.name for p in Path(results_dir).iterdir() if p.name.startswith("point_")}
    exp = {f"point_{p}.csv" for p in hist.points} if n else set()
    if files != exp:
        raise Violation("points-files", f"{what}: files {sorted(files)} instead of {sorted(exp)}")
    for i, p in enumerate(hist.points):
        if not n:
            continue
        df = pd.read_csv(Path(results_dir) / f"point_{p}.csv", index_col=0)
        df.index = pd.to_datetime(df.index, format="ISO8601")  # chunks may omit "00:00:00"
        if list(df.index) != list(hist.dates[:n]):
            raise Violation("points-times", f"{what}: point_{p}.csv has {len(df)} rows "
                            f"[{df.index[0] if len(df) else None} .. "
                            f"{df.index[-1] if len(df) else None}] instead of {n}")
        for out in hist.vars:
            ref = np.stack(hist.rows[out][:n])[..., i]
            if ref.ndim == 1:
                cols = [out]
                ref = ref[:, None]
            else:
                cols = [f"{out}{k}" for k in range(ref.shape[1])]
            miss = [c for c in cols if c not in df.columns]
            if miss:
                raise Violation("points-vars", f"{what}: point_{p}.csv lacks {miss}")
            cmp(df[cols].values, ref, out, what + f" point_{p}.csv", hist)
            if ctx is not None:
                ctx.ok(n)

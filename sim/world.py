"""The simulated world a model instance lives in: terrain, station network, weather, sensor
faults, and configuration.  Everything derives from a JSON spec.
"""

import copy
from pathlib import Path

import numpy as np
import pandas as pd
import xarray as xr

from .core import Rng, deep_merge, set_path

CRS = {
    "epsg:32632": dict(x0=640000.0, y0=5190000.0, tz=1, lat=46.85),
    "epsg:32719": dict(x0=400000.0, y0=6300000.0, tz=-4, lat=-33.4),
    "epsg:32645": dict(x0=470000.0, y0=3080000.0, tz=6, lat=27.8),
}

VARS = ("temp", "precip", "rel_hum", "wind_speed", "sw_in")
EXTRA_VARS = ("wind_dir", "wind_speed_gust", "cloud_fraction")

TIMESTEPS = ["h", "3h", "6h", "D", "2h", "30min", "12h"]


# --------------------------------------------------------------------------- generation


def gen_world(rng, **opt):
    """Draw a random world spec.  `opt` narrows the space (see keys below)."""
    crs = opt.get("crs") or ("epsg:32632" if rng.chance(0.75) else rng.pick(list(CRS)))
    rows = opt.get("rows") or rng.randint(2, 6)
    cols = opt.get("cols") or rng.randint(2, 7)
    res = opt.get("res") or rng.pick([25, 50, 100, 250, 1000])
    timestep = opt.get("timestep") or rng.pick(opt.get("timesteps", TIMESTEPS))
    steps = opt.get("steps") or rng.randint(*opt.get("steps_range", (10, 40)))
    month = opt.get("month") or rng.randint(1, 12)
    start = pd.Timestamp(
        year=rng.pick([2019, 2020, 2021]),
        month=month,
        day=rng.randint(1, 28),
    )
    if "start" in opt:
        start = pd.Timestamp(opt["start"])
    elif timestep not in ("D",) and rng.chance(0.3):
        start += pd.Timedelta(hours=rng.randrange(24))
    n_st = opt.get("n_stations")
    if n_st is None:
        n_st = rng.pick([1, 1, 2, 3, 3, 4, 5])
    base_elev = rng.pick([300.0, 1200.0, 1800.0, 2600.0, 3300.0])
    relief = rng.pick([0.0, 50.0, 400.0, 1200.0]) if not opt.get("relief") else opt["relief"]
    stations = []
    # Elevations are kept well apart: with two stations at nearly the same elevation the
    # elevation regression is ill-conditioned by definition (not a property of the code).
    ranks = list(range(n_st))
    rng.shuffle(ranks)
    for i in range(n_st):
        inside = rng.chance(0.7)
        lo, hi = (0.0, 1.0) if inside else (-1.5, 2.5)
        stations.append(
            {
                "id": f"st{i}",
                "fx": round(rng.uniform(lo, hi), 4),
                "fy": round(rng.uniform(lo, hi), 4),
                "alt": round(
                    base_elev - 100.0 + ranks[i] * max(150.0, relief / max(1, n_st))
                    + rng.uniform(0, 30), 1
                ),
                "vars": list(VARS),
            }
        )
    if stations and n_st > 1 and rng.chance(0.35):
        # A heterogeneous network: not every station measures everything
        for st in stations[1:]:
            st["vars"] = [v for v in VARS if rng.chance(0.7)]
    if stations and rng.chance(0.2):
        # a station exactly at a pixel centre
        st = rng.pick(stations)
        st["fx"] = (rng.randrange(cols) + 0.5) / cols
        st["fy"] = (rng.randrange(rows) + 0.5) / rows
    regime = opt.get("regime") or rng.pick(
        ["cold", "mild", "warm", "swing", "melt", "storm", "swing", "melt"]
    )
    spec = {
        "grid": {
            "crs": crs,
            "rows": rows,
            "cols": cols,
            "res": res,
            "seed": rng.getrandbits(40),
            "base": base_elev,
            "relief": relief,
            "nan": opt.get("nan", rng.pick([0, 0, 1, 2])),
            "roi": opt.get("roi", rng.pick([1.0, 1.0, 0.7, 0.4])),
            "svf": opt.get("svf", rng.pick(["file", "file", "file", "compute"])),
        },
        "time": {"start": str(start), "timestep": timestep, "steps": steps},
        "stations": stations,
        "weather": {"seed": rng.getrandbits(40), "regime": regime, "n": steps + 64},
        "faults": [],
        "cfg": {},
    }
    g = spec["grid"]
    if g["svf"] == "compute":  # terrain derivatives need a non-degenerate DEM
        g["rows"], g["cols"], g["nan"] = max(4, g["rows"]), max(4, g["cols"]), 0
    return spec


def gen_sensor_faults(rng, spec, rate=1.0, kinds=("gap", "blackout", "vargap", "flap")):
    """Draw sensor faults: dropouts of single sensors, stations, or the whole network."""
    steps = spec["time"]["steps"]
    ids = [s["id"] for s in spec["stations"]]
    faults = []
    n = 0
    while rng.random() < rate * 0.75 and n < 6:
        n += 1
        kind = rng.pick(kinds)
        at = rng.randrange(max(1, steps))
        ln = rng.pick([1, 1, 2, 3, 6, 12])
        if kind == "gap" and ids:
            faults.append({"kind": "gap", "st": rng.pick(ids), "var": "*", "at": at, "len": ln})
        elif kind == "vargap" and ids:
            faults.append(
                {"kind": "gap", "st": rng.pick(ids), "var": rng.pick(VARS), "at": at, "len": ln}
            )
        elif kind == "blackout":
            faults.append(
                {
                    "kind": "gap",
                    "st": "*",
                    "var": rng.pick(["*", "*", *VARS]),
                    "at": at if rng.chance(0.7) else 0,
                    "len": ln,
                }
            )
        elif kind == "flap" and ids:
            st = rng.pick(ids)
            for k in range(0, ln * 2, 2):
                faults.append({"kind": "gap", "st": st, "var": "*", "at": at + k, "len": 1})
    return faults


def gen_physics_cfg(rng, spec, snow_model=None, **opt):
    """Swarm-style random model configuration (public options only)."""
    cfg = {}
    model = snow_model or rng.pick(["multilayer", "cryolayers"])
    set_path(cfg, "snow.model", model)
    if model == "cryolayers":
        method = rng.pick(
            ["energy_balance", "energy_balance", "temperature_index", "enhanced_temperature_index"]
        )
        set_path(cfg, "snow.melt.method", method)
        if method != "energy_balance":
            set_path(cfg, "snow.melt.degree_day_factor", rng.pick([2.0, 5.0, 12.0]))
        if method == "enhanced_temperature_index":
            set_path(cfg, "snow.melt.albedo_factor", rng.pick([0.05, 0.2]))
        if rng.chance(0.3):
            set_path(cfg, "snow.cryolayers.surface_temperature_iteration_method", "legacy")
        if rng.chance(0.3):
            set_path(cfg, "snow.cryolayers.use_single_snow_albedo", False)
        if rng.chance(0.3):
            set_path(cfg, "snow.cryolayers.transition.old_snow", rng.pick([100.0, 150.0, 300.0]))
        if rng.chance(0.5):
            # let the firn transition fall into the simulated period
            start = pd.Timestamp(spec["time"]["start"])
            set_path(cfg, "snow.cryolayers.transition.firn", rng.pick([start.month % 12 + 1, 10]))
        if rng.chance(0.2):
            set_path(cfg, "snow.cryolayers.cold_holding_capacity", rng.pick([0.0, 0.2]))
        if rng.chance(0.2):
            set_path(cfg, "snow.cryolayers.refreezing_factor", rng.pick([0.3, 0.8]))
    else:
        if rng.chance(0.3):
            set_path(cfg, "snow.compaction.method", "empirical")
        if rng.chance(0.35):
            set_path(
                cfg,
                "snow.min_thickness",
                rng.pick([[0.1, 0.2], [0.05, 0.1, 0.2, 0.4], [0.1], [0.02, 0.04, 0.08]]),
            )
        if rng.chance(0.2):
            set_path(cfg, "soil.init_temp", rng.pick([263.0, 273.15, 280.0]))
    if rng.chance(0.3):
        set_path(cfg, "snow.liquid_water_content.method", "mass_fraction")
    if rng.chance(0.2):
        set_path(cfg, "snow.liquid_water_content.max", rng.pick([0.0, 0.01, 0.1]))
    if rng.chance(0.25):
        set_path(cfg, "snow.snow_cover_fraction_depth_scale", rng.pick([0.05, 0.2]))
    if rng.chance(0.2):
        set_path(cfg, "snow.measurement_height_adjustment", True)
    if rng.chance(0.3):
        set_path(cfg, "snow.albedo.refresh_method", "continuous")
    if rng.chance(0.3):
        set_path(cfg, "snow.albedo.decay_timescale_determination_temperature", "air")
    if rng.chance(0.3):
        set_path(cfg, "meteo.stability_correction", True)
    if rng.chance(0.3):
        set_path(cfg, "meteo.precipitation_phase.method", "temp")
    if rng.chance(0.2):
        set_path(cfg, "meteo.precipitation_phase.temp_range", rng.pick([0.0, 4.0]))
    if rng.chance(0.2):
        set_path(cfg, "meteo.precipitation_phase.enforce_no_snow_below_rain", True)
    if rng.chance(0.2):
        set_path(cfg, "meteo.interpolation.temperature.trend_method", "fixed")
    if rng.chance(0.2):
        set_path(cfg, "meteo.interpolation.humidity.trend_method", "fixed")
    if rng.chance(0.4):
        set_path(
            cfg,
            "meteo.interpolation.precipitation.trend_method",
            rng.pick(["adjustment_factor", "fractional"]),
        )
    if rng.chance(0.2):
        set_path(cfg, "meteo.interpolation.cloudiness.method", "humidity")
    if rng.chance(0.15):
        set_path(
            cfg, "meteo.interpolation.cloudiness.clear_sky_fraction_night_method", "constant"
        )
    if rng.chance(0.25):
        set_path(cfg, "reset_state_variables", True)
    if rng.chance(0.15):
        set_path(cfg, "extend_roi_with_stations", True)
    if rng.chance(0.2):
        set_path(cfg, "meteo.precipitation_correction", [{"method": "constant_scf", "scf": 1.25}])
    if opt.get("canopy", rng.chance(0.15)):
        set_path(cfg, "canopy.enabled", True)
    if opt.get("et", rng.chance(0.1)):
        set_path(cfg, "evapotranspiration.enabled", True)
    return cfg


# --------------------------------------------------------------------------- realisation


def weather_series(spec, station_num, times, ts_seconds, lat, tz):
    """Per-station weather.  Depends only on the weather seed, the station number and the
    absolute step, so dropping stations, faults or trailing steps never changes other values."""
    w = spec["weather"]
    n = len(times)
    regime = w["regime"]

    def gen(name, extra=0):
        return Rng("weather", w["seed"], name, extra).np()

    days = np.arange(n) * ts_seconds / 86400.0
    hours = times.hour.values + times.minute.values / 60.0
    base = {"cold": 260.0, "mild": 274.0, "warm": 286.0, "swing": 272.0, "melt": 272.0}.get(
        regime, 271.0
    )
    amp = {"cold": 4.0, "mild": 3.0, "warm": 7.0, "swing": 12.0, "melt": 3.0, "storm": 1.5}[regime]
    g = gen("common")
    ph = g.uniform(0, 2 * np.pi)
    common = base + amp * np.sin(2 * np.pi * (hours - 9.0) / 24.0)
    if regime == "swing":
        common = common + 9.0 * np.sin(2 * np.pi * days / max(1.0, days[-1] / 2.5) + ph)
    elif regime == "melt":
        common = common + np.linspace(-12.0, 22.0, n)
    noise = gen("tn").normal(0, 1.0, n)
    p_ev = {"cold": 0.3, "mild": 0.4, "warm": 0.25, "swing": 0.4, "melt": 0.45, "storm": 0.8}[
        regime
    ]
    wet = gen("wet").random(n) < p_ev
    inten = gen("int").gamma(0.7, 1.0, n) * ts_seconds / 3600.0 * (
        {"storm": 4.0, "melt": 1.8}.get(regime, 0.9)
    )
    st_g = gen("st", station_num)
    temp = common + noise + st_g.normal(0, 0.8, n)
    st_alt = spec["stations"][station_num]["alt"]
    temp = temp - 0.0055 * (st_alt - spec["grid"]["base"])
    precip = np.where(wet, inten * st_g.uniform(0.5, 1.5, n), 0.0)
    rel_hum = np.clip(65 + 25 * wet + st_g.normal(0, 14, n), 8, 100)
    wind = np.clip(st_g.gamma(1.4, 1.8, n), 0.0, 25.0)
    wind[st_g.random(n) < 0.05] = 0.0
    # crude sun
    doy = times.dayofyear.values
    decl = np.deg2rad(-23.44 * np.cos(2 * np.pi * (doy + 10) / 365.0))
    ha = np.deg2rad((hours - 12.0) * 15.0)
    cosz = np.sin(np.deg2rad(lat)) * np.sin(decl) + np.cos(np.deg2rad(lat)) * np.cos(decl) * np.cos(
        ha
    )
    sw = np.clip(1100.0 * cosz, 0, None) * np.where(wet, 0.25, 0.85) * st_g.uniform(0.7, 1.1, n)
    out = {
        "temp": np.clip(temp, 205.0, 325.0),
        "precip": precip,
        "rel_hum": rel_hum,
        "wind_speed": wind,
        "sw_in": sw,
        "wind_dir": st_g.uniform(0, 360, n),
        "wind_speed_gust": wind * st_g.uniform(1.0, 2.5, n),
        "cloud_fraction": np.clip(100 * st_g.random(n), 0, 100),
    }
    return out


class World:
    """Realises a spec: writes the grids, holds the station records, builds config dicts."""

    def __init__(self, spec, root):
        self.spec = spec
        self.root = Path(root)
        g = spec["grid"]
        self.rows, self.cols, self.res = g["rows"], g["cols"], g["res"]
        self.crs = g["crs"]
        self.x0, self.y0 = CRS[self.crs]["x0"], CRS[self.crs]["y0"]
        self.tz = CRS[self.crs]["tz"]
        self.lat = CRS[self.crs]["lat"]
        t = spec["time"]
        self.timestep = t["timestep"]
        self.start = pd.Timestamp(t["start"])
        self.dates = pd.date_range(self.start, periods=t["steps"], freq=self.timestep)
        self.ts_seconds = pd.Timedelta(
            "1D" if self.timestep == "D" else ("1h" if self.timestep == "h" else self.timestep)
        ).total_seconds()
        self._make_fields()

    # ---- grids
    def _make_fields(self):
        g = self.spec["grid"]
        r = Rng("grid", g["seed"]).np()
        shape = (self.rows, self.cols)
        yy, xx = np.mgrid[0 : self.rows, 0 : self.cols]
        tilt = (xx / max(1, self.cols - 1)) * r.uniform(0, 1) + (
            yy / max(1, self.rows - 1)
        ) * r.uniform(0, 1)
        dem = g["base"] + g["relief"] * (0.6 * tilt + 0.4 * r.random(shape))
        dem = np.round(dem, 2)
        for _ in range(g["nan"]):
            dem[r.integers(self.rows), r.integers(self.cols)] = np.nan
        roi = r.random(shape) < g["roi"]
        if g["roi"] >= 1.0:
            roi[:] = True
        valid = roi & np.isfinite(dem)
        if not valid.any():
            i, j = r.integers(self.rows), r.integers(self.cols)
            roi[i, j] = True
            dem[i, j] = g["base"]
        self.dem = dem
        self.roi_mask = roi
        self.roi_is_file = g["roi"] < 1.0
        self.svf = np.round(r.uniform(0.6, 1.0, shape), 3)
        self.lc = r.choice([0, 1, 2, 3, 4, 5, 6, 7, 8], size=shape)
        if g.get("forest"):
            self.lc = r.choice([5, 6, 5, 6, 7, 4], size=shape)
        self.soil = r.integers(1, 10, size=shape)
        self.srf = np.round(r.uniform(0.5, 1.6, shape), 3)
        self.glaciers = r.choice([0, 1, 1, 2, 2], size=shape)
        if g.get("glaciers") == "one":
            self.glaciers = np.minimum(self.glaciers, 1)

    def _write_asc(self, path, arr, nodata=-9999):
        a = np.where(np.isfinite(arr), arr, nodata) if arr.dtype.kind == "f" else arr
        lines = [
            f"ncols {self.cols}",
            f"nrows {self.rows}",
            f"xllcorner {self.x0}",
            f"yllcorner {self.y0}",
            f"cellsize {self.res}",
            f"NODATA_value {nodata}",
        ]
        for row in a:
            lines.append(" ".join(repr(v.item()) for v in row))
        Path(path).write_text("\n".join(lines) + "\n")

    def extended_dem(self):
        """DEM with a margin of `ext` pixels around the model grid."""
        n = self.spec["grid"]["ext"]
        r = Rng("ext", self.spec["grid"]["seed"]).np()
        g = self.spec["grid"]
        a = np.round(g["base"] + g["relief"] * r.random((self.rows + 2 * n, self.cols + 2 * n)), 2)
        a[n:-n, n:-n] = self.dem
        return a

    def write_extended(self, path):
        n = self.spec["grid"]["ext"]
        a = self.extended_dem()
        rows, cols, x0, y0 = self.rows, self.cols, self.x0, self.y0
        self.rows, self.cols = a.shape
        self.x0, self.y0 = x0 - n * self.res, y0 - n * self.res
        try:
            self._write_asc(path, a)
        finally:
            self.rows, self.cols, self.x0, self.y0 = rows, cols, x0, y0

    def write_grids(self, d, domain="sim"):
        d = Path(d)
        d.mkdir(parents=True, exist_ok=True)

        def f(kind):
            return d / f"{kind}_{domain}_{self.res}.asc"

        self._write_asc(f("dem"), self.dem)
        if self.spec["grid"].get("ext"):
            self.write_extended(f("extended-dem"))
        if self.roi_is_file:
            self._write_asc(f("roi"), self.roi_mask.astype(int))
        if self.spec["grid"]["svf"] == "file":
            self._write_asc(f("svf"), self.svf)
        cfg = self.spec["cfg"]
        if cfg.get("canopy", {}).get("enabled") or cfg.get("evapotranspiration", {}).get("enabled"):
            self._write_asc(f("lc"), self.lc.astype(int))
        if cfg.get("evapotranspiration", {}).get("enabled"):
            self._write_asc(f("soil"), self.soil.astype(int))
        if cfg.get("glaciers", {}).get("enabled"):
            self._write_asc(f("glaciers"), self.glaciers.astype(int))
        if any(
            p.get("method") == "srf"
            for p in cfg.get("meteo", {}).get("precipitation_correction", [])
        ):
            self._write_asc(f("srf"), self.srf)
        return d

    # ---- stations
    def station_xy(self, st):
        return (
            self.x0 + st["fx"] * self.cols * self.res,
            self.y0 + st["fy"] * self.rows * self.res,
        )

    def station_lonlat(self, st):
        import pyproj

        tr = pyproj.Transformer.from_crs(self.crs, "epsg:4326", always_xy=True)
        return tr.transform(*self.station_xy(st))

    def records(self, freq=None, start=None, periods=None, faults=True):
        """Station records as dict id -> DataFrame (index time, columns = measured vars).

        Default: at the model time step over the simulated period."""
        freq = freq or self.timestep
        start = self.start if start is None else pd.Timestamp(start)
        sec = pd.Timedelta(
            "1D" if freq == "D" else ("1h" if freq == "h" else freq)
        ).total_seconds()
        n_gen = max(self.spec["weather"]["n"], (periods or len(self.dates)))
        times = pd.date_range(start, periods=n_gen, freq=freq)
        n = periods or len(self.dates)
        recs = {}
        for num, st in enumerate(self.spec["stations"]):
            series = weather_series(self.spec, num, times, sec, self.lat, self.tz)
            df = pd.DataFrame(
                {v: series[v][:n].copy() for v in st["vars"]},
                index=pd.DatetimeIndex(times[:n], name="time"),
            )
            recs[st["id"]] = df
        if faults:
            self.apply_sensor_faults(recs, self.spec["faults"])
        return recs

    @staticmethod
    def apply_sensor_faults(recs, faults, ctx=None):
        for f in faults:
            if f["kind"] != "gap":
                continue
            for sid, df in recs.items():
                if f["st"] not in ("*", sid):
                    continue
                cols = list(df.columns) if f["var"] == "*" else [f["var"]]
                for c in cols:
                    if c in df.columns:
                        df.iloc[f["at"] : f["at"] + f["len"], df.columns.get_loc(c)] = np.nan
                        if ctx is not None:
                            ctx.fault("sensor_gap")

    def dataset(self, recs=None):
        """Point forcing dataset for the 'memory' input format, via the public builders."""
        from openamundsen import forcing

        recs = self.records() if recs is None else recs
        out = []
        for st in self.spec["stations"]:
            if st["id"] not in recs:
                continue
            lon, lat = self.station_lonlat(st)
            df = recs[st["id"]]
            out.append(
                forcing.make_point_dataset(
                    df, point_id=st["id"], name=st["id"], lon=lon, lat=lat, alt=st["alt"]
                )
            )
        return forcing.combine_point_datasets(out)

    def write_netcdf(self, d, recs):
        d = Path(d)
        d.mkdir(parents=True, exist_ok=True)
        names = {"temp": "tas", "precip": "pr", "rel_hum": "hurs", "sw_in": "rsds",
                 "wind_speed": "wss"}
        units = {"temp": "K", "precip": "kg m-2", "rel_hum": "%", "sw_in": "W m-2",
                 "wind_speed": "m s-1", "wind_dir": "degree", "wind_speed_gust": "m s-1",
                 "cloud_fraction": "%"}
        for st in self.spec["stations"]:
            if st["id"] not in recs:
                continue
            lon, lat = self.station_lonlat(st)
            df = recs[st["id"]]
            ds = xr.Dataset(
                {names.get(c, c): ("time", df[c].values, {"units": units[c]}) for c in df.columns},
                coords={"time": df.index},
            )
            ds["lon"], ds["lat"], ds["alt"] = lon, lat, st["alt"]
            ds.attrs = {"station_name": st["id"]}
            ds.to_netcdf(d / f"{st['id']}.nc")
        return d

    def write_csv(self, d, recs):
        d = Path(d)
        d.mkdir(parents=True, exist_ok=True)
        lines = ["id,name,x,y,alt"]
        for st in self.spec["stations"]:
            if st["id"] not in recs:
                continue
            x, y = self.station_xy(st)
            lines.append(f"{st['id']},{st['id']},{x!r},{y!r},{st['alt']!r}")
            recs[st["id"]].to_csv(d / f"{st['id']}.csv", date_format="%Y-%m-%d %H:%M:%S")
        (d / "stations.csv").write_text("\n".join(lines) + "\n")
        return d

    # ---- config
    def config(self, grids_dir, results_dir, extra=None):
        base = {
            "domain": "sim",
            "start_date": str(self.dates[0]),
            "end_date": str(self.dates[-1]),
            "resolution": self.res,
            "timestep": self.timestep,
            "crs": self.crs,
            "timezone": self.tz,
            "results_dir": str(results_dir),
            "enable_default_logging": False,
            "numba_threads": 1,
            "input_data": {
                "grids": {"dir": str(grids_dir)},
                "meteo": {"format": "memory"},
            },
            "output_data": {
                "timeseries": {"format": "memory"},
                "grids": {"format": "memory"},
            },
        }
        cfg = deep_merge(base, copy.deepcopy(self.spec["cfg"]))
        lc = cfg.get("land_cover", {}).get("classes")
        if lc:  # JSON specs have string keys
            cfg["land_cover"]["classes"] = {int(k): v for k, v in lc.items()}
        if extra:
            cfg = deep_merge(cfg, copy.deepcopy(extra))
        return cfg


def quiet():
    import logging
    import warnings

    warnings.simplefilter("ignore")
    np.seterr(all="ignore")
    lg = logging.getLogger("openamundsen")
    lg.setLevel(logging.CRITICAL)


def new_model(world, grids_dir, results_dir, extra=None, meteo=None, callback=None):
    import openamundsen as oa

    cfg = oa.Configuration.fromDict(world.config(grids_dir, results_dir, extra))
    model = oa.OpenAmundsen(cfg)
    fmt = model.config.input_data.meteo.format
    if fmt == "memory":
        model.initialize(meteo=world.dataset() if meteo is None else meteo)
    elif fmt == "callback":
        model.initialize(meteo_callback=callback)
    else:
        model.initialize()
    return model

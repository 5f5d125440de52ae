"""P12: the model is driven by exactly what the stations recorded."""

import pandas as pd

from ..common import *  # noqa: F403
from ..common import REAL_MODEL, STUB_WORLD, ASSUME
from .. import common, outputs

ID = "P12"
LEVEL = "exploration"
N = {"quick": 800, "thorough": 6000}
REAL = ["station file readers (CSV, NetCDF), station selection, range filters, resampling",
        "OpenAmundsen.initialize on real files"]
STUB = STUB_WORLD + ["station feeds: seeded record files with outages, spikes, lost, late and surplus "
                     "records"]
ASSUMPTIONS = [
    "daily time steps start at 00:00",
    "values are compared with 1e-9 relative tolerance (CSV parsing)",
]
RULE = (
    "one evaluation = one (station, variable, time step) forcing value compared with a naive "
    "per-interval reduction of the raw records; distinct = (format, native/model frequency ratio, "
    "aggregation, feed fault kinds, station rules, missing-data policy, outcome) classes"
)
REQUIRED_PROBES = ("csv", "netcdf", "downsampled", "same_freq", "daily_from_subdaily", "aggregated",
                   "instantaneous", "late_start", "early_end", "day_before_only", "interior_gap",
                   "lost_record", "spike", "precip_rate", "cloud_fraction_units", "wind_dir", "gust",
                   "bounds_grid", "bounds_list", "include", "exclude", "rejected", "permissive",
                   "freq_alias", "other_crs", "nan_in_interval", "empty_feed")

ALIASES = {"h": ["h", "1h", "60min", "H"], "D": ["D", "1D", "24h"], "3h": ["3h", "180min", "3H"],
           "2h": ["2h", "120min"], "6h": ["6h"], "12h": ["12h"], "30min": ["30min"]}
FILTERS = [("temp", 200, 330), ("rel_hum", 1, 100), ("precip", 0, None), ("wind_speed", 0, 50),
           ("sw_in", 0, 1500)]
SPIKES = {"temp": [-999.0, 9.0, 400.0], "precip": [-99.0, -0.1], "rel_hum": [0.0, 101.0, -7.0],
          "wind_speed": [51.0, -1.0], "sw_in": [-3.0, 1501.0]}


UNDEFINED = -1.0


def warm(root):
    quiet()
    import openamundsen  # noqa: F401


def gen(rng, index, tier):
    ts = rng.pick(["h", "3h", "2h", "6h", "D", "D", "12h", "30min"])
    sec = outputs.td(ts).total_seconds()
    native = rng.pick([f for f in ["10min", "30min", "h", "2h", "3h", "6h", "D"]
                       if sec % outputs.td(f).total_seconds() == 0
                       and sec / outputs.td(f).total_seconds() <= 30])
    if rng.chance(0.35):
        native = ts
    steps = rng.randint(3, 14)
    spec = gen_world(rng, rows=rng.randint(2, 4), cols=rng.randint(2, 4), steps=steps, timestep=ts,
                     svf="file", n_stations=rng.randint(1, 4), nan=0)
    if ts == "D":
        spec["time"]["start"] = str(pd.Timestamp(spec["time"]["start"]).normalize())
    for st in spec["stations"]:
        st["vars"] = [*st["vars"], *rng.subset(["wind_dir", "wind_speed_gust", "cloud_fraction"], 0.4)]
    fmt = rng.pick(["csv", "netcdf"])
    feed = {"format": fmt, "native": native, "agg": rng.chance(0.5),
            "strict": rng.chance(0.6), "alias": rng.pick(ALIASES[ts]),
            "bounds": rng.pick(["grid", "global", "global", "list"]), "stations": {}}
    ids = [s["id"] for s in spec["stations"]]
    if rng.chance(0.25):
        feed["exclude"] = rng.subset([*ids, "nosuch"], 0.4)
    if rng.chance(0.3):
        feed["include"] = rng.subset(ids, 0.5)
    if fmt == "csv" and rng.chance(0.3):
        feed["crs"] = "epsg:4326" if rng.chance(0.5) else "epsg:3857"
    if rng.chance(0.15):
        feed["filters"] = rng.pick([
            [], [["temp", 265, None]], [["precip", None, 2.0]], [["temp", 262, None], ["temp", None, 281]],
            [["wind_speed", 0, None], ["precip", 0, 3.0], ["wind_speed", None, 8]],
            [["rel_hum", 20, 95], ["temp", 260, None], ["rel_hum", 30, None]]])
    n_native = int(sec / outputs.td(native).total_seconds())
    for s in spec["stations"]:
        st = {"before": rng.pick([0, 0, 1, n_native, 2 * n_native + 1, 30]),
              "after": rng.pick([0, 0, 1, n_native, 30]), "events": []}
        r = rng.random()
        if r < 0.15:
            st["before"] = -rng.randint(1, max(1, n_native * (steps - 1)))
        elif r < 0.27:
            st["after"] = -rng.randint(1, max(1, n_native * (steps - 1)))
        elif r < 0.31:
            st["only_before"] = True
        elif r < 0.33:
            st["empty"] = True
        for _ in range(rng.pick([0, 0, 1, 2, 4])):
            kind = rng.pick(["nan", "nan", "spike", "spike", "lost"] if rng.chance(0.15) else
                            ["nan", "spike"])
            ev = {"kind": kind, "at": rng.randrange(n_native * steps), "len": rng.pick([1, 1, 2, 5])}
            v = rng.pick(s["vars"])
            if kind == "spike":
                v = rng.pick([x for x in s["vars"] if x in SPIKES] or [None])
                if v is None:
                    continue
                ev["value"] = rng.pick(SPIKES[v])
            ev["var"] = v
            st["events"].append(ev)
        feed["stations"][s["id"]] = st
    feed["precip_rate"] = fmt == "netcdf" and rng.chance(0.4)
    feed["cloud_unit1"] = rng.chance(0.4)
    spec["feed"] = feed
    return spec


# ---------------------------------------------------------------- feed


def make_records(w, spec, ctx):
    """Raw record files: id -> DataFrame, plus the set of feeds that are irregular."""
    feed = spec["feed"]
    nat = outputs.td(feed["native"])
    start, end = w.dates[0], w.dates[-1]
    if is_daily(w) and nat < pd.Timedelta("1D"):
        end = end + pd.Timedelta("1D")
    recs, irregular = {}, set()
    base = int((end - start) / nat) + 1
    for num, s in enumerate(spec["stations"]):
        f = feed["stations"][s["id"]]
        # the weather of a station is generated on a fixed grid around the run, then cut
        t_lo = start - 40 * nat
        n = base + 80
        times = pd.date_range(t_lo, periods=n, freq=nat)
        from ..world import weather_series

        sp = dict(spec, weather=dict(spec["weather"], n=n))
        series = weather_series(sp, num, times, nat.total_seconds(), w.lat, w.tz)
        df = pd.DataFrame({v: series[v] for v in s["vars"]}, index=pd.DatetimeIndex(times, name="time"))
        if not s["vars"]:
            df["note"] = 0.0
        lo, hi = 40 - f["before"], 40 + base + f["after"]
        if f.get("only_before"):
            lo, hi = 35, 39
            ctx.fault("station_ended_before_run")
        if f.get("empty"):
            lo, hi = 0, 0
            ctx.fault("empty_feed")
        lo, hi = max(0, lo), min(n, hi)
        for ev in f["events"]:
            i = 40 + ev["at"]
            if ev["kind"] == "nan":
                df.iloc[i : i + ev["len"], df.columns.get_loc(ev["var"])] = np.nan
                ctx.fault("sensor_gap", ev["len"])
            elif ev["kind"] == "spike":
                df.iloc[i, df.columns.get_loc(ev["var"])] = ev["value"]
                ctx.fault("sensor_spike")
        keep = np.zeros(n, bool)
        keep[lo:hi] = True
        for ev in f["events"]:
            if ev["kind"] == "lost":
                i = 40 + ev["at"]
                if lo < i < hi - 1:
                    keep[i] = False
                    ctx.fault("lost_record")
        if f["before"] < 0:
            ctx.fault("late_start")
        if f["after"] < 0:
            ctx.fault("early_end")
        d = df[keep]
        if len(d) > 2 and len(set(np.diff(d.index.values))) > 1:
            irregular.add(s["id"])
        recs[s["id"]] = d
    return recs, irregular


def is_daily(w):
    return w.ts_seconds == 86400.0


def write_feed(w, spec, recs, d):
    feed = spec["feed"]
    d.mkdir(parents=True, exist_ok=True)
    out = {}
    for sid, df in recs.items():
        df = df.copy()
        if feed["precip_rate"] and "precip" in df:
            df["precip"] = df["precip"] / outputs.td(feed["native"]).total_seconds()
        if feed["cloud_unit1"] and "cloud_fraction" in df:
            df["cloud_fraction"] = df["cloud_fraction"] / 100.0
        out[sid] = df
    if feed["format"] == "csv":
        import pyproj

        w.write_csv(d, out)
        if feed.get("crs"):
            tr = pyproj.Transformer.from_crs(w.crs, feed["crs"], always_xy=True)
            lines = ["id,name,x,y,alt"]
            for s in spec["stations"]:
                x, y = tr.transform(*w.station_xy(s))
                lines.append(f"{s['id']},{s['id']},{x!r},{y!r},{s['alt']!r}")
            (d / "stations.csv").write_text("\n".join(lines) + "\n")
        return
    w.write_netcdf(d, out)
    import xarray as xr

    for s in spec["stations"]:
        p = d / f"{s['id']}.nc"
        ds = xr.load_dataset(p)
        if feed["precip_rate"] and "pr" in ds:
            ds["pr"].attrs["units"] = "kg m-2 s-1"
        if feed["cloud_unit1"] and "cloud_fraction" in ds:
            ds["cloud_fraction"].attrs["units"] = "1"
        ds.to_netcdf(p)


# ---------------------------------------------------------------- reference


def selected(w, spec):
    feed = spec["feed"]
    xmin, ymin = w.x0, w.y0
    xmax, ymax = w.x0 + w.cols * w.res, w.y0 + w.rows * w.res
    out = []
    for s in spec["stations"]:
        x, y = w.station_xy(s)
        ok = True
        if feed["bounds"] == "grid":
            ok = xmin <= x < xmax and ymin <= y < ymax
        elif feed["bounds"] == "list":
            bx = bounds_list(w)
            ok = bx[0] <= x < bx[2] and bx[1] <= y < bx[3]
        if s["id"] in feed.get("exclude", []):
            ok = False
        if s["id"] in feed.get("include", []):
            ok = True
        if ok:
            out.append(s["id"])
    return out


def bounds_list(w):
    wx, wy = w.cols * w.res, w.rows * w.res
    return [w.x0 - 0.5 * wx, w.y0 - 0.4 * wy, w.x0 + 0.8 * wx, w.y0 + 1.3 * wy]


def filtered(df, feed):
    df = df.copy()
    fl = FILTERS if "filters" not in feed else feed["filters"]
    for var, lo, hi in fl:
        if var in df:
            v = df[var]
            bad = pd.Series(False, index=df.index)
            if lo is not None:
                bad |= v < lo
            if hi is not None:
                bad |= v > hi
            df.loc[bad, var] = np.nan
    return df


def reference(w, spec, df):
    """date -> {var: value} of one station; dates without an entry: the station has no data."""
    feed = spec["feed"]
    nat, ts = outputs.td(feed["native"]), outputs.td(spec["time"]["timestep"])
    df = filtered(df, feed)
    if "cloud_fraction" in df and feed["cloud_unit1"] and feed["format"] == "csv" and len(df) <= 10:
        df["cloud_fraction"] /= 100.0  # too few records to recognise fractions in a file without units
    if feed["precip_rate"] and "precip" in df and len(df) < 3:
        df["precip"] = np.nan  # a rate cannot be converted without a known interval
    out = {}
    if len(df) == 0:
        return out
    if nat == ts or len(df) <= 2:
        for d in w.dates:
            if d in df.index:
                out[d] = {v: df.at[d, v] for v in df.columns}
        return out
    daily = is_daily(w)
    agg = feed["agg"] or daily
    df = df[df.index >= w.dates[0] - pd.Timedelta("1D")]
    hi_all = w.dates[-1] + (pd.Timedelta("1D") if daily else pd.Timedelta(0))
    df = df[df.index <= hi_all]
    if len(df) == 0:
        return out
    for d in w.dates:
        lo, hi = (d, d + ts) if daily else (d - ts, d)
        if d < df.index[0] or d > df.index[-1]:
            continue
        part = df[(df.index > lo) & (df.index <= hi)]
        if not agg and d not in df.index:
            continue
        if len(part) == 0:
            if agg:
                continue
        vals = {}
        for v in df.columns:
            x = part[v].values
            if v == "precip":
                vals[v] = x.sum()
            elif v == "wind_speed_gust":
                vals[v] = np.nanmax(x) if np.isfinite(x).any() else np.nan
            elif not agg:
                vals[v] = df.at[d, v]
            elif v == "wind_dir":
                vals[v] = mean_dir(part)
            else:
                vals[v] = np.nanmean(x) if np.isfinite(x).any() else np.nan
        out[d] = vals
    return out


def mean_dir(part):
    if "wind_speed" not in part:
        return np.nan
    a = np.deg2rad(part["wind_dir"].values)
    ws = part["wind_speed"].values
    u, v = -ws * np.sin(a), -ws * np.cos(a)
    ok = np.isfinite(u)
    if not ok.any():
        return np.nan
    if np.hypot(u[ok].mean(), v[ok].mean()) < 1e-6:
        return UNDEFINED  # calm or cancelling winds: no direction is right or wrong
    return np.rad2deg(np.arctan2(-u[ok].mean(), -v[ok].mean())) % 360.0


def ambiguous_cloud(feed, df):
    """Percent values that are all below 1 in a file without units: any reading is acceptable."""
    v = df["cloud_fraction"].values
    return (feed["format"] == "csv" and not feed["cloud_unit1"] and np.isfinite(v).any()
            and np.nanmax(v) <= 1)


# ---------------------------------------------------------------- run


def run(spec, ctx):
    feed = spec["feed"]
    w = World(spec, ctx.newdir("w"))
    g = w.write_grids(w.root / "g")
    recs, irregular = make_records(w, spec, ctx)
    d = w.root / "m"
    write_feed(w, spec, recs, d)
    meteo = {"format": feed["format"], "dir": str(d), "bounds": feed["bounds"] if feed[
        "bounds"] != "list" else bounds_list(w), "aggregate_when_downsampling": feed["agg"],
        "enable_missing_data_checks": feed["strict"]}
    for k in ("include", "exclude", "crs"):
        if k in feed:
            meteo[k] = feed[k]
    if "filters" in feed:
        meteo["filters"] = [
            {"var": v, "filter": "range", **({"min": lo} if lo is not None else {}),
             **({"max": hi} if hi is not None else {})} for v, lo, hi in feed["filters"]]
    sel = selected(w, spec)
    ref = {sid: reference(w, spec, recs[sid]) for sid in sel}
    covered = {x for r in ref.values() for x in r}
    reject = None
    if not sel:
        reject = "no station selected"
    elif any(sid in irregular for sid in sel):
        reject = "irregular records"
    elif feed["strict"] and any(x not in covered for x in w.dates):
        reject = "period not covered"
    import openamundsen as oa
    from openamundsen import errors

    cfg = w.config(g, w.root / "r", {"input_data": {"meteo": meteo}, "timestep": feed["alias"]})
    m = oa.OpenAmundsen(cfg)
    try:
        m.initialize()
    except errors.MeteoDataError as e:
        ctx.ok()
        if reject is None:
            raise Violation("forcing-rejected", f"usable station data is rejected: {e}") from None
        ctx.probe("rejected")
        ctx.event("rejected", reject)
        coverage(spec, ctx, recs, sel, irregular, ref, w, "rejected")
        return
    if reject is not None:
        raise Violation("forcing-accepted", f"{reject}, but no error was raised")
    got_ids = [str(s) for s in m.meteo.station.values]
    want = [sid for sid in sel if ref[sid]]
    if set(got_ids) - set(sel) or len(set(got_ids)) != len(got_ids) or set(want) - set(got_ids):
        raise Violation("forcing-stations", f"stations {got_ids} instead of {want}")
    for sid in want:
        s = next(s for s in spec["stations"] if s["id"] == sid)
        ds = m.meteo.sel(station=sid)
        x, y = w.station_xy(s)
        if abs(float(ds.x) - x) > 0.01 or abs(float(ds.y) - y) > 0.01 or float(ds.alt) != s["alt"]:
            raise Violation("forcing-coords", f"{sid} is at {float(ds.x)}, {float(ds.y)}, "
                            f"{float(ds.alt)} instead of {x}, {y}, {s['alt']}")
        for k, dt in enumerate(w.dates):
            row = ds.sel(time=dt)
            exp = ref[sid].get(dt, {})
            for v in s["vars"]:
                a, b = float(row[v]), float(exp.get(v, np.nan))
                ctx.ok()
                if v == "cloud_fraction" and ambiguous_cloud(feed, recs[sid]):
                    continue
                if v == "wind_dir" and b == UNDEFINED:
                    continue
                if v == "wind_dir" and np.isfinite(a) and np.isfinite(b):
                    bad = abs((a - b + 180) % 360 - 180) > 1e-6
                else:
                    bad = not np.isclose(a, b, rtol=1e-9, atol=1e-9, equal_nan=True)
                if bad:
                    raise Violation("forcing-value", f"{sid} {v} at {dt} (step {k}) is {a!r}, the "
                                    f"records say {b!r}", var=v, step=k)
                ctx.hash_array(v, np.array([a]))
    # the model can fetch every time step
    for dt in w.dates:
        m.meteo.sel(time=dt)
    coverage(spec, ctx, recs, sel, irregular, ref, w, "ok")
    ctx.steps += len(w.dates)
    ctx.sim_seconds += len(w.dates) * w.ts_seconds


def coverage(spec, ctx, recs, sel, irregular, ref, w, outcome):
    feed = spec["feed"]
    nat, ts = outputs.td(feed["native"]), outputs.td(spec["time"]["timestep"])
    ctx.probe(feed["format"])
    ok = outcome == "ok"
    ctx.probe("downsampled", nat < ts)
    ctx.probe("same_freq", nat == ts)
    ctx.probe("daily_from_subdaily", ok and is_daily(w) and nat < ts)
    ctx.probe("aggregated", ok and feed["agg"] and nat < ts)
    ctx.probe("instantaneous", ok and not feed["agg"] and nat < ts and not is_daily(w))
    kinds = set()
    for sid in sel:
        f = feed["stations"][sid]
        kinds.update(e["kind"] for e in f["events"])
        ctx.probe("late_start", ok and f["before"] < 0)
        ctx.probe("early_end", ok and f["after"] < 0)
        ctx.probe("day_before_only", ok and bool(f.get("only_before")))
        ctx.probe("empty_feed", bool(f.get("empty")))
        ctx.probe("precip_rate", ok and feed["precip_rate"])
        cols = recs[sid].columns
        ctx.probe("cloud_fraction_units", ok and feed["cloud_unit1"] and "cloud_fraction" in cols)
        ctx.probe("wind_dir", ok and feed["agg"] and nat < ts and "wind_dir" in cols)
        ctx.probe("gust", ok and nat < ts and "wind_speed_gust" in cols)
        ctx.probe("nan_in_interval", ok and nat < ts and bool(recs[sid].isna().any().any()))
    ctx.probe("spike", "spike" in kinds)
    ctx.probe("lost_record", any(s in irregular for s in sel))
    cov = [any(d in r for r in ref.values()) for d in w.dates]
    ctx.probe("interior_gap", any(not c and any(cov[:i]) and any(cov[i:]) for i, c in enumerate(cov)))
    ctx.probe("bounds_grid", feed["bounds"] == "grid")
    ctx.probe("bounds_list", feed["bounds"] == "list")
    ctx.probe("include", bool(feed.get("include")))
    ctx.probe("exclude", bool(feed.get("exclude")))
    ctx.probe("permissive", ok and not feed["strict"] and not all(cov))
    ctx.probe("freq_alias", feed["alias"] != spec["time"]["timestep"])
    ctx.probe("other_crs", bool(feed.get("crs")))
    ctx.state(feed["format"], int(ts / nat), feed["agg"], sorted(kinds), feed["bounds"],
              bool(feed.get("include")), bool(feed.get("exclude")), feed["strict"], outcome)

"""P23: the simulation does not depend on how configuration and forcing reach the model."""

import copy
import json
import resource
import signal
import sys

import pandas as pd
import xarray as xr

from ..common import *  # noqa: F403
from ..common import REAL_MODEL, STUB_WORLD, ASSUME
from .. import common, proc
from ..core import deep_merge
from ..world import set_path
from .p07_gridded_output import gen_fields

ID = "P23"
LEVEL = "exploration"
N = {"quick": 150, "thorough": 3000}
REAL = REAL_MODEL + ["station file readers, callback interface, YAML reader, command line entry point, output files"]
STUB = STUB_WORLD + ["the coupled program behind the callback: replays the fields of a station-driven run"]
ASSUMPTIONS = ASSUME + [
    "callback runs without canopy, evapotranspiration and snow redistribution factors (these change the fields "
    "the callback has set)",
    "CSV stations are given in grid coordinates, the others in geographic ones: meteorological fields agree to 1e-6",
]
RULE = (
    "one evaluation = one time step (complete state, bit for bit) or one output variable compared with the "
    "reference run (configuration object, forcing in memory); distinct = (channel, snow model, time step, "
    "missing data, kind of injected failure) classes"
)
REQUIRED_PROBES = ("netcdf", "csv", "callback", "cli", "cli_failure", "missing_data", "callback_calls",
                   "end_date_only", "start_date_only", "defaults_spelled_out", "resumed_callback", "sparse_station",
                   "callback_exception", "old_spelling", "old_albedo", "old_cloudiness", "threshold_in_celsius")
FIELDS = ("temp", "precip", "rel_hum", "wind_speed", "cloud_factor", "cloud_fraction")
LOOSE = ("temp", "precip", "rel_hum", "wind_speed")
FAILURES = ("no_config", "bad_yaml", "bad_key", "no_meteo", "no_dem", "bad_dates", "file_limit", "file_limit")


def warm(root):
    common.warm(root)


def gen(rng, index, tier):
    chan = rng.pick(["netcdf", "csv", "callback", "callback", "cli", "cli", "cli_failure"])
    spec = gen_world(rng, steps=rng.randint(3, 16), svf="file")
    t = spec["time"]
    if chan == "cli" and t["timestep"] != "D" and rng.chance(0.6):
        # whole days, so that the end may be given as a date
        t["start"] = t["start"][:10] + " 00:00:00"
        per = int(pd.Timedelta("1D") / pd.Timedelta({"h": "1h"}.get(t["timestep"], t["timestep"])))
        t["steps"] = per * max(1, round(t["steps"] / per))
        if t["steps"] > 48:
            t["timestep"], t["steps"] = "6h", 8
    spec["weather"]["n"] = t["steps"] + 64
    spec["faults"] = gen_sensor_faults(rng, spec, rate=0.8)
    plain = chan == "callback"
    cfg = spec["cfg"] = gen_physics_cfg(rng, spec, **({"canopy": False, "et": False} if plain else {}))
    if plain:
        cfg.pop("extend_roi_with_stations", None)
    spec["chan"] = chan
    if chan == "callback":
        spec["fail_at"] = rng.randrange(t["steps"]) if rng.chance(0.4) else None
    if chan.startswith("cli"):
        spec["forcing"] = rng.pick(["netcdf", "csv"])
        spec["out"] = {"timeseries": {"format": "netcdf"},
                       "grids": {"format": "netcdf",
                                 "variables": gen_fields(rng, spec, cfg["snow"]["model"], n=2)}}
        spec["spell"] = rng.chance(0.5)
        spec["old"] = rng.chance(0.5)
        if rng.chance(0.4):
            set_path(cfg, "meteo.precipitation_phase.threshold_temp", rng.pick([273.15, 273.65, 274.15]))
        if rng.chance(0.3):
            spec["old_albedo"] = rng.pick([{"method": "fsm"}, {"method": "usaco", "k_pos": rng.pick([0.12, 0.2]),
                                           "k_neg": rng.pick([0.05, 0.03]), "significant_snowfall": rng.pick([0.5, 2.0])}])
        spec["dateonly"] = [rng.chance(0.7), rng.chance(0.7)]
        if chan == "cli_failure":
            spec["failure"] = rng.pick(FAILURES)
    return spec


def extra_outputs(spec):
    return {"output_data": copy.deepcopy(spec.get("out", {}))} if spec.get("out") else {}


def reference(spec, ctx, extra=None, keep=()):
    """States and callback fields of every step of the run driven from memory, and the resulting model."""
    w, m = build(spec, ctx, extra)
    roi = np.array(m.grid.roi)
    states, fields = [], []
    for _ in range(len(w.dates)):
        m.run_single()
        account(ctx, w, spec)
        states.append(snapshot(m))
        fields.append({v: np.array(m.state.meteo[v])[roi] for v in FIELDS})
    if np.isnan(fields[0]["temp"]).any() or any(np.isnan(f["precip"]).any() for f in fields):
        ctx.probe("missing_data")
    return w, m, states, fields


def run(spec, ctx):
    count_faults(ctx, spec)
    chan = spec["chan"]
    ctx.probe(chan)
    if any(set(s["vars"]) != {"temp", "precip", "rel_hum", "wind_speed", "sw_in"} for s in spec["stations"]):
        ctx.probe("sparse_station")
    if chan.startswith("cli"):
        return cli(spec, ctx)
    w, m0, states, fields = reference(spec, ctx)
    if chan == "callback":
        return callback(spec, ctx, w, m0, states, fields)
    d = w.root / "met"
    (w.write_netcdf if chan == "netcdf" else w.write_csv)(d, w.records())
    meteo = {"format": chan, "dir": str(d), "bounds": "global"}
    if chan == "csv":
        meteo["crs"] = w.crs
    try:
        m = new_model(w, w.root / "g", w.root / "r2", {"input_data": {"meteo": meteo}})
    except Exception as e:  # noqa: BLE001
        raise Violation("channel-rejected", f"the {chan} files of a run that works from memory were rejected: "
                        f"{type(e).__name__}: {e}") from e
    roi = np.array(m.grid.roi)
    for k in range(len(w.dates)):
        m.run_single()
        account(ctx, w, spec)
        ctx.ok()
        if chan == "netcdf":
            diff_states(states[k], snapshot(m), f"step {k}: forcing from NetCDF files instead of memory", step=k)
        else:
            for v in LOOSE:
                a, b = states[k]["meteo." + v][roi], np.array(m.state.meteo[v])[roi]
                ok = (np.abs(a - b) <= 1e-6 * (1 + np.abs(a))) | (np.isnan(a) & np.isnan(b))
                if not ok.all():
                    i = int(np.flatnonzero(~ok)[0])
                    raise Violation("channel-differs", f"step {k}: {v} is {b[i]!r} with forcing from CSV files, "
                                    f"{a[i]!r} from memory", step=k)
        ctx.state(chan, spec["cfg"]["snow"]["model"], spec["time"]["timestep"],
                  bool(np.isnan(states[k]["meteo.temp"][roi]).any()))
    ctx.hash_array("swe", np.array(m.state.snow.swe)[roi])


def callback(spec, ctx, w, m0, states, fields):
    calls = []
    fail = {"at": spec.get("fail_at")}

    def cb(model):
        if fail["at"] == model.date_idx:
            raise RuntimeError("injected")
        calls.append((model.date_idx, model.date))
        r = model.grid.roi
        for v in FIELDS:
            model.state.meteo[v][r] = fields[model.date_idx][v]

    extra = {"input_data": {"meteo": {"format": "callback"}}}
    # (methods that need stations are not available)
    m = new_model(w, w.root / "g", w.root / "r2", extra, callback=cb)
    roi = np.array(m.grid.roi)
    # station-only fields; terrain reflection onto stations does not exist without stations
    skip = {"meteo.wind_speed_gust", "meteo.wind_dir"}
    for k in range(len(w.dates)):
        if fail["at"] == k:
            ctx.probe("callback_exception")
            ctx.fault("callback_exception")
            try:
                m.run_single()
            except RuntimeError:
                pass
            else:
                raise Violation("exception-swallowed", "an exception of the meteo callback was swallowed")
            fail["at"] = None
            # The coupled program recovered: repeat the step
            m.date_idx = k - 1 if k else None
            ctx.probe("resumed_callback")
        m.run_single()
        account(ctx, w, spec)
        ctx.ok()
        got = snapshot(m)
        ref = {n: a for n, a in states[k].items() if n not in skip}
        if k < len(states):
            diff_states(ref, got, f"step {k}: fields from a callback instead of stations", step=k)
        ctx.state("callback", spec["cfg"]["snow"]["model"], spec["time"]["timestep"],
                  bool(np.isnan(states[k]["meteo.temp"][roi]).any()))
    want = [(k, d) for k, d in enumerate(w.dates)]
    if calls != want:
        raise Violation("callback-calls", f"the callback was called for {calls}, the run has {want}")
    ctx.probe("callback_calls")
    ctx.hash_array("swe", np.array(m.state.snow.swe)[roi])


def yaml_text(cfg):
    """A configuration file as a user would write it: dates unquoted."""
    lines = []
    for k, v in cfg.items():
        if k in ("start_date", "end_date"):
            lines.append(f"{k}: {v}")
        elif isinstance(v, dict):
            lines.append(f"{k}:")
            for a, b in v.items():
                lines.append(f"  {a}: {json.dumps(b)}")
        else:
            lines.append(f"{k}: {json.dumps(v)}")
    return "\n".join(lines) + "\n"


def cli(spec, ctx):
    w = World(spec, ctx.newdir("w"))
    g = w.write_grids(w.root / "g")
    met = w.root / "met"
    (w.write_netcdf if spec["forcing"] == "netcdf" else w.write_csv)(met, w.records())
    meteo = {"format": spec["forcing"], "dir": str(met), "bounds": "global"}
    if spec["forcing"] == "csv":
        meteo["crs"] = w.crs
    extra = deep_merge({"input_data": {"meteo": meteo}}, extra_outputs(spec))
    failure = spec.get("failure")
    alb = spec.get("old_albedo")
    new = {}
    if alb and alb["method"] == "fsm":
        new = {"decay_timescale_determination_temperature": "surface", "refresh_method": "continuous"}
    elif alb:
        new = {"cold_snow_decay_timescale": 1 / alb["k_neg"] * 24, "melting_snow_decay_timescale": 1 / alb["k_pos"] * 24,
               "decay_timescale_determination_temperature": "air", "refresh_method": "binary",
               "refresh_snowfall": alb["significant_snowfall"]}

    def api():
        m = new_model(w, g, w.root / "ref", deep_merge(extra, {"snow": {"albedo": new}}))
        m.run()
        return len(m.dates)

    n = proc.call(api)
    for _ in range(n):
        account(ctx, w, spec)
    cfg = w.config(g, w.root / "out", extra)
    ts = pd.Timedelta(seconds=w.ts_seconds)
    start, end = w.dates[0], w.dates[-1]
    if spec["dateonly"][0] and start == start.normalize():
        cfg["start_date"] = str(start.date())
        ctx.probe("start_date_only")
    if spec["dateonly"][1] and (end + ts == (end + ts).normalize() or w.timestep == "D") and end == (
            end.normalize() + pd.Timedelta("1D") - ts):
        cfg["end_date"] = str(end.date())
        ctx.probe("end_date_only", ts < pd.Timedelta("1D"))
    if spec["spell"]:
        ctx.probe("defaults_spelled_out")
        for path, v in {"snow.albedo.min": 0.55, "snow.roughness_length": 0.01, "soil.albedo": 0.2}.items():
            cur = cfg
            for part in path.split(".")[:-1]:
                cur = cur.get(part, {})
            default = defaults(path)
            if path.split(".")[-1] not in cur and default is not None:
                set_path(cfg, path, default)
    if alb:
        cfg.setdefault("snow", {}).setdefault("albedo", {}).update(alb)
        ctx.probe("old_albedo")
    if spec.get("old"):
        deprecated(cfg, ctx)
    date_forms(cfg, w, ts)
    ctx.ok()
    file = w.root / "config.yml"
    text = yaml_text(cfg)
    if failure == "bad_yaml":
        text += "snow: [unclosed\n"
    elif failure == "bad_key":
        text += "no_such_option: 1\n"
    elif failure == "bad_dates":
        text = text.replace(f"end_date: {cfg['end_date']}", "end_date: 1999-13-45")
    if failure != "no_config":
        file.write_text(text)
    if failure == "no_meteo":
        for f in sorted(met.iterdir()):
            f.unlink()
    elif failure == "no_dem":
        (g / f"dem_sim_{w.res}.asc").unlink()

    def main():
        from openamundsen import cli as entry

        if failure == "file_limit":  # writing results fails once a file has this size
            signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
            resource.setrlimit(resource.RLIMIT_FSIZE, (3000, 3000))
        sys.argv = ["openamundsen", str(file)]
        sys.stdout = sys.stderr = open(w.root / "log.txt", "w")
        try:
            entry.main()
        except SystemExit as e:
            return e.code
        return 0

    r = proc.Task(main).result()
    ok = r[0] == "ok" and r[1] in (0, None)
    ctx.ok()
    if failure:
        ctx.fault("cli_" + failure)
        ctx.state("cli_failure", failure)
        if ok:
            raise Violation("cli-success", f"the command line run succeeded in spite of {failure}")
        return
    if not ok:
        raise Violation("cli-failed", f"the command line run of a configuration that works from Python failed: {r[1:3]}",
                        traceback=r[-1] if r[0] == "raise" else None)
    account(ctx, w, spec)
    ref = sorted(p.name for p in (w.root / "ref").iterdir())
    got = sorted(p.name for p in (w.root / "out").iterdir())
    if ref != got:
        raise Violation("cli-files", f"the command line run wrote {got}, the run from Python {ref}")
    for name in ref:
        with xr.open_dataset(w.root / "ref" / name, engine="netcdf4") as a, \
                xr.open_dataset(w.root / "out" / name, engine="netcdf4") as b:
            if set(a.variables) != set(b.variables):
                raise Violation("cli-files", f"{name}: variables {sorted(b.variables)} instead of {sorted(a.variables)}")
            for v in sorted(a.variables):
                ctx.ok()
                if not a[v].identical(b[v]) and not same(a[v].values, b[v].values):
                    raise Violation("cli-differs", f"{v} in {name} differs between the command line run and the run "
                                    "from Python", var=v)
                if a[v].dtype.kind == "f":
                    ctx.hash_array(v, a[v].values)
    ctx.state("cli", spec["forcing"], spec["cfg"]["snow"]["model"], spec["time"]["timestep"])


def deprecated(cfg, ctx):
    """The same configuration in the deprecated spellings that are still accepted."""
    if cfg.get("snow", {}).get("model") == "multilayer":
        cfg["snow"]["model"] = "layers"
        ctx.probe("old_spelling")
    if cfg["timestep"].endswith("h"):
        cfg["timestep"] = cfg["timestep"][:-1] + "H"
    ip = cfg.get("meteo", {}).get("interpolation", {})
    if "wind" in ip:
        ip["wind_speed"] = ip.pop("wind")
    cl = ip.get("cloudiness", {})
    for old, name in (("day_method", "method"), ("night_method", "clear_sky_fraction_night_method")):
        if name in cl:
            cl[old] = cl.pop(name)
            ctx.probe("old_cloudiness")
    ph = cfg.get("meteo", {}).get("precipitation_phase", {})
    c = round(ph.get("threshold_temp", 0.0) - 273.15, 6)
    if "threshold_temp" in ph and c + 273.15 == ph["threshold_temp"] and abs(c) < 20:
        ph["threshold_temp"] = c
        ctx.probe("threshold_in_celsius")


def date_forms(cfg, w, ts):
    """Strings, dates, datetimes and timestamps mean the same points in time."""
    import openamundsen as oa

    start, end = w.dates[0], w.dates[-1]
    last = end.normalize() + (pd.Timedelta("1D") - ts if ts < pd.Timedelta("1D") else pd.Timedelta(0))
    forms = [(end, end), (end.to_pydatetime(), end), (str(end), end), (end.date(), last), (str(end.date()), last)]
    for form, want in forms:
        if (want - start) % ts:
            continue  # (not a multiple of the time step: rejected)
        c = oa.parse_config(oa.Configuration.fromDict({**cfg, "start_date": start.to_pydatetime(), "end_date": form}))
        if pd.Timestamp(c["end_date"]) != want or pd.Timestamp(c["start_date"]) != start:
            raise Violation("dates-differ", f"end_date {form!r} ({type(form).__name__}) with time step {cfg['timestep']} "
                            f"means {c['end_date']} instead of {want}")


def defaults(path):
    import openamundsen as oa

    c = oa.parse_config({"domain": "x", "start_date": "2020-01-01", "end_date": "2020-01-02", "resolution": 50,
                         "timezone": 1, "crs": "epsg:32632", "input_data": {"meteo": {"format": "memory"},
                                                                           "grids": {"dir": "."}}})
    for part in path.split("."):
        c = c[part]
    return c

"""P20: the snowpack evolves by the documented processes, step by step, in every weather and outage history."""

import math

from ..common import *  # noqa: F403
from ..common import REAL_MODEL, STUB_WORLD, ASSUME
from .. import common
from .. import snowref as R
from ..world import set_path

ID = "P20"
LEVEL = "exploration"
N = {"quick": 330, "thorough": 8000}
REAL = REAL_MODEL
STUB = STUB_WORLD
ASSUMPTIONS = ASSUME + [
    "atmospheric forcing of a pixel taken from the model (P16-P18 decide it)",
    "no glaciers, no snow management",
]
RULE = (
    "one evaluation = one (pixel, time step) whose complete snow state was predicted from the model's previous "
    "state by a naive per-pixel reference model; distinct = sets of processes that were active"
)
PROBES = {
    "multilayer": ("new_pack", "snowfall", "partial_melt", "all_melts", "warm_layer", "frost", "sublimation",
                   "refreezing", "layers1", "layers2", "layers3", "vanished", "missing_energy"),
    "cryolayers": ("new_layer", "layer_gone", "cold_content", "cold_content_used", "secant", "warm_surface",
                   "legacy", "temperature_index", "enhanced_temperature_index", "move0i", "move0m", "move1i",
                   "firn_surface", "ice_surface", "move2i", "move2m", "move1m", "initial_ice"),
}
REQUIRED_PROBES = PROBES["multilayer"] + PROBES["cryolayers"]
MET = ("temp", "wet_bulb_temp", "snowfall", "rainfall", "wind_speed", "spec_hum", "atmos_press",
       "dry_air_density", "sw_in", "lw_in")
ATOL = {"snow.num_layers": 0}


def warm(root):
    common.warm(root)


def gen(rng, index, tier):
    opt = {}
    if rng.chance(0.25):
        opt["start"] = (rng.pick(["2020-02-29", "2020-03-31", "2020-04-30", "2020-09-30"])
                        + rng.pick([" 00:00", " 00:00", " 02:00", " 17:00"]))
        if rng.chance(0.5):
            opt["timestep"] = rng.pick(["h", "3h", "5h", "7h"])
            opt["steps"] = rng.randint(8, 30)
    spec = gen_world(rng, **opt)
    if rng.chance(0.15):
        spec["grid"]["forest"] = True
    spec["faults"] = gen_sensor_faults(rng, spec, rate=0.8)
    cfg = spec["cfg"] = gen_physics_cfg(rng, spec)
    swarm(rng, cfg)
    if "start" in opt and cfg["snow"]["model"] == "cryolayers":
        set_path(cfg, "snow.cryolayers.transition.firn", int(opt["start"][5:7]) + 1)
        set_path(cfg, "snow.cryolayers.transition.old_snow", rng.pick([60.0, 100.0, 150.0]))
    if cfg["snow"]["model"] == "cryolayers" and rng.chance(0.9 if "start" in opt else 0.35):
        spec["initial_ice"] = gen_ice(rng)
    return spec


def gen_ice(rng):
    out = []
    for _ in range(rng.randint(1, 6)):
        p = [rng.randint(0, 8), rng.randint(0, 8)]
        if rng.chance(0.6):
            out.append({"p": p, "layer": 3, "we": rng.pick([0.5, 5.0, 9000.0])})
        if rng.chance(0.6):
            out.append({"p": p, "layer": 2, "we": rng.pick([0.3, 20.0, 2000.0]),
                        "rho": rng.pick([520.0, 700.0, 899.99, 899.9999])})
    return out


def swarm(rng, cfg):
    for path, vals in {
        "snow.albedo.min": [0.3, 0.5], "snow.albedo.max": [0.8, 0.95],
        "snow.albedo.cold_snow_decay_timescale": [50, 1000],
        "snow.albedo.melting_snow_decay_timescale": [20, 400],
        "snow.albedo.refresh_snowfall": [0.1, 2.0],
        "snow.albedo.firn": [0.3, 0.45],
        "snow.thermal_conductivity": [0.1, 0.6], "snow.roughness_length": [0.001, 0.05],
        "soil.roughness_length": [0.02, 0.3], "soil.albedo": [0.1, 0.3],
        "soil.sand_fraction": [0.3, 0.7], "soil.clay_fraction": [0.1, 0.25],
        "soil.init_moisture_content": [0.2, 0.9], "soil.init_temp": [265.0, 272.0, 275.0],
        "soil.thickness": [[0.05, 0.1, 0.4], [0.2, 0.3], [0.1]],
        "soil.saturated_soil_surface_conductance": [0.002, 0.02],
        "snow.cryolayers.surface_heat_flux": [0, -8],
        "snow.cryolayers.cold_holding_capacity": [0.01, 0.2],
        "meteo.measurement_height.temperature": [3, 10], "meteo.measurement_height.wind": [3, 10],
        "meteo.stability_adjustment_parameter": [2, 8],
        "meteo.radiation.snow_emissivity": [0.9, 1.0],
        "snow.melt.threshold_temp": [272.15, 274.65],
        "snow.compaction.timescale": [50, 400], "snow.compaction.max_cold_density": [250, 350],
        "snow.compaction.max_melting_density": [400, 550],
    }.items():
        if rng.chance(0.12):
            if path.startswith("snow.melt") and cfg["snow"].get("melt", {}).get("method",
                                                                               "energy_balance") == "energy_balance":
                continue
            set_path(cfg, path, rng.pick(vals))


def judge(name, got, want, tol, where, step):
    g, x = np.atleast_1d(np.asarray(got, float)), np.atleast_1d(np.asarray(want, float))
    bad = ~((np.abs(g - x) <= tol + 1e-7 * np.abs(x)) | (np.isnan(g) & np.isnan(x)))
    if bad.any():
        raise Violation("snow-differs", f"{name} {where} is {g.tolist()}, the reference model says "
                        f"{x.tolist()}", var=name, step=step)


def initial_ice(w, m, spec, ctx):
    """Firn and ice that is already there (set by the caller, as for glacier runs)."""
    ini = spec.get("initial_ice")
    if not ini or m.config["snow"]["model"] != "cryolayers":
        return
    s = m.state.snow
    for x in ini:
        p = (x["p"][0] % w.rows, x["p"][1] % w.cols)
        if not m.grid.roi[p]:
            continue
        k = x["layer"]
        rho = m.config["snow"]["cryolayers"]["transition"]["ice"] if k == 3 else x["rho"]
        s.ice_content[k, p[0], p[1]] = x["we"]
        s.density[k, p[0], p[1]] = rho
        s.thickness[k, p[0], p[1]] = x["we"] / rho
        s.layer_albedo[k, p[0], p[1]] = m.config["snow"]["albedo"]["ice" if k == 3 else "firn"]
        ctx.probe("initial_ice" if k == 3 else "initial_firn")


def drive(spec, ctx, judged, after_step=None, ready=None, schedule=None, before_step=None):
    """Run the model; judged(name) tells which variables are compared; after_step(w, m, k, pred) may amend the
    predictions {pixel: (outputs, tie, previous state, forcing, processes)} of a step; schedule: the time steps
    to be run, {index: predicted or not} (the simulated clock jumps over the others)."""
    count_faults(ctx, spec)
    w, m = build(spec, ctx)
    cfg = m.config
    initial_ice(w, m, spec, ctx)
    if ready is not None:
        ready(w, m)
    roi = np.array(m.grid.roi)
    pix = [tuple(int(v) for v in p) for p in np.argwhere(roi)]
    multi = cfg["snow"]["model"] == "multilayer"
    emis = cfg["meteo"]["radiation"]["snow_emissivity"]
    dt = float(w.ts_seconds)
    soil = R.soil_constants(cfg)
    dates = list(m.dates)
    layer_vars = {"th": "thickness", "ice": "ice_content", "lwc": "liquid_water_content"}
    if multi:
        layer_vars.update(T="temp", k="therm_cond")
    else:
        layer_vars.update(cc="cold_content", rho="density", la="layer_albedo")
    if schedule is None:
        schedule = dict.fromkeys(range(len(dates)), True)
    for k in sorted(schedule):
        if k > 0:
            m.date_idx = k - 1
        if before_step is not None:
            before_step(w, m, k)
        s, sf = m.state.snow, m.state.surface
        prev = {v: np.array(s[n], copy=True) for v, n in layer_vars.items()}
        palb, pn, pts = (np.array(a, copy=True) for a in (s.albedo, s.num_layers, sf.temp))
        pst = np.array(m.state.soil.temp, copy=True) if multi else None
        m.run_single()
        account(ctx, w, spec)
        if not schedule[k]:
            if after_step is not None:
                after_step(w, m, k, None)
            continue
        met = {v: np.array(m.state.meteo[v]) for v in MET}
        firn_now = (k > 0 and dates[k].month == cfg["snow"]["cryolayers"]["transition"]["firn"]
                    and dates[k - 1].month != dates[k].month)
        cold = [met["temp"][p] for p in pix if met["temp"][p] < T0
                and (prev["th"][:, p[0], p[1]].sum() > 0 or met["snowfall"][p] > 0)]
        floor = (min(cold) if cold else T0) - 3.0
        pred = {}
        for p in pix:
            mp = {v: float(a[p]) for v, a in met.items()}
            pv = {v: [float(x) for x in a[:, p[0], p[1]]] for v, a in prev.items()}
            pv.update(n=int(pn[p]), alb=float(palb[p]), ts=float(pts[p]))
            if multi:
                pv["soilT"] = [float(x) for x in pst[:, p[0], p[1]]]
                o, tie, cls = R.multilayer_step(pv, mp, cfg, dt, soil, emis)
            else:
                o, t, cls, tol = R.cryo_step(pv, mp, cfg, dt, emis, firn_now, floor)
                mts = float(sf.temp[p])
                E = math.nan
                if "_fx" in o:
                    fx, L, snow = o.pop("_fx"), o.pop("_L"), o.pop("_snow")
                    if o.pop("model_ts", False):
                        # the iteration stops within its tolerance: take the model's value if it is close
                        if abs(mts - o["surface.temp"]) <= tol["surface.temp"]:
                            o["surface.temp"] = mts
                    ts = o["surface.temp"]
                    q = R.qsat(mp["atmos_press"], ts)
                    psi = 1.0 if snow or q < mp["spec_hum"] else math.nan
                    E = fx.moisture(ts, psi)
                    o["surface.moisture_flux"], o["surface.lat_heat_flux"] = E, L * E
                    o["surface.sens_heat_flux"] = fx.sensible(ts)
                    o["surface.advective_heat_flux"] = fx.advective(ts)
                    o["meteo.sw_out"], o["meteo.lw_out"], o["meteo.net_radiation"] = fx.radiation(ts)
                R.cryo_finish(o, mp, cfg, dt, E, firn_now, t, cls)
                tie = t.tie
            for c in cls:
                ctx.probe(c)
            ctx.state(multi, *sorted(cls))
            ctx.probe("tie", tie)
            pred[p] = (o, tie, pv, mp, cls)
        if after_step is not None:
            after_step(w, m, k, pred)
        for p, (o, tie, pv, mp, cls) in pred.items():
            if tie:
                continue
            ctx.ok()
            where = f"at step {k} ({dates[k]}), pixel {p} ({cfg['snow']['model']})"
            for name, x in o.items():
                if not judged(name):
                    continue
                cat, v = name.split(".")
                a = m.state[cat][v]
                got = a[:, p[0], p[1]] if a.ndim == 3 else a[p]
                judge(name, got, x, 1e-7, where, k)
            yield w, m, k, p, pv, mp, o, cls
        ctx.hash_array("swe", np.array(s.swe)[roi])


def run(spec, ctx):
    for _ in drive(spec, ctx, lambda name: name.startswith("snow.")):
        pass

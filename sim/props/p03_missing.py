"""P03: sensor outages never crash, hang or permanently poison a run, and recovery is bounded."""

from ..common import *  # noqa: F403
from ..common import REAL_MODEL, STUB_WORLD, ASSUME
from .. import common
from .p20_snow_processes import gen_ice, initial_ice

ID = "P03"
LEVEL = "exploration"
N = {"quick": 360, "thorough": 5000}
REAL, STUB = REAL_MODEL, STUB_WORLD
ASSUMPTIONS = ASSUME + [
    "bounded recovery = meteorological fields are available in the step the data is back, surface "
    "fields and fluxes at the latest one step later"
]
RULE = (
    "one evaluation = one time step at which all retained state was required to be finite, missing "
    "variables to be reported as missing, and (if data is available) derived fields to be present; "
    "distinct = (snow model, options, which variables are available, snow present, steps since "
    "outage) classes"
)
REQUIRED_PROBES = ("blackout_with_snow", "blackout_at_start", "recovered", "no_radiation_data",
                   "humidity_without_temp", "canopy_blackout", "et_blackout", "rad_station_off_roi")

METEO_FULL = ("temp", "precip", "rel_hum", "wind_speed", "snowfall", "rainfall", "sw_in",
              "cloud_fraction", "vap_press", "wet_bulb_temp", "atmos_press")
FLUXES = ("runoff", "melt", "sublimation", "refreezing", "swe", "depth")
RECOVER_STEPS = 1


def warm(root):
    common.warm(root)


def gen(rng, index, tier):
    spec = gen_world(rng, nan=0, regime=rng.pick(["cold", "mild", "swing", "melt", "storm", "warm"]))
    if rng.chance(0.4):
        spec["grid"]["forest"] = True
    spec["faults"] = gen_sensor_faults(
        rng, spec, rate=1.25, kinds=("blackout", "blackout", "vargap", "gap", "flap")
    )
    if rng.chance(0.3):
        # radiation sensor lost for long
        spec["faults"].append({"kind": "gap", "st": "*", "var": "sw_in", "at": rng.randrange(8),
                               "len": rng.randint(5, 30)})
    spec["cfg"] = gen_physics_cfg(rng, spec, canopy=rng.chance(0.3), et=rng.chance(0.25))
    if spec["cfg"]["snow"]["model"] == "cryolayers" and rng.chance(0.35):
        spec["initial_ice"] = gen_ice(rng)
    return spec


def run(spec, ctx):
    count_faults(ctx, spec)
    w, m = build(spec, ctx)
    recs = w.records()
    roi = m.grid.roi
    s = m.state
    model = m.config.snow.model
    init = {}
    for cat, name, a in state_vars(m):
        meta = s.meta(f"{cat}.{name}")
        if meta.retain and a.dtype.kind == "f" and (cat, name) != ("surface", "temp"):
            init[cat, name] = np.isfinite(a) & roi
    initial_ice(w, m, spec, ctx)
    n_roi_rad = int((m.meteo.within_roi.values).sum())
    off_roi = bool((m.meteo.within_grid_extent & ~m.meteo.within_roi).values.any())
    since_full = -1  # number of completed steps with complete data in a row
    outage_seen = False

    def av(k, *vs):
        return any(
            all(v in df.columns and np.isfinite(df[v].iloc[k]) for v in vs) for df in recs.values()
        )

    for k in range(len(m.dates)):
        had_snow = bool((s.snow.swe[roi] > 0).any())
        m.run_single()
        account(ctx, w, spec)
        for (cat, name), f in init.items():
            a = s[cat][name]
            bad = f & ~np.isfinite(a)
            if bad.any():
                p = tuple(int(v) for v in np.argwhere(bad)[0])
                raise Violation(
                    "poisoned-state",
                    f"step {k} ({m.date}): retained state {cat}.{name} became missing at {p} "
                    f"({model})", step=k, var=f"{cat}.{name}")
        t_ok, th_ok, w_ok = av(k, "temp"), av(k, "temp", "rel_hum"), av(k, "wind_speed")
        for ok, var in ((t_ok, "temp"), (th_ok, "rel_hum"), (w_ok, "wind_speed")):
            vals = s.meteo[var][roi]
            if not ok and not np.isnan(vals).all():
                raise Violation("invented-data", f"step {k} ({m.date}): no station reports {var} but "
                                f"the field holds {vals[np.isfinite(vals)][:3]}", step=k)
            if ok and np.isnan(vals).any():
                raise Violation("lost-data", f"step {k} ({m.date}): {var} is observed but missing in "
                                f"the model field", step=k)
        full = t_ok and th_ok and w_ok
        for v in FLUXES:
            vals = s.snow[v][roi]
            if model == "cryolayers" and (v == "refreezing" or (v == "melt" and not full)):
                continue  # not computed by this model / unknown during the outage
            if np.isnan(vals).any():
                raise Violation(
                    "missing-flux",
                    f"step {k} ({m.date}): snow.{v} is missing at {first_bad(np.isnan(vals), roi)} ({model})",
                    step=k, var=f"snow.{v}")
        if full:
            since_full += 1
            for v in METEO_FULL:
                vals = s.meteo[v][roi]
                if np.isnan(vals).any():
                    raise Violation(
                        "no-recovery",
                        f"step {k} ({m.date}): temperature, humidity and wind are available but "
                        f"meteo.{v} is missing at {first_bad(np.isnan(vals), roi)}", step=k, var=v)
            if since_full >= RECOVER_STEPS:
                for cat, v in (("meteo", "lw_in"), ("surface", "temp"), ("surface", "albedo"),
                               ("meteo", "lw_out"), ("meteo", "net_radiation"), ("meteo", "sw_out")):
                    if (cat, v) not in track(m):
                        continue
                    vals = s[cat][v][roi]
                    if np.isnan(vals).any():
                        raise Violation(
                            "no-recovery",
                            f"step {k} ({m.date}): data is complete since {since_full} steps but "
                            f"{cat}.{v} is still missing at {first_bad(np.isnan(vals), roi)} "
                            f"({model})", step=k, var=v)
                if outage_seen:
                    ctx.probe("recovered")
        else:
            since_full = -1
            outage_seen = True
        ctx.ok()
        ctx.probe("blackout_with_snow", not t_ok and had_snow)
        ctx.probe("blackout_at_start", k == 0 and not t_ok)
        ctx.probe("no_radiation_data", full and not av(k, "sw_in"))
        ctx.probe("humidity_without_temp", av(k, "rel_hum") and not th_ok)
        ctx.probe("canopy_blackout", not t_ok and bool(m.config.canopy.enabled))
        ctx.probe("et_blackout", not t_ok and bool(m.config.evapotranspiration.enabled))
        ctx.probe("rad_station_off_roi", off_roi and n_roi_rad == 0)
        ctx.state(model, bool(m.config.canopy.enabled), bool(m.config.evapotranspiration.enabled),
                  t_ok, th_ok, w_ok, av(k, "precip"), av(k, "sw_in"), had_snow, min(since_full, 3))
        ctx.event(k, t_ok, th_ok, w_ok, float(np.nansum(s.snow.swe[roi])))
        ctx.hash_array("swe", s.snow.swe)


def track(m):
    """Diagnostic fields which the active configuration computes everywhere."""
    out = {("meteo", "lw_in"), ("surface", "albedo")}
    if m.config.snow.model == "multilayer":
        out |= {("surface", "temp"), ("meteo", "lw_out"), ("meteo", "net_radiation"),
                ("meteo", "sw_out")}
    return out

"""P18: forest canopy - snow mass balance and inside-canopy meteorology under sensor outages."""

import math

from ..common import *  # noqa: F403
from ..common import REAL_MODEL, STUB_WORLD, ASSUME
from .. import common
from .p16_meteo_fields import clip, near

ID = "P18"
LEVEL = "exploration"
N = {"quick": 260, "thorough": 6000}
REAL = REAL_MODEL
STUB = STUB_WORLD
ASSUMPTIONS = ASSUME + [
    "effective leaf area index > 0 in forests",
    "the above-canopy fields are those of the same model without canopy (P16, P17 decide them)",
]
RULE = (
    "one evaluation = one (variable, time step) of the forest pixels compared with a naive reference model "
    "of the canopy or one mass balance; distinct = (timestep, land cover classes, missing variables, "
    "storage regime) classes"
)
REQUIRED_PROBES = ("forest", "no_forest", "interception", "sublimation", "melt", "full_storage",
                   "missing_temp", "missing_hum", "missing_temp_with_load", "window_wrapped", "lai_changes",
                   "outside_season", "night", "rain_on_load", "subcycles")

SB = 5.670374419e-8
LS = 2.501e6 + 0.334e6


def warm(root):
    common.warm(root)


def gen(rng, index, tier):
    spec = gen_world(rng, rows=rng.randint(2, 4), cols=rng.randint(2, 4), steps=rng.randint(6, 30),
                     timestep=rng.pick(["h", "3h", "3h", "6h", "12h", "D", "30min"]))
    if rng.chance(0.6):
        spec["weather"]["regime"] = rng.pick(["swing", "melt", "mild", "cold"])
    spec["grid"]["forest"] = rng.chance(0.85)
    spec["faults"] = gen_sensor_faults(rng, spec, rate=1.2)
    spec["cfg"] = gen_physics_cfg(rng, spec, canopy=True, et=rng.chance(0.3))
    cp = spec["cfg"]["canopy"]
    if rng.chance(0.5):
        cp.update(extinction_coefficient=rng.pick([0.3, 0.9]),
                  temperature_scaling_coefficient=rng.pick([0.5, 1.0]),
                  canopy_flow_index_coefficient=rng.pick([0.5, 1.2]),
                  max_interception_storage_coefficient=rng.pick([0.3, 4.4]),
                  exposure_coefficient_coefficient=rng.pick([0.01, 0.3]),
                  degree_day_factor=rng.pick([0.0, 5.0, 30.0]))
    doy = __import__("pandas").Timestamp(spec["time"]["start"]).dayofyear
    cls = {}
    if rng.chance(0.6):
        # growth stages around the simulated days
        ini = rng.randint(0, 4)
        cls["6"] = {"plant_date": max(1, min(366, doy - rng.randint(-3, 8))),
                    "growth_stage_lengths": [ini, rng.randint(1, 6), rng.randint(0, 5), rng.randint(1, 6)],
                    "leaf_area_index": {"min": rng.pick([0.1, 0.5]), "max": rng.pick([1.0, 4.4]),
                                        "effective_add": rng.pick([0.0, 1.9])}}
    if rng.chance(0.2):
        cls["5"] = {"plant_date": max(1, doy - rng.randint(0, 3)),
                    "growth_stage_lengths": [[1, 1, 1, 1], [0, 2, 1, 2]],
                    "leaf_area_index": {"min": 0.5, "max": 3.0, "effective_add": 0.2}}
    if cls:
        spec["cfg"]["land_cover"] = {"classes": cls}
    return spec


def stage_value(day, cycles, lo, hi):
    """LAI curve: rise, plateau and decline in each of the growing cycles."""
    t = 0
    for ini, dev, mid, late in cycles:
        rise = ini + dev
        for name, n in (("rise", rise), ("mid", mid), ("late", late)):
            if t < day <= t + n:
                f = (day - t) / n
                return {"rise": lo + f * (hi - lo), "mid": hi, "late": hi + f * (lo - hi)}[name]
            t += n
    return lo


def lai_eff(p, date, ctx=None):
    c = p["growth_stage_lengths"]
    c = [c] if not isinstance(c[0], list) else c
    la = p["leaf_area_index"]
    day = date.dayofyear - p["plant_date"] + 1
    if ctx is not None:
        ctx.probe("outside_season", day < 1 or day > sum(map(sum, c)))
        ctx.probe("subcycles", len(c) > 1)
    return stage_value(day, c, la["min"], la["max"]) + la.get("effective_add", 0)


def run(spec, ctx):
    w = World(spec, ctx.newdir("w"))
    count_faults(ctx, spec)
    g = w.write_grids(w.root / "g")
    recs = w.records()
    m = new_model(w, g, w.root / "r", meteo=w.dataset(recs))
    open_ = new_model(w, g, w.root / "o", {"canopy": {"enabled": False}}, meteo=w.dataset(recs))
    cfg = m.config
    cp = cfg["canopy"]
    classes = cfg["land_cover"]["classes"]
    roi = np.array(m.grid.roi)
    lc = np.array(w.lc)
    pix = [tuple(int(v) for v in p) for p in np.argwhere(roi)]
    forest = [p for p in pix if classes.get(int(lc[p]), {}).get("is_forest")]
    others = [p for p in pix if p not in forest]
    ctx.probe("forest" if forest else "no_forest")
    nwin = max(int(86400 / w.ts_seconds), 1)
    hist = {p: [] for p in forest}
    sn = m.state.snow
    load = {p: 0.0 for p in forest}
    last_lai = {}
    for k, date in enumerate(w.dates):
        alb0 = np.array(m.state.surface.albedo)
        m.run_single()
        open_.run_single()
        account(ctx, w, spec)
        mo, om = m.state.meteo, open_.state.meteo

        def differs(p, name, got, want, rtol=1e-6, atol=1e-7):
            ctx.ok()
            if not near(got, want, rtol, atol):
                raise Violation("canopy-differs", f"{name} at step {k} ({date}), pixel {p} is {got!r}, the "
                                f"reference model says {want!r}", var=name, step=k)

        for p in others:
            for v in ("temp", "rel_hum", "wind_speed", "snowfall", "rainfall", "precip"):
                ctx.ok()
                if not same(mo[v][p], om[v][p]):
                    raise Violation("canopy-outside-forest", f"{v} of the non-forest pixel {p} is changed "
                                    f"by the canopy model at step {k}", var=v, step=k)
            if spec["cfg"].get("evapotranspiration", {}).get("enabled") or forest:
                a = mo.sw_in_clearsky[p] * mo.cloud_factor[p]
                if not near(mo.sw_in[p], a, 1e-9, 1e-9):
                    raise Violation("canopy-outside-forest", f"sw_in of the non-forest pixel {p} is "
                                    f"changed at step {k}", step=k)
        for p in forest:
            le = lai_eff(classes[int(lc[p])], date, ctx)
            differs(p, "lai_eff", float(m.state.land_cover.lai_eff[p]), le)
            ctx.probe("lai_changes", p in last_lai and last_lai[p] != le)
            last_lai[p] = le
            t0, rh0, u0 = float(om.temp[p]), float(om.rel_hum[p]), float(om.wind_speed[p])
            sf0, rf0 = float(om.snowfall[p]), float(om.rainfall[p])
            sw0, lw0 = float(mo.top_canopy_sw_in[p]), float(mo.top_canopy_lw_in[p])
            differs(p, "top_canopy_temp", float(mo.top_canopy_temp[p]), t0)
            differs(p, "top_canopy_rel_hum", float(mo.top_canopy_rel_hum[p]), rh0)
            differs(p, "top_canopy_wind_speed", float(mo.top_canopy_wind_speed[p]), u0)
            differs(p, "top_canopy_sw_in", sw0, float(mo.sw_in_clearsky[p] * mo.cloud_factor[p]))
            fc = clip(0.55 + 0.29 * math.log(le), 0, 1)
            # --- meteorology
            hist[p].append(t0)
            win = [t for t in hist[p][-nwin:] if not math.isnan(t)]
            ctx.probe("window_wrapped", len(hist[p]) > nwin)
            t = t0
            if win:
                mean = sum(win) / len(win)
                t = t0 - fc * (t0 - (cp["temperature_scaling_coefficient"] * (t0 - mean) + mean
                                     - clip((mean - 273.15) / 3, -2, 2)))
            rh = clip(rh0 * (1 + 0.1 * fc), 0, 100)
            u = u0 * math.exp(-0.4 * cp["canopy_flow_index_coefficient"] * le)
            differs(p, "temp", float(mo.temp[p]), t)
            differs(p, "sw_in", float(mo.sw_in[p]), sw0 * math.exp(-cp["extinction_coefficient"] * le))
            differs(p, "lw_in", float(mo.lw_in[p]), (1 - fc) * lw0 + fc * SB * t**4)
            differs(p, "rel_hum", float(mo.rel_hum[p]), rh)
            differs(p, "wind_speed", float(mo.wind_speed[p]), u)
            # --- snow in the canopy
            r = cp["spherical_ice_particle_radius"]
            rate = math.nan
            alb = float(alb0[p])
            if all(map(math.isfinite, (t, rh, u, sw0, alb))):
                nu = 1.79 + 0.606 * math.sqrt(clip(2 * r * u / cp["kinematic_air_viscosity"], 0.7, 10))
                dens = 0.622 * float(mo.sat_vap_press[p]) / (461.52 * t)
                om_ = 1 / (0.025 * t * nu) * (LS * 0.0180153 / (8.314462618 * t) - 1)
                rate = (2 * math.pi * r * (rh / 100 - 1) - math.pi * r * r * (1 - alb) * sw0 * om_) / (
                    LS * om_ + 1 / (2.06e-5 * (t / 273.0) ** 1.75 * dens * nu))
            if math.isnan(rate):
                rate = 0.0
            cap = cp["max_interception_storage_coefficient"] * le
            sf = 0.0 if math.isnan(sf0) else sf0
            got = {v: float(sn[f"canopy_{v}"][p]) for v in ("intercepted_load", "intercepted_snowfall",
                                                           "sublimation", "melt")}
            inter = max(0.7 * (cap - load[p]) * (1 - math.exp(-sf / cap)), 0)
            differs(p, "canopy_intercepted_snowfall", got["intercepted_snowfall"], inter)
            l1 = load[p] + inter
            ce = cp["exposure_coefficient_coefficient"] * (l1 / cap) ** -0.4 if l1 > 0 else 0.0
            sub = max(min(-ce * l1 * rate / (4 / 3 * math.pi * 917.0 * r**3) * w.ts_seconds, l1), 0)
            differs(p, "canopy_sublimation", got["sublimation"], sub)
            melt = min(cp["degree_day_factor"] * max(0.0 if math.isnan(t) else t - 273.15, 0)
                       * w.ts_seconds / 86400, l1 - sub)
            differs(p, "canopy_melt", got["melt"], melt)
            differs(p, "canopy_intercepted_load", got["intercepted_load"], l1 - sub - melt)
            # --- balances on the reported values alone
            if min(got.values()) < 0 or got["intercepted_snowfall"] > sf * (1 + 1e-12):
                raise Violation("canopy-balance", f"negative canopy flux or more interception than "
                                f"snowfall at step {k}, pixel {p}: {got}, snowfall {sf}", step=k)
            bal = load[p] + got["intercepted_snowfall"] - got["sublimation"] - got["melt"]
            if not near(got["intercepted_load"], bal, 1e-9, 1e-9):
                raise Violation("canopy-balance", f"canopy snow is not conserved at step {k}, pixel {p}: "
                                f"{bal} expected, {got['intercepted_load']} stored", step=k)
            below = float(mo.snowfall[p])
            want = sf0 - got["intercepted_snowfall"] + got["melt"]
            if got["melt"] > 0 and math.isnan(sf0):
                want = got["melt"]
            if not near(below, want, 1e-9, 1e-9):
                raise Violation("canopy-balance", f"snowfall below the canopy at step {k}, pixel {p} is "
                                f"{below}, expected {want}", step=k)
            differs(p, "precip", float(mo.precip[p]), below + rf0, 1e-9)
            differs(p, "rainfall", float(mo.rainfall[p]), rf0, 1e-9)
            load[p] = got["intercepted_load"]
            ctx.probe("interception", inter > 0)
            ctx.probe("sublimation", sub > 0)
            ctx.probe("melt", melt > 0)
            ctx.probe("full_storage", l1 > 0.9 * cap)
            ctx.probe("missing_temp", math.isnan(t0))
            ctx.probe("missing_temp_with_load", math.isnan(t0) and l1 > 0)
            ctx.probe("missing_hum", math.isnan(rh0))
            ctx.probe("night", sw0 == 0)
            ctx.probe("rain_on_load", rf0 > 0 and l1 > 0)
            ctx.state(w.timestep, int(lc[p]), math.isnan(t0), math.isnan(rh0), math.isnan(u0), inter > 0,
                      sub > 0, melt > 0, l1 > 0.5 * cap)
        ctx.hash_array("load", np.array([load[p] for p in forest]))

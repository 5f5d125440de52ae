"""P21: the surface energy balance closes and drives melt, surface temperature, sublimation and soil heat."""

import math

from ..common import *  # noqa: F403
from ..common import REAL_MODEL, STUB_WORLD, ASSUME
from .. import common
from .. import snowref as R
from ..world import set_path
from .p20_snow_processes import drive, gen_ice, swarm

ID = "P21"
LEVEL = "exploration"
N = {"quick": 330, "thorough": 8000}
REAL = REAL_MODEL
STUB = STUB_WORLD
ASSUMPTIONS = ASSUME + [
    "atmospheric forcing of a pixel taken from the model (P16-P18 decide it)",
    "no glaciers, no snow management",
]
RULE = (
    "one evaluation = one (pixel, time step) whose surface fluxes, surface temperature, melt, sublimation and "
    "soil temperatures were compared with a naive per-pixel reference model and whose energy balance was "
    "summed up; distinct = sets of processes that were active"
)
REQUIRED_PROBES = ("partial_melt", "all_melts", "frost", "sublimation", "missing_energy", "frozen_soil",
                   "secant", "legacy", "legacy_floor", "warm_surface", "melting_air", "freezing_air",
                   "cold_content_used", "layer_gone", "snow_free", "closed_no_snow", "closed_snow",
                   "closed_secant", "stability_unstable", "stability_stable", "canopy")
EXTRA = ("snow.melt", "snow.refreezing", "snow.sublimation", "snow.cold_content")


def warm(root):
    common.warm(root)


def gen(rng, index, tier):
    opt = {}
    if rng.chance(0.4):
        opt["regime"] = rng.pick(["melt", "swing", "mild"])
    spec = gen_world(rng, **opt)
    spec["faults"] = gen_sensor_faults(rng, spec, rate=0.8)
    canopy = rng.chance(0.15)
    if canopy:
        spec["grid"]["forest"] = True
    cfg = spec["cfg"] = gen_physics_cfg(rng, spec, canopy=canopy)
    if cfg["snow"]["model"] == "cryolayers":
        melt = cfg["snow"].get("melt", {})
        melt.update(method="energy_balance")
        for k in ("degree_day_factor", "albedo_factor"):
            melt.pop(k, None)
        if rng.chance(0.3):
            set_path(cfg, "snow.cryolayers.surface_temperature_iteration_method", "legacy")
    if rng.chance(0.3):
        set_path(cfg, "meteo.stability_correction", True)
    swarm(rng, cfg)
    if cfg["snow"]["model"] == "cryolayers" and rng.chance(0.3):
        spec["initial_ice"] = gen_ice(rng)
    return spec


def run(spec, ctx):
    want = lambda n: n.split(".")[0] in ("surface", "meteo", "soil") or n in EXTRA  # noqa: E731
    for w, m, k, p, pv, mp, o, cls in drive(spec, ctx, want):
        st = m.state
        cfg = m.config
        em = cfg["meteo"]["radiation"]["snow_emissivity"]
        ctx.probe("canopy", bool(cfg["canopy"]["enabled"]))
        f = lambda c, v: float(st[c][v][p])  # noqa: E731
        ts = f("surface", "temp")
        if cfg["meteo"]["stability_correction"] and math.isfinite(mp["temp"]):
            ctx.probe("stability_stable" if mp["temp"] >= pv["ts"] else "stability_unstable")
        total = (f("meteo", "net_radiation") + f("surface", "sens_heat_flux") + f("surface", "lat_heat_flux")
                 + f("surface", "advective_heat_flux") - f("surface", "heat_flux"))
        if math.isnan(total):
            continue
        snowy = sum(pv["th"]) > 0 or mp["snowfall"] > 0
        ctx.probe("snow_free", not snowy)
        if cfg["snow"]["model"] == "multilayer":
            if "partial_melt" in cls or "all_melts" in cls:
                continue
            crossed = not snowy and (pv["ts"] < T0) != (ts < T0)
            if crossed:
                continue  # the latent heat changes between evaporation and sublimation
            d = ts - pv["ts"]
            tol = em * R.SB * (6 * max(ts, pv["ts"]) ** 2 * d**2 * 1.2) + 1e-6 * (1 + abs(total))
            ctx.probe("closed_snow" if snowy else "closed_no_snow")
        else:
            if "secant" not in cls or ts >= T0:
                continue
            r = mp["dry_air_density"] * f("surface", "turbulent_exchange_coeff") * mp["wind_speed"]
            slope = 4 * em * R.SB * T0**3 + r * (R.CP + 2.9e6 * 5e-4) + (
                R.CW * abs(mp["rainfall"]) + R.CI * abs(mp["snowfall"])) / w.ts_seconds
            tol = 0.02 * slope
            ctx.probe("closed_secant")
        if abs(total) > tol:
            raise Violation("energy-balance-open", f"the surface fluxes at step {k} ({m.date}), pixel {p} leave "
                            f"{total!r} W m-2 (tolerance {tol:.3g}) unaccounted for", step=k)

"""P19: evapotranspiration and soil water accounts under outages, rain, snow and season changes."""

import math

from ..common import *  # noqa: F403
from ..common import REAL_MODEL, STUB_WORLD, ASSUME
from .. import common
from .p16_meteo_fields import clip, near
from .p17_radiation import sun

ID = "P19"
LEVEL = "exploration"
N = {"quick": 300, "thorough": 7000}
REAL = REAL_MODEL
STUB = STUB_WORLD
ASSUMPTIONS = ASSUME + [
    "soil texture is known for all ET pixels",
    "the atmospheric forcing of a pixel is taken from the model (P16-P18 decide it)",
]
RULE = (
    "one evaluation = one (variable, pixel, time step) compared with a naive reference model (FAO-56 single "
    "and dual crop coefficients, soil water accounts, sealed surfaces); distinct = (land cover class, "
    "growth stage, snow cover, water stress, missing forcing) classes"
)
REQUIRED_PROBES = ("water", "sealed", "dual", "single", "sparse", "no_class", "snow_covered",
                   "water_snow", "stress", "surface_dry", "percolation", "sealed_runoff", "sealed_dry",
                   "missing_forcing", "subcycles", "initial", "development", "mid", "late", "outside",
                   "climate_correction", "canopy", "scaled_height", "depletion_at_limit", "night")

SB = 5.670374419e-8
LV = 2.501e6
FC = [0.12, 0.15, 0.23, 0.25, 0.29, 0.32, 0.335, 0.36, 0.36]
WP = [0.045, 0.065, 0.11, 0.12, 0.15, 0.17, 0.205, 0.23, 0.22]
REW = [4.5, 6.0, 8.0, 9.0, 9.5, 9.5, 9.5, 10.0, 10.0]
ADJ = [1.10, 1.075, 1.05, 1.025, 1.0, 0.975, 0.95, 0.925, 0.90]


def warm(root):
    common.warm(root)


def gen(rng, index, tier):
    import pandas as pd

    month = rng.pick([4, 5, 6, 7, 8, 9, 10, rng.randint(1, 12)])
    spec = gen_world(rng, rows=rng.randint(2, 4), cols=rng.randint(2, 5), steps=rng.randint(8, 40),
                     timestep=rng.pick(["h", "3h", "6h", "D", "D"]), month=month,
                     regime=rng.pick(["warm", "warm", "mild", "swing", "melt", "storm"]))
    spec["grid"]["forest"] = False
    spec["faults"] = gen_sensor_faults(rng, spec, rate=1.2)
    spec["cfg"] = gen_physics_cfg(rng, spec, canopy=rng.chance(0.35), et=True)
    et = spec["cfg"]["evapotranspiration"]
    if rng.chance(0.5):
        et.update(mean_wind_speed=rng.pick([0.5, 4.0, 9.0]), mean_min_humidity=rng.pick([10.0, 60.0, 90.0]),
                  min_crop_coefficient=rng.pick([0.15, 0.2]),
                  surface_soil_layer_evaporation_depth=rng.pick([0.1, 0.15, 0.02]),
                  grass_albedo=rng.pick([0.2, 0.3]), sealed_albedo=rng.pick([0.1, 0.5]),
                  grass_emissivity=rng.pick([0.9, 1.0]), sealed_emissivity=rng.pick([0.8, 1.0]))
    doy = pd.Timestamp(spec["time"]["start"]).dayofyear
    cls = {}
    if rng.chance(0.7):
        cls["4"] = {"plant_date": max(1, doy - rng.randint(-4, 12)),
                    "growth_stage_lengths": rng.pick([[2, 3, 4, 3], [1, 1, 0, 2], [[1, 2, 1, 1], [0, 2, 2, 1]],
                                                      [3, 3, 3, 3]]),
                    "rooting_depth": rng.pick([0.02, 0.1, 0.5]),
                    "scale_height": rng.chance(0.7)}
    if rng.chance(0.5):
        cls["8"] = {"crop_coefficient_type": rng.pick(["single", "dual"]),
                    "plant_date": max(1, doy - rng.randint(0, 6)),
                    "growth_stage_lengths": [rng.randint(0, 4), rng.randint(1, 5), rng.randint(0, 4),
                                             rng.randint(1, 5)],
                    "rooting_depth": rng.pick([0.03, 0.2, 1.35]), "max_height": rng.pick([0.5, 2.0])}
    if rng.chance(0.5):
        cls["7"] = {"is_sparse": True, "sparse_vegetation_fraction": rng.pick([0.1, 0.25, 0.6]),
                    "max_height": 3.0, "rooting_depth": rng.pick([0.05, 0.5])}
    if rng.chance(0.3):
        cls["2"] = {"max_sealed_interception": rng.pick([0.0, 0.2, 3.0])}
    if cls:
        spec["cfg"]["land_cover"] = {"classes": cls}
    return spec


def stage(day, p):
    """(stage, fraction elapsed)"""
    c = p["growth_stage_lengths"]
    c = [c] if not isinstance(c[0], list) else c
    t = 0
    for cyc in c:
        for name, n in zip(("initial", "development", "mid", "late"), cyc):
            if t < day <= t + n:
                return name, (day - t) / n
            t += n
    return "outside", 0.0


class Pixel:
    def __init__(self, p, soil, cfg):
        self.p, self.cfg = p, cfg
        et = cfg["evapotranspiration"]
        self.sealed = p.get("is_sealed", False)
        i = soil - 1
        self.tew = 1000 * (FC[i] - 0.5 * WP[i]) * et["surface_soil_layer_evaporation_depth"]
        self.rew = REW[i]
        self.taw = 1000 * (FC[i] - WP[i]) * p["rooting_depth"]
        self.raw = p["depletion_fraction"] * ADJ[i] * self.taw
        self.de = self.dr = self.store = 0.0
        u, h, z = clip(et["mean_wind_speed"], 1, 6), clip(et["mean_min_humidity"], 20, 80), clip(
            p["max_height"], 0.1, 10)
        self.clim = (0.04 * (u - 2) - 0.004 * (h - 45)) * (z / 3) ** 0.3

    def step(self, f, date, lat, ctx):
        """f: forcing of the pixel; returns {variable: value} (None = not checked)."""
        et = self.cfg["evapotranspiration"]
        p = self.p
        alb, em = (et["sealed_albedo"], et["sealed_emissivity"]) if self.sealed else (
            et["grass_albedo"], et["grass_emissivity"])
        rn = (1 - alb) * f["sw"] + f["lw"] - SB * em * f["t"] ** 4
        gflux = (0.1 if f["day"] else 0.5) * rn
        tc = f["t"] - 273.15
        dd = 4098 * 0.6108 * math.exp(17.27 * tc / (tc + 237.3)) / (tc + 237.3) ** 2 if math.isfinite(
            tc) else math.nan
        gm = f["psych"] / 1000
        u2 = f["u"] * math.log(2 / 0.03) / math.log(self.cfg["meteo"]["measurement_height"]["wind"] / 0.03)
        k = 3600e-6
        et0 = (0.408 * dd * (rn - gflux) * k + gm * 37 / (tc + 273) * u2 * (f["es"] - f["ea"]) / 1000) / (
            dd + gm * (1 + 0.34 * u2))
        et0 = max(et0, 0.0) * f["dt"] / 3600 if math.isfinite(et0) else math.nan
        out = {"et_ref": et0}
        ctx.probe("missing_forcing", math.isnan(et0))
        e0 = 0.0 if math.isnan(et0) else et0
        rain = 0.0 if math.isnan(f["rain"]) else f["rain"]
        out["deep_percolation"] = 0.0
        if self.sealed:
            ctx.probe("sealed")
            if f["snow"]:
                out.update(evaporation=0.0, transpiration=0.0, evapotranspiration=0.0,
                           sealed_interception=self.store)
                return out
            ev = 0.0
            if rain > 0:
                self.store += rain
                over = max(self.store - p["max_sealed_interception"], 0)
                self.store -= over
                out["deep_percolation"] = over
                ctx.probe("sealed_runoff", over > 0)
            else:
                mh = self.cfg["meteo"]["measurement_height"]
                zom, d = 0.123 * p["max_height"], 2 / 3 * p["max_height"]
                ra = math.log((mh["wind"] - d) / zom) * math.log((mh["temperature"] - d) / (0.1 * zom)) / (
                    0.4**2 * f["u"])
                rho = f["press"] / (287.058 * 1.01 * f["t"])
                cpa = f["psych"] * 0.622 * LV / f["press"]
                ev = (1e3 * dd * (rn - gflux) + rho * cpa * (f["es"] - f["ea"]) / ra) / (1e3 * dd + f["psych"])
                ev = 0.0 if math.isnan(ev) else min(max(ev, 0.0) / LV * f["dt"], self.store)
                self.store -= ev
                ctx.probe("sealed_dry", ev > 0)
            out.update(evaporation=ev, transpiration=0.0, evapotranspiration=ev,
                       sealed_interception=self.store)
            return out
        water = p.get("is_water_body", False)
        snow = f["snow"] and not water
        ctx.probe("water", water)
        ctx.probe("water_snow", water and f["snow"])
        ctx.probe("snow_covered", snow)
        ini, mid, end = p["crop_coefficients"]
        kmin = et["min_crop_coefficient"]
        sparse = p.get("is_sparse", False)
        if sparse:
            v = p["sparse_vegetation_fraction"]
            la = math.radians(lat)
            dec = math.asin(f["sin_dec"])
            s = math.sin(la) * math.sin(dec) + math.cos(la) * math.cos(dec)
            mid = kmin + (mid - kmin) * min(1, 2 * v, max(v / s, 0) ** (1 / (1 + p["max_height"])))
            ctx.probe("sparse")
        if mid >= 0.45:
            mid += self.clim
        if end >= 0.45:
            end += self.clim
        ctx.probe("climate_correction", self.clim != 0)
        name, fr = stage(date.dayofyear - p["plant_date"] + 1, p)
        ctx.probe(name)
        ctx.probe("subcycles", isinstance(p["growth_stage_lengths"][0], list))
        kc = {"outside": kmin, "initial": ini, "development": ini + fr * (mid - ini), "mid": mid,
              "late": mid + fr * (end - mid)}[name]
        hmax = p["max_height"]
        low = {"outside": 0.0, "initial": kmin / mid * hmax, "development": ini / mid * hmax}.get(name, hmax)
        height = max(kc / mid * hmax, low) if p.get("scale_height", True) else hmax
        ctx.probe("scaled_height", p.get("scale_height", True))
        out["plant_height"] = height
        dual = p["crop_coefficient_type"] == "dual"
        ctx.probe("dual" if dual else "single")
        ev = tr = None
        ks = math.nan
        if not snow and dual:
            kmax = max(1.2 + self.clim, kc + 0.05)
            veg = p["sparse_vegetation_fraction"] if sparse else (
                max(kc - kmin, 0.01) / (kmax - kmin)) ** (1 + 0.5 * height)
            few = min(1 - veg, 1.0)
            kr = 1.0
            if self.de > self.rew:
                kr = (self.tew - self.de) / (self.tew - self.rew)
                ctx.probe("surface_dry")
            ke = min(kr * (kmax - kc), few * kmax)
            ev, tr = ke * e0, kc * e0
            dp = max(rain - self.de, 0)
            self.de = min(max(self.de - rain + ev / few + dp, 0), self.tew)
            out["deep_percolation_evaporation_layer"] = dp
            out.update(basal_crop_coeff=kc, evaporation_coeff=ke, crop_coeff=kc + ke)
        elif not snow:
            out["crop_coeff"] = kc
        if snow:
            total = 0.0
            if dual:
                ev = tr = 0.0
        else:
            total = (ev + tr) if dual else kc * e0
        if not water:
            if not snow:
                ks = clip((self.taw - self.dr) / (self.taw - self.raw), 0, 1)
                ctx.probe("stress", ks < 1)
                if dual:
                    tr *= ks
                    total = ev + tr
                else:
                    total *= ks
            dp = max(rain - total - self.dr, 0)
            ctx.probe("percolation", dp > 0)
            new = max(self.dr - rain + total + dp, 0)
            ctx.probe("depletion_at_limit", new > self.taw)
            self.dr = min(new, self.taw)
            out.update(deep_percolation=dp, water_stress_coeff=ks)
        out.update(evapotranspiration=total, cum_root_zone_depletion=self.dr if not water else None,
                   cum_soil_surface_depletion=self.de)
        if dual:
            out.update(evaporation=ev, transpiration=tr)
        ctx.state(name, snow, dual, sparse, water, ks < 1, math.isnan(et0), rain > 0)
        return out


def run(spec, ctx):
    import pandas as pd
    import pyproj

    w = World(spec, ctx.newdir("w"))
    count_faults(ctx, spec)
    g = w.write_grids(w.root / "g")
    m = new_model(w, g, w.root / "r")
    cfg = m.config
    classes = cfg["land_cover"]["classes"]
    roi = np.array(m.grid.roi)
    ctx.probe("canopy", bool(cfg["canopy"]["enabled"]))
    pix = {}
    none = []
    for p in np.argwhere(roi):
        p = tuple(int(v) for v in p)
        c = int(w.lc[p])
        if c in classes and c > 0:
            pix[p] = Pixel(classes[c], int(w.soil[p]), cfg)
        else:
            none.append(p)
    ctx.probe("no_class", bool(none))
    lon, lat = pyproj.Transformer.from_crs(w.crs, "epsg:4326", always_xy=True).transform(
        w.x0 + w.cols * w.res / 2, w.y0 + w.rows * w.res / 2)
    shift = 0 if cfg["simulation_timezone"] is None else w.tz - cfg["simulation_timezone"]
    for k, date in enumerate(w.dates):
        m.run_single()
        account(ctx, w, spec)
        mo, et = m.state.meteo, m.state.evapotranspiration
        local = date + pd.Timedelta(hours=shift)
        _, sv = sun(local, lon, lat, w.tz)
        if abs(sv[2]) < 1e-6:
            return
        b = math.radians(360 / 365.25 * (local.dayofyear - 79.346))
        dec = math.radians(0.3723 + 23.2567 * math.sin(b) - 0.7580 * math.cos(b) + 0.1149 * math.sin(2 * b)
                           + 0.3656 * math.cos(2 * b) - 0.1712 * math.sin(3 * b) + 0.0201 * math.cos(3 * b))
        ctx.probe("night", sv[2] < 0)
        for p, px in pix.items():
            F = lambda v: float(mo[v][p])  # noqa: E731
            f = dict(sw=F("top_canopy_sw_in"), lw=F("top_canopy_lw_in"), t=F("top_canopy_temp"),
                     u=F("top_canopy_wind_speed"), psych=F("psych_const"), es=F("sat_vap_press"),
                     ea=F("vap_press"), rain=F("rainfall"), press=F("atmos_press"), dt=w.ts_seconds,
                     day=sv[2] > 0, snow=bool(m.state.snow.swe[p] > 0), sin_dec=math.sin(dec))
            want = px.step(f, date, lat, ctx)
            for v, x in want.items():
                if x is None:
                    continue
                got = float((m.state.land_cover if v == "plant_height" else et)[v][p])
                ctx.ok()
                if not near(got, x, 1e-6, 1e-7):
                    raise Violation("et-differs", f"{v} at step {k} ({date}), pixel {p} (land cover "
                                    f"{int(w.lc[p])}) is {got!r}, the reference model says {x!r}", var=v,
                                    step=k)
            for v in ("evaporation", "transpiration", "evapotranspiration", "deep_percolation"):
                if float(et[v][p]) < 0:
                    raise Violation("et-negative", f"{v} at step {k}, pixel {p} is {float(et[v][p])}", step=k)
        for p in none:
            if not math.isnan(float(et.evapotranspiration[p])):
                raise Violation("et-unknown-class", f"evapotranspiration for pixel {p} without land cover "
                                "parameters", step=k)
        ctx.hash_array("et", np.array(et.evapotranspiration)[roi])

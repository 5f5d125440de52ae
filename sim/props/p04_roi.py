"""P04: nothing is simulated outside the region of interest, and everything inside it is."""

from ..common import *  # noqa: F403
from ..common import REAL_MODEL, STUB_WORLD, ASSUME
from .. import common

ID = "P04"
LEVEL = "exploration"
N = {"quick": 320, "thorough": 5000}
REAL, STUB, ASSUMPTIONS = REAL_MODEL, STUB_WORLD, ASSUME
RULE = (
    "one evaluation = one state variable after one time step whose pixels outside the ROI were "
    "compared with their values before the first step; distinct = (snow model, submodels, ROI "
    "shape class, data availability) classes"
)
REQUIRED_PROBES = ("roi_file", "dem_holes", "extended_roi", "canopy", "evapotranspiration", "glaciers",
                   "single_pixel_roi", "missing_data", "srf", "liston", "off_roi_forest")
# Fields for which the model writes a background value on the whole grid.
BACKGROUND = {
    "snow.area_fraction", "surface.albedo", "surface.roughness_length", "snow.runoff",
    "evapotranspiration.total_evaporable_water", "evapotranspiration.readily_evaporable_water",
    "evapotranspiration.total_available_water", "evapotranspiration.readily_available_water",
    "evapotranspiration.cum_root_zone_depletion",
}


def warm(root):
    common.warm(root)


def gen(rng, index, tier):
    glac = rng.chance(0.2)
    opt = {"nan": rng.pick([0, 1, 2, 3]), "roi": rng.pick([1.0, 0.7, 0.4, 0.15])}
    liston = rng.chance(0.15)
    if liston:
        opt["svf"] = "compute"
    spec = gen_world(rng, steps=rng.randint(4, 20), **opt)
    spec["grid"]["forest"] = rng.chance(0.6)
    spec["faults"] = gen_sensor_faults(rng, spec, rate=0.7)
    spec["cfg"] = gen_physics_cfg(rng, spec, canopy=rng.chance(0.35), et=rng.chance(0.35),
                                  snow_model="cryolayers" if glac else None)
    if rng.chance(0.3):
        spec["cfg"]["extend_roi_with_stations"] = True
    if rng.chance(0.2):
        spec["cfg"].setdefault("meteo", {})["precipitation_correction"] = [{"method": "srf"}]
    if glac:
        spec["cfg"]["glaciers"] = {"enabled": True}
    if liston:
        spec["cfg"].setdefault("meteo", {}).setdefault("interpolation", {})["wind"] = {
            "method": "liston"}
        for st in spec["stations"]:
            st["vars"] = list(VARS_WIND)
    return spec


VARS_WIND = ("temp", "precip", "rel_hum", "wind_speed", "sw_in", "wind_dir")


def run(spec, ctx):
    count_faults(ctx, spec)
    w, m = build(spec, ctx)
    roi = m.grid.roi.copy()
    want = w.roi_mask & np.isfinite(w.dem)
    if m.config.extend_roi_with_stations:
        for st in spec["stations"]:
            x, y = w.station_xy(st)
            c, r = int(np.floor((x - w.x0) / w.res)), int(np.floor((w.y0 + w.rows * w.res - y) / w.res))
            if 0 <= r < w.rows and 0 <= c < w.cols:
                want[r, c] = True
    edge = near_edge(w, spec)
    if (want != roi)[~edge].any():
        raise Violation("roi", f"the region of interest is not ROI file and valid DEM: "
                        f"{roi.astype(int).tolist()} instead of {want.astype(int).tolist()}")
    out = ~roi
    first = {k: a[..., out].copy() for k, a in snapshot(m).items()}
    for k in range(len(m.dates)):
        m.run_single()
        account(ctx, w, spec)
        if not np.array_equal(m.grid.roi, roi):
            raise Violation("roi", f"step {k} changed the region of interest", step=k)
        for cat, name, a in state_vars(m):
            v = f"{cat}.{name}"
            if v in BACKGROUND:
                continue
            if not same(a[..., out], first[v]):
                p = [(r, c) for r, c in np.argwhere(out)
                     if not same(a[..., r, c], first[v][..., int(np.sum(out.ravel()[: r * w.cols + c]))])]
                raise Violation("outside-roi", f"step {k} ({m.date}): {v} was modified outside the "
                                f"region of interest at {[tuple(map(int, q)) for q in p[:3]]}", step=k,
                                var=v)
            ctx.ok()
        ctx.event(k, float(np.nansum(m.state.snow.swe[roi])))
        ctx.hash_array("swe", m.state.snow.swe)
    c = m.config
    ctx.probe("roi_file", w.roi_is_file and out.any())
    ctx.probe("dem_holes", bool(np.isnan(w.dem).any()))
    ctx.probe("extended_roi", bool((roi & ~(w.roi_mask & np.isfinite(w.dem))).any()))
    ctx.probe("canopy", bool(c.canopy.enabled))
    ctx.probe("evapotranspiration", bool(c.evapotranspiration.enabled))
    ctx.probe("glaciers", bool(c.glaciers.enabled))
    ctx.probe("single_pixel_roi", roi.sum() == 1)
    ctx.probe("missing_data", bool(spec["faults"]))
    ctx.probe("srf", "srf" in m.state.base)
    ctx.probe("liston", c.meteo.interpolation.wind.method == "liston")
    ctx.probe("off_roi_forest", bool(c.canopy.enabled) and bool(np.isin(w.lc[out], [5, 6]).any()))
    ctx.state(c.snow.model, bool(c.canopy.enabled), bool(c.evapotranspiration.enabled),
              bool(c.glaciers.enabled), int(out.sum() * 4 / out.size), bool(spec["faults"]),
              bool(c.extend_roi_with_stations))


def near_edge(w, spec):
    """Pixels whose membership is numerically undecided (station within 1 cm of a pixel edge)."""
    e = np.zeros((w.rows, w.cols), bool)
    for st in spec["stations"]:
        x, y = w.station_xy(st)
        fx, fy = ((x - w.x0) / w.res) % 1, ((y - w.y0) / w.res) % 1
        t = 0.01 / w.res
        if min(fx, 1 - fx) < t or min(fy, 1 - fy) < t:
            e[:] = True
    return e

"""P02: the snowpack state stays physically valid and self-consistent after every step."""

from ..common import *  # noqa: F403
from ..common import REAL_MODEL, STUB_WORLD, ASSUME
from .. import common
from .p20_snow_processes import gen_ice, initial_ice

ID = "P02"
LEVEL = "exploration"
N = {"quick": 420, "thorough": 6000}
REAL, STUB, ASSUMPTIONS = REAL_MODEL, STUB_WORLD, ASSUME
RULE = (
    "one evaluation = one ROI pixel and step whose full snowpack state was validated; distinct = "
    "distinct (model, layer occupancy pattern, liquid water present, at melting point, missing "
    "data) classes"
)
REQUIRED_PROBES = ("three_layers", "wet_snow", "vanished", "missing_forcing_with_snow", "thin_snow",
                   "old_snow", "firn", "initial_ice", "initial_firn")


def warm(root):
    common.warm(root)


def gen(rng, index, tier):
    opt = {}
    if rng.chance(0.2):
        opt["start"] = f"2020-0{rng.pick([3, 9])}-{rng.randint(20, 28)} 00:00"
    spec = gen_world(rng, **opt)
    if rng.chance(0.2):
        spec["grid"]["forest"] = True
    spec["faults"] = gen_sensor_faults(rng, spec, rate=0.8)
    spec["cfg"] = gen_physics_cfg(rng, spec)
    if spec["cfg"]["snow"]["model"] == "cryolayers" and rng.chance(0.35):
        spec["initial_ice"] = gen_ice(rng)
    return spec


def run(spec, ctx):
    count_faults(ctx, spec)
    w, m = build(spec, ctx)
    initial_ice(w, m, spec, ctx)
    roi = m.grid.roi
    s = m.state.snow
    cfg = m.config.snow
    model = cfg.model
    had = np.zeros(int(roi.sum()), bool)

    def need(mask, kind, k, text):
        """mask: True where fine (ROI pixels)."""
        mask = np.asarray(mask)
        if mask.ndim == 2:
            mask = mask.all(axis=0)
        if not mask.all():
            p = first_bad(~mask, roi)
            vals = {v: np.asarray(s[v])[..., p[0], p[1]].tolist()
                    for v in ("ice_content", "liquid_water_content", "thickness", "num_layers")}
            raise Violation(kind, f"step {k} ({m.date}) pixel {p}: {text}; state {vals} ({model})",
                            step=k)

    for k in range(len(m.dates)):
        m.run_single()
        account(ctx, w, spec)
        ice, lwc, th = (s[v][:, roi] for v in ("ice_content", "liquid_water_content", "thickness"))
        nl, depth, swe = s.num_layers[roi], s.depth[roi], s.swe[roi]
        for a, nm in ((ice, "ice content"), (lwc, "liquid water content"), (th, "thickness")):
            need(np.isfinite(a), "not-finite", k, f"layer {nm} is not finite")
            need(a >= -1e-9, "negative", k, f"layer {nm} is negative")
        mass = ice + lwc
        filled = th > 0
        need(filled.sum(axis=0) == nl, "layer-count", k,
             "num_layers differs from the number of layers with a thickness")
        need((mass <= 1e-9) | filled, "mass-without-layer", k,
             "a layer without thickness holds water")
        need((mass > 0) | ~filled, "layer-without-mass", k, "a layer with thickness holds no water")
        tol = 1e-9 + 1e-9 * np.abs(depth)
        need(np.abs(th.sum(axis=0) - depth) <= tol + 5e-6, "depth-mismatch", k,
             f"reported depth differs from the layer thicknesses (depth {depth.tolist()})")
        wtol = np.where(mass.sum(axis=0) == 0, 1e-3, 1e-9 * (1 + np.abs(swe)))
        need(np.abs(mass.sum(axis=0) - swe) <= wtol, "swe-mismatch", k,
             "reported SWE differs from the layer contents")
        lim = cfg.liquid_water_content.max
        if cfg.liquid_water_content.method == "mass_fraction":
            cap = lim * ice
        else:
            cap = 1000.0 * th * lim
        need(lwc <= cap * (1 + 1e-9) + 1e-9,
             "liquid-water-capacity", k,
             f"liquid water exceeds the holding capacity (limit {lim})")
        dens = np.where(filled, mass / np.where(filled, th, 1.0), 300.0)
        thick = th > 1e-5
        need(~thick | ((dens > 1.0) & (dens < 1000.0)), "density", k, "impossible bulk density")
        rd = s.density[:, roi]
        need(~thick | (np.abs(rd - dens) <= 1e-6 * dens), "density-mismatch", k,
             "reported layer density differs from mass / thickness")
        need(filled | np.isnan(rd), "density-mismatch", k, "density reported for a layer that does not exist")
        if model == "multilayer":
            t = s.temp[:, roi]
            need(~filled | (t <= T0 + 1e-6), "snow-temperature", k, "snow above the melting point")
            occ = np.arange(len(th))[:, None] < nl[None, :]
            need(occ == filled, "layer-gap", k, "occupied layers are not contiguous from the top")
            mt = np.array(list(cfg.min_thickness))[:, None]
            upper = np.arange(len(th))[:, None] < (nl - 1)[None, :]
            need(~upper | (np.abs(th - mt) <= 1e-9), "layer-thickness", k,
                 "an upper layer does not have its configured thickness")
        af = s.area_fraction[roi]
        need((af >= 0) & (af <= 1), "area-fraction", k, "snow-covered fraction outside [0, 1]")
        snow = swe > 1e-3
        need(~snow | (af > 0), "area-fraction", k, "snow-covered fraction is zero under snow")
        alb = s.albedo[roi]
        top_snow = nl > 0
        need(~(top_snow & np.isfinite(alb)) | ((alb >= 0) & (alb <= 1)), "albedo", k,
             "snow albedo outside [0, 1]")
        if model == "multilayer":
            need(~top_snow | ((alb >= cfg.albedo.min - 1e-9) & (alb <= cfg.albedo.max + 1e-9)),
                 "albedo", k, f"snow albedo outside the configured range: {alb.tolist()}")
        else:
            la = s.layer_albedo[:2, roi]
            f2 = filled[:2]
            need(~f2 | ((la >= cfg.albedo.min - 1e-9) & (la <= cfg.albedo.max + 1e-9)),
                 "albedo", k, "snow layer albedo outside the configured range")
        need(top_snow | np.isnan(alb), "albedo", k, "snow albedo reported without snow") \
            if model == "multilayer" else None
        ctx.ok(len(nl))
        miss = bool(np.isnan(m.state.meteo.temp[roi]).any() or np.isnan(m.state.meteo.precip[roi]).any())
        ctx.probe("three_layers", (nl >= 3).any())
        ctx.probe("wet_snow", (lwc > 0).any())
        ctx.probe("vanished", (had & (nl == 0)).any())
        ctx.probe("missing_forcing_with_snow", miss and had.any())
        ctx.probe("thin_snow", ((depth > 0) & (depth < 0.01)).any())
        if model == "cryolayers":
            ctx.probe("old_snow", (th[1] > 0).any())
            ctx.probe("firn", (th[2] > 0).any())
        pat = (filled * (1 << np.arange(len(th)))[:, None]).sum(axis=0)
        for b in range(len(nl)):
            ctx.state(model, len(th), int(pat[b]), bool(lwc[:, b].any()), miss,
                      int(min(3, depth[b] // 0.3)), bool(af[b] < 1))
        had = nl > 0
        ctx.event(k, float(swe.sum()), float(depth.sum()))
        ctx.hash_array("th", th)

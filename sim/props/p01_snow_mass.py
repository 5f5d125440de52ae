"""P01: snow water conservation, per pixel and per time step, under sensor faults."""

from ..common import *  # noqa: F403
from ..common import REAL_MODEL, STUB_WORLD, ASSUME
from .. import common
from .p20_snow_processes import gen_ice, initial_ice

ID = "P01"
LEVEL = "exploration"
N = {"quick": 420, "thorough": 6000}
REAL, STUB, ASSUMPTIONS = REAL_MODEL, STUB_WORLD, ASSUME
RULE = (
    "one evaluation = one ROI pixel and time step for which the liquid+solid and the solid-only "
    "snow balance were compared with the fluxes of the step; distinct = distinct abstract step "
    "states (snow model, melt method, layer occupancy, active processes, missing-data class)"
)
REQUIRED_PROBES = (
    "rain_on_snow", "complete_melt", "refreezing", "deposition", "sublimation",
    "layers_added", "layers_removed", "missing_forcing_with_snow", "canopy", "firn_transition", "initial_ice", "initial_firn",
)


def warm(root):
    common.warm(root)


def gen(rng, index, tier):
    opt = {}
    if rng.chance(0.25):
        # around the firn transition date
        opt["start"] = f"2020-0{rng.pick([3, 9])}-{rng.randint(20, 28)} 00:00"
    spec = gen_world(rng, **opt)
    if rng.chance(0.3):
        spec["grid"]["forest"] = True
    spec["faults"] = gen_sensor_faults(rng, spec, rate=0.8)
    spec["cfg"] = gen_physics_cfg(rng, spec)
    if spec["cfg"]["snow"]["model"] == "cryolayers" and rng.chance(0.35):
        spec["initial_ice"] = gen_ice(rng)
    return spec


def run(spec, ctx):
    count_faults(ctx, spec)
    w, m = build(spec, ctx)
    initial_ice(w, m, spec, ctx)
    roi = m.grid.roi
    s = m.state.snow
    met = m.state.meteo
    model = m.config.snow.model
    canopy = bool(m.config.canopy.enabled)

    def tot():
        ice = s.ice_content[:, roi].sum(axis=0)
        lwc = s.liquid_water_content[:, roi].sum(axis=0)
        return ice, lwc

    ice0, lwc0 = tot()
    nl0 = (s.ice_content[:, roi] > 0).sum(axis=0)
    layers0 = s.ice_content[:, roi].copy()
    for k in range(len(m.dates)):
        m.run_single()
        account(ctx, w, spec)
        ice, lwc = tot()
        for a, nm in ((ice, "ice content"), (lwc, "liquid water content")):
            if not np.isfinite(a).all():
                raise Violation("snow-nan", f"step {k}: {nm} not finite at pixel "
                                f"{first_bad(~np.isfinite(a), roi)}", step=k)
        sf, rf = nz(met.snowfall[roi]), nz(met.rainfall[roi])
        ro, sub = nz(s.runoff[roi]), nz(s.sublimation[roi])
        melt, refr = nz(s.melt[roi]), nz(s.refreezing[roi])
        d_tot = (ice + lwc) - (ice0 + lwc0)
        d_ice = ice - ice0
        scale = 1.0 + ice + lwc + ice0 + lwc0 + sf + rf + np.abs(ro) + np.abs(sub) + melt + refr
        # Layers thinner than 1e-6 m are dropped by design; only then is a loss (below
        # 1e-3 kg m-2) allowed, and only where the pixel ends up snow-free.
        tol = np.where(ice + lwc == 0, 1e-3, 1e-9 * scale)
        err = d_tot - (sf + rf - ro - sub)
        bad = ~(np.abs(err) <= tol)
        if bad.any():
            p = first_bad(bad, roi)
            b = int(np.flatnonzero(bad)[0])
            raise Violation(
                "water-balance",
                f"step {k} ({m.date}) pixel {p}: snow water changed by {d_tot[b]:.9g} but snowfall "
                f"{sf[b]:.9g} + rainfall {rf[b]:.9g} - runoff {ro[b]:.9g} - sublimation "
                f"{sub[b]:.9g} gives an imbalance of {err[b]:.6g} kg m-2 ({model})", step=k)
        err = d_ice - (sf - melt + refr - sub)
        bad = ~(np.abs(err) <= tol)
        if bad.any():
            p = first_bad(bad, roi)
            b = int(np.flatnonzero(bad)[0])
            raise Violation(
                "ice-balance",
                f"step {k} ({m.date}) pixel {p}: ice changed by {d_ice[b]:.9g} but snowfall "
                f"{sf[b]:.9g} - melt {melt[b]:.9g} + refreezing {refr[b]:.9g} - sublimation "
                f"{sub[b]:.9g} gives an imbalance of {err[b]:.6g} kg m-2 ({model})", step=k)
        for a, nm in ((ro, "runoff"), (melt, "melt"), (refr, "refreezing")):
            if (a < -1e-9).any():
                b = int(np.flatnonzero(a < -1e-9)[0])
                raise Violation("negative-flux", f"step {k}: {nm} {a[b]:.6g} < 0 at pixel "
                                f"{first_bad(a < -1e-9, roi)} ({model})", step=k)
        # water can only leave or be converted if it was there
        avail = ice0 + lwc0 + sf + rf + np.maximum(-sub, 0)
        for a, nm in ((melt, "melt"), (ro, "runoff"), (sub, "sublimation")):
            bad = a > avail + refr + 1e-9 * scale
            if bad.any():
                b = int(np.flatnonzero(bad)[0])
                raise Violation("flux-exceeds-store", f"step {k}: {nm} {a[b]:.6g} exceeds the "
                                f"available water {avail[b]:.6g} ({model})", step=k)
        ctx.ok(len(ice))
        # reported SWE matches the balance of the step
        swe = s.swe[roi]
        bad = ~(np.abs(swe - (ice + lwc)) <= tol)
        if bad.any():
            b = int(np.flatnonzero(bad)[0])
            raise Violation("swe-mismatch", f"step {k} pixel {first_bad(bad, roi)}: reported SWE "
                            f"{swe[b]:.9g} but layers hold {(ice + lwc)[b]:.9g}", step=k)
        # coverage
        missing = bool(np.isnan(met.temp[roi]).any())
        pmiss = bool(np.isnan(met.precip[roi]).any())
        nl = (s.ice_content[:, roi] > 0).sum(axis=0)
        had = ice0 + lwc0 > 0
        ctx.probe("rain_on_snow", (had & (rf > 0)).any())
        ctx.probe("complete_melt", (had & (ice + lwc == 0)).any())
        ctx.probe("refreezing", (refr > 0).any())
        ctx.probe("deposition", (sub < 0).any())
        ctx.probe("sublimation", (sub > 0).any())
        ctx.probe("layers_added", (nl > nl0).any())
        ctx.probe("layers_removed", ((nl < nl0) & (nl > 0)).any())
        ctx.probe("missing_forcing_with_snow", (missing or pmiss) and had.any())
        ctx.probe("canopy", canopy)
        if model == "cryolayers":
            ctx.probe("firn_transition", ((s.ice_content[2, roi] > 0) & (layers0[2] == 0)).any())
        layers0 = s.ice_content[:, roi].copy()
        for b in range(len(ice)):
            ctx.state(model, str(m.config.snow.melt.method), int(nl[b]), missing, pmiss,
                      bool(melt[b] > 0), bool(refr[b] > 0), int(np.sign(sub[b])), bool(sf[b] > 0),
                      bool(rf[b] > 0), bool(ro[b] > 0), canopy)
        ctx.hash_array("ice", s.ice_content)
        ctx.event(k, float(ice.sum()), float(lwc.sum()))
        ice0, lwc0, nl0 = ice, lwc, nl

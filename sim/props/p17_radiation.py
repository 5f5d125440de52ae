"""P17: shortwave and longwave irradiance under outages of the radiation and humidity sensors."""

import math

from ..common import *  # noqa: F403
from ..common import REAL_MODEL, STUB_WORLD, ASSUME
from .. import common
from .p16_meteo_fields import clip, dew_point, es, idw, near, pressure

ID = "P17"
LEVEL = "exploration"
N = {"quick": 500, "thorough": 12000}
REAL = REAL_MODEL
STUB = STUB_WORLD
ASSUMPTIONS = ASSUME + [
    "the temperature and humidity fields are taken from the model (P16 decides them)",
    "terrain shadows are compared where the horizon test is not a floating-point tie",
    "no canopy (P18)",
]
RULE = (
    "one evaluation = one (radiation field, time step) compared over the ROI with a naive reference model "
    "(own solar position, per-pixel shadow scan, clear-sky formula, cloudiness source selection, longwave "
    "components); distinct = (cloudiness method used, configured method, daytime, number of usable "
    "stations, extended grid) classes"
)
REQUIRED_PROBES = ("night", "day", "used_prescribed", "used_clear_sky_fraction", "used_humidity",
                   "used_constant", "fallback", "no_fallback", "no_previous", "outside_roi_station",
                   "extended", "extended_station", "timezone_shift", "shadow", "behind", "partial_rock",
                   "emissivity", "svf_checked", "saturated_cloud_factor", "downsampled", "sweeps")

SOLAR = 1366.1
SB = 5.670374419e-8


def warm(root):
    common.warm(root)


def gen(rng, index, tier):
    spec = gen_world(rng, rows=rng.randint(2, 6), cols=rng.randint(2, 6),
                     steps=rng.randint(4, 14), nan=rng.pick([0, 0, 0, 1]),
                     timestep=rng.pick(["h", "h", "2h", "3h", "3h", "6h", "D"]),
                     n_stations=rng.pick([1, 2, 3, 4]))
    g = spec["grid"]
    g["relief"] = rng.pick([50.0, 400.0, 1200.0, 3000.0])
    if rng.chance(0.3):
        g["ext"] = rng.randint(1, 3)
        g["nan"] = 0
    for st in spec["stations"]:
        if rng.chance(0.3):
            st["vars"] = [*st["vars"], "cloud_fraction"]
        if g.get("ext") and rng.chance(0.5):
            # into the margin, well inside a pixel
            n = g["ext"]
            r, c = rng.randint(-n, g["rows"] + n - 1), rng.randint(-n, g["cols"] + n - 1)
            st["fx"] = (c + rng.pick([0.5, 0.3])) / g["cols"]
            st["fy"] = (r + rng.pick([0.5, 0.7])) / g["rows"]
    spec["faults"] = gen_sensor_faults(rng, spec, rate=1.2)
    for _ in range(rng.randint(0, 3)):
        spec["faults"].append({"kind": "gap", "st": rng.pick(["*", *[s["id"] for s in spec["stations"]]]),
                               "var": rng.pick(["sw_in", "rel_hum", "temp", "cloud_fraction", "*"]),
                               "at": rng.randrange(spec["time"]["steps"]), "len": rng.pick([1, 2, 4, 9])})
    spec["cfg"] = gen_physics_cfg(rng, spec, canopy=False, et=False)
    met = spec["cfg"].setdefault("meteo", {})
    cl = met.setdefault("interpolation", {}).setdefault("cloudiness", {})
    cl["method"] = rng.pick(["clear_sky_fraction", "clear_sky_fraction", "humidity", "prescribed"])
    if cl["method"] == "prescribed":
        st = spec["stations"][0]
        st["vars"] = list(dict.fromkeys([*st["vars"], "cloud_fraction"]))
    cl["allow_fallback"] = rng.chance(0.8)
    cl["clear_sky_fraction_night_method"] = rng.pick(["humidity", "constant"])
    if rng.chance(0.3):
        cl["pressure_level"] = rng.pick([500, 850])
        cl["saturation_cloud_fraction"] = rng.pick([0.5, 1.5])
        cl["e_folding_humidity"] = rng.pick([30.0, 80.0])
    rad = met["radiation"] = {}
    if rng.chance(0.3):
        rad.update(cloud_emissivity=rng.pick([0.9, 1.0]), rock_emission_factor=rng.pick([0.0, 0.05]),
                   snow_emissivity=rng.pick([0.95, 1.0]))
    if rng.chance(0.2):
        rad.update(ozone_layer_thickness=0.003, atmospheric_visibility=60000.0,
                   single_scattering_albedo=0.8, clear_sky_albedo=0.1)
    if rng.chance(0.2):
        rad["num_shadow_sweeps"] = rng.pick([2, 3, -1])
    if rng.chance(0.15):
        rad["shadows_downsampling_factor"] = rng.pick([2, 3])
    if rng.chance(0.3):
        spec["cfg"]["simulation_timezone"] = rng.pick([0, -5, 9])
    if rng.chance(0.5):
        spec["pre_snow"] = rng.pick([20.0, 150.0])
        spec["pre_snow_share"] = rng.pick([0.5, 1.0])
    return spec


# ---------------------------------------------------------------- reference model


def sun(date, lon, lat, tz):
    doy = date.dayofyear
    da = 2 * math.pi / 365.25 * (doy - 1)
    eot = 24 * 60 / (2 * math.pi) * (0.0000075 + 0.001868 * math.cos(da) - 0.032077 * math.sin(da)
                                     - 0.014615 * math.cos(2 * da) - 0.040849 * math.sin(2 * da))
    b = math.radians(360 / 365.25 * (doy - 79.346))
    dec = math.radians(0.3723 + 23.2567 * math.sin(b) - 0.7580 * math.cos(b) + 0.1149 * math.sin(2 * b)
                       + 0.3656 * math.cos(2 * b) - 0.1712 * math.sin(3 * b) + 0.0201 * math.cos(3 * b))
    hour = date.hour + date.minute / 60
    ha = math.radians(15 * (hour + (4 * (lon - 15 * tz) + eot) / 60 - 12))
    la = math.radians(lat)
    return da, (-math.sin(ha) * math.cos(dec),
                math.sin(la) * math.cos(ha) * math.cos(dec) - math.cos(la) * math.sin(dec),
                math.cos(la) * math.cos(ha) * math.cos(dec) + math.sin(la) * math.sin(dec))


def shadow_scan(dem, res, sv, sweeps):
    """(illuminated, ambiguous) by scanning lines away from the sun."""
    rows, cols = dem.shape
    sx, sy, sz = sv
    big = max(abs(sx), abs(sy))
    ix, iy = -sx / big, -sy / big
    nz_ = math.sqrt(sx * sx + sy * sy)
    nx, ny = -sx * sz / nz_, -sy * sz / nz_
    k = max(rows, cols) if sweeps == -1 else sweeps
    lit = np.ones((rows, cols), bool)
    tie = False
    for i in range(rows):
        for j in range(cols):
            near_x = j < k if sx < 0 else j >= cols - k
            near_y = i < k if sy < 0 else i >= rows - k
            if not (near_x or near_y):
                continue
            n, best = 0, -math.inf
            while True:
                dx, dy = ix * n, iy * n
                fx, fy = j + dx, i + dy
                c, r = round(fx), round(fy)
                if abs(abs(fx - math.floor(fx)) - 0.5) < 1e-9 and n and abs(ix) != 1:
                    tie = True
                if abs(abs(fy - math.floor(fy)) - 0.5) < 1e-9 and n and abs(iy) != 1:
                    tie = True
                n += 1
                if c < 0 or c >= cols or r < 0 or r >= rows:
                    break
                z = dx * res * nx + dy * res * ny + dem[r, c] * nz_
                if abs(z - best) < 1e-7 * max(1.0, abs(z)):
                    tie = True
                if z < best:
                    lit[r, c] = False
                else:
                    best = z
    return lit, tie


def normals(dem, res):
    rows, cols = dem.shape
    out = np.zeros((3, rows, cols))
    if rows < 3 or cols < 3:
        out[2] = 1
        return out
    for i in range(rows):
        for j in range(cols):
            # the plane through pixel, right, upper and upper right neighbour; the first row and the
            # last column take over the values of their neighbours
            a, b = max(i, 1), min(j, cols - 2)
            z, r, u, d = dem[a, b], dem[a, b + 1], dem[a - 1, b], dem[a - 1, b + 1]
            v = (0.5 * res * (z - r + u - d), 0.5 * res * (z + r - u - d), res * res)
            n = math.sqrt(sum(x * x for x in v))
            out[:, i, j] = [x / n for x in v]
    return out


def sky_view(dem, res, sweeps):
    """Mean over azimuths of cos^2 of the lowest illuminated elevation (1 degree steps)."""
    from openamundsen import terrain

    slope, _ = terrain.slope_aspect(dem, res)
    top = max(int(math.ceil(np.nanmax(slope))), 1)
    out = np.zeros(dem.shape)
    ties = False
    for az in range(0, 360, 10):
        low = np.full(dem.shape, float(top))
        a = math.radians(az)
        for el in range(top, 0, -1):
            e = math.radians(el)
            lit, t = shadow_scan(dem, res, (math.sin(a) * math.cos(e), -math.cos(a) * math.cos(e),
                                            math.sin(e)), sweeps)
            ties |= t
            low[lit] = el
        out += np.cos(np.radians(low)) ** 2
    return out / 36, ties


def clear_sky(da, sv, lit, sun_frac, mean_aoi, aoi, z, svf, p, pw, alb, rad):
    """Corripio (2002) for one pixel -> (direct, diffuse)."""
    zen = math.acos(sv[2])
    ecc = (1.000110 + 0.034221 * math.cos(da) + 0.001280 * math.sin(da) + 0.000719 * math.cos(2 * da)
           + 0.000077 * math.sin(2 * da))
    m = 1 / min(math.cos(zen) + 0.15 * (93.885 - math.degrees(zen)) ** -1.253, 14.1952)
    ma = m * p / 101325.0
    rayleigh = math.exp(-0.0903 * ma**0.84) * (1 + ma - ma**1.01)
    lm = rad["ozone_layer_thickness"] * 100 * m
    ozone = 1 - (0.1611 * lm * (1 + 139.48 * lm) ** -0.3035 - 0.002715 * lm / (1 + 0.044 * lm
                                                                                + 3e-4 * lm * lm))
    gases = math.exp(-0.0127 * ma**0.26)
    wm = pw / 10 * m
    vapor = 1 - 2.4959 * wm / ((1 + 79.034 * wm) ** 0.6828 + 6.385 * wm)
    vis = rad["atmospheric_visibility"] / 1000
    aer = (0.97 - 1.265 * vis**-0.66) ** (ma**0.9)
    ssa = rad["single_scattering_albedo"]
    aabs = 1 - (1 - ssa) * (1 - ma + ma**1.06) * (1 - aer)
    tdir = clip(rayleigh * ozone * gases * vapor * aer + 2.2e-5 * min(z, 3000), 0, 1)
    toa = SOLAR * ecc
    pot = toa * aoi * lit
    direct = 0.9751 * pot * tdir
    common_ = 0.79 * toa * math.cos(zen) * ozone * gases * vapor * aabs / (1 - ma + ma**1.02)
    d_r = common_ * 0.5 * (1 - rayleigh)
    fc = -0.2562 * zen**2 * 0.1409 * zen + 0.9067
    d_a = common_ * fc * (1 - aer / aabs)
    aa = rad["clear_sky_albedo"] + (1 - fc) * (1 - aer / aabs)
    d_m = (direct * math.cos(zen) + d_r + d_a) * alb * aa / (1 - alb * aa)
    diff = d_r + d_a + d_m
    return direct, diff * svf + (1 - svf) * (pot * tdir * sun_frac * mean_aoi + diff) * alb


def incidence(sv, nv):
    return np.maximum(sv[0] * nv[0] - sv[1] * nv[1] + sv[2] * nv[2], 0)


def humidity_cloud_fraction(t, rh, alt, lrt, lrtd, cl):
    # inverse of the pressure formula
    e = 1004.68506 * 0.02896968 / 8.314462618
    z700 = (1 - (cl["pressure_level"] * 100 / 101325.0) ** (1 / e)) * 1004.68506 * 288.15 / 9.80665
    dz = alt - z700
    rh700 = 100 * es(dew_point(t, rh) - lrtd * dz) / es(t - lrt * dz)
    return clip(cl["saturation_cloud_fraction"] * math.exp((rh700 - 100) / (100 - cl[
        "e_folding_humidity"])), 0, 1)


def factor_of_fraction(n):
    return clip(1 - 0.233 * n - 0.415 * n * n, 0, 1)


def fraction_of_factor(f):
    """Root of the cloud factor polynomial in [0, 1] by bisection."""
    if math.isnan(f):
        return math.nan
    if f >= 1:
        return 0.0
    if f <= 1 - 0.233 - 0.415:
        return 1.0
    lo, hi = 0.0, 1.0
    for _ in range(60):
        mid = (lo + hi) / 2
        if 1 - 0.233 * mid - 0.415 * mid * mid > f:
            lo = mid
        else:
            hi = mid
    return (lo + hi) / 2


# ---------------------------------------------------------------- run


def run(spec, ctx):
    import pyproj

    w = World(spec, ctx.newdir("w"))
    count_faults(ctx, spec)
    g = w.write_grids(w.root / "g")
    recs = w.records()
    m = new_model(w, g, w.root / "r", meteo=w.dataset(recs))
    cfg = m.config
    rad, cl = cfg["meteo"]["radiation"], cfg["meteo"]["interpolation"]["cloudiness"]
    ip = cfg["meteo"]["interpolation"]
    roi = np.array(m.grid.roi)
    rows, cols = np.nonzero(roi)
    pix = list(zip(rows.tolist(), cols.tolist()))
    # (GDAL reads ASCII grids in single precision)
    dem = np.array(w.dem, dtype=np.float32).astype(float)
    svf = np.array(m.state.base.svf)
    ext = spec["grid"].get("ext", 0)
    edem = w.extended_dem().astype(np.float32).astype(float) if ext else dem
    sweeps = rad["num_shadow_sweeps"]
    ds = rad["shadows_downsampling_factor"]
    ctx.probe("downsampled", ds > 1)
    ctx.probe("sweeps", sweeps != 1)
    ctx.probe("extended", bool(ext))
    ctx.probe("emissivity", rad["cloud_emissivity"] != 0.976)
    nv = normals(dem, w.res)
    env = normals(edem, w.res)
    got = np.array(m.state.base.normal_vec)
    if not near(got[:, roi], nv[:, roi], 1e-9, 1e-9).all():
        raise Violation("terrain-normals", "the surface normals differ from the definition")
    if spec["grid"]["svf"] == "compute" and Rng("svf", spec["grid"]["seed"]).chance(0.15):
        want, tie = sky_view(edem, w.res, sweeps)
        if ext:
            want = want[ext:-ext, ext:-ext]
        ctx.ok()
        ctx.probe("svf_checked")
        if not tie and not near(svf[roi], want[roi], 0, 6e-4).all():
            raise Violation("sky-view-factor", f"sky view factor differs from the definition by up to "
                            f"{np.nanmax(np.abs(svf[roi] - want[roi]))}")
    lon, lat = pyproj.Transformer.from_crs(w.crs, "epsg:4326", always_xy=True).transform(
        w.x0 + w.cols * w.res / 2, w.y0 + w.rows * w.res / 2)
    shift = 0 if cfg["simulation_timezone"] is None else w.tz - cfg["simulation_timezone"]
    ctx.probe("timezone_shift", shift != 0)
    xs, ys = w.x0 + (cols + 0.5) * w.res, w.y0 + (w.rows - rows - 0.5) * w.res
    st = {}
    for s in spec["stations"]:
        x, y = w.station_xy(s)
        st[s["id"]] = dict(x=x, y=y, alt=s["alt"], col=math.floor((x - w.x0) / w.res),
                           row=math.floor((w.y0 + w.rows * w.res - y) / w.res))
    if spec.get("pre_snow"):
        r = Rng("presnow", spec["grid"]["seed"])
        amount = np.array([spec["pre_snow"] if r.chance(spec["pre_snow_share"]) else 0.0 for _ in pix])
        m.snow.add_snow(roi & np.isfinite(dem), amount[np.isfinite(dem[roi])], density=250.0)
    prev_cf = np.full(len(pix), math.nan)
    import pandas as pd

    for k, date in enumerate(w.dates):
        alb0 = np.array(m.state.surface.albedo)[roi]
        swe0 = np.array(m.state.snow.swe)[roi]
        ts0 = np.array(m.state.surface.temp)[roi]
        m.run_single()
        account(ctx, w, spec)
        mo = m.state.meteo
        V = lambda n: np.array(mo[n])[roi]  # noqa: E731
        rec = {s: {v: float(recs[s].at[date, v]) for v in recs[s].columns} for s in st}
        A = lambda *vs: [s for s in st if all(  # noqa: E731
            math.isfinite(rec[s].get(v, math.nan)) for v in vs)]

        def check(name, want, rtol=1e-6, atol=1e-6):
            a = V(name)
            ok = near(a, want, rtol, atol)
            ctx.ok()
            ctx.hash_array(name, a)
            if not ok.all():
                i = int(np.flatnonzero(~ok)[0])
                raise Violation(
                    "field-differs", f"{name} at step {k} ({date}), pixel {pix[i]} is {a[i]!r}, the "
                    f"reference model says {np.asarray(want)[i]!r} ({int((~ok).sum())} of {len(ok)} "
                    "pixels)", var=name, step=k)

        da, sv = sun(date + pd.Timedelta(hours=shift), lon, lat, w.tz)
        if abs(sv[2]) < 1e-6:
            return  # sunrise to the second
        day = sv[2] > 0
        ctx.probe("day" if day else "night")
        temp, vp = V("temp"), V("vap_press")
        pw = 46.5 * vp / 100 / temp * 10
        alb = alb0.mean()
        if math.isnan(alb):
            alb = cfg["soil"]["albedo"]
        ecs = {}
        if not day:
            want_dir = want_diff = np.zeros(len(pix))
            tie = False
        else:
            if ds > 1:
                lit, tie = shadow_scan(edem[::ds, ::ds], w.res * ds, sv, sweeps)
                lit = np.array([[lit[i // ds, j // ds] for j in range(edem.shape[1])]
                                for i in range(edem.shape[0])])
            else:
                lit, tie = shadow_scan(edem, w.res, sv, sweeps)
            glit = lit[ext:-ext, ext:-ext] if ext else lit
            glit = glit[roi]
            aoi = incidence(sv, nv[:, roi])
            mean_aoi = float(np.nanmean(aoi[glit])) if glit.any() else 0.0
            if glit.any() and not np.isfinite(aoi[glit]).any():
                mean_aoi = math.nan
            ctx.probe("shadow", bool((~glit).any()))
            ctx.probe("behind", bool((aoi == 0).any()))
            r = [clear_sky(da, sv, float(glit[i]), float(glit.mean()), mean_aoi, aoi[i], dem[pix[i]],
                           svf[pix[i]], pressure(dem[pix[i]]), pw[i], alb, rad)
                 if math.isfinite(dem[pix[i]]) else (math.nan, math.nan) for i in range(len(pix))]
            want_dir, want_diff = (np.array(v) for v in zip(*r))
            # stations in the margin
            if ext:
                es_ = [s for s in A("temp", "rel_hum")
                       if -ext <= st[s]["row"] < w.rows + ext and -ext <= st[s]["col"] < w.cols + ext
                       and not (0 <= st[s]["row"] < w.rows and 0 <= st[s]["col"] < w.cols)]
                if es_:
                    rc = [(st[s]["row"] + ext, st[s]["col"] + ext) for s in es_]
                    elit = np.array([lit[p] for p in rc])
                    eaoi = np.array([incidence(sv, env[:, a, b]) for a, b in rc])
                    emean = float(eaoi[elit].mean()) if elit.any() else 0.0
                    esvf = m.grid.extended_grid.svf
                    for i, s in enumerate(es_):
                        t, rh = rec[s]["temp"], rec[s]["rel_hum"]
                        epw = 46.5 * es(t) * rh / 100 / 100 / t * 10
                        ecs[s] = sum(clear_sky(da, sv, float(elit[i]), float(elit.mean()), emean,
                                               float(eaoi[i]), edem[rc[i]], float(esvf[rc[i]]),
                                               pressure(edem[rc[i]]), epw, alb, rad))
        if not tie:
            check("dir_in_clearsky", want_dir)
            check("diff_in_clearsky", want_diff)
            check("sw_in_clearsky", want_dir + want_diff)
        cs = np.full(dem.shape, math.nan)
        cs[roi] = V("sw_in_clearsky")
        # --- source of the cloudiness
        method = cl["method"]
        fb = cl["allow_fallback"]
        pts = []
        first = method
        if method == "prescribed":
            ss = A("cloud_fraction")
            if not ss and fb:
                method = "clear_sky_fraction"
            pts = [(st[s]["x"], st[s]["y"], factor_of_fraction(rec[s]["cloud_fraction"] / 100)) for s in ss]
        if method == "clear_sky_fraction":
            if day:
                ss = [s for s in A("sw_in") if 0 <= st[s]["row"] < w.rows and 0 <= st[s]["col"] < w.cols]
                out = [s for s in ss if not cs[st[s]["row"], st[s]["col"]] > 0]
                ctx.probe("outside_roi_station", bool(out))
                ss = [s for s in ss if s not in out]
                pts = [(st[s]["x"], st[s]["y"], rec[s]["sw_in"] / cs[st[s]["row"], st[s]["col"]])
                       for s in ss]
                pts += [(st[s]["x"], st[s]["y"], rec[s]["sw_in"] / v) for s, v in ecs.items()
                        if math.isfinite(rec[s].get("sw_in", math.nan))]
                ctx.probe("extended_station", bool(ecs))
                if not pts and fb:
                    method = "humidity"
            else:
                method = cl["clear_sky_fraction_night_method"]
        if method == "humidity":
            lrt, lrtd = (ip[v]["lapse_rate"][date.month - 1] for v in ("temperature", "humidity"))
            pts = [(st[s]["x"], st[s]["y"], factor_of_fraction(humidity_cloud_fraction(
                rec[s]["temp"], rec[s]["rel_hum"], st[s]["alt"], lrt, lrtd, cl)))
                for s in A("temp", "rel_hum")]
            if not pts and fb:
                method = "constant"
        ctx.probe("used_" + method)
        ctx.probe("fallback", method != first and fb)
        ctx.probe("no_fallback", not pts and method != "constant")
        if method == "constant":
            ctx.probe("no_previous", bool(np.isnan(prev_cf).any()))
            want = np.where(np.isnan(prev_cf), 0.75, prev_cf)
        elif not pts:
            want = np.full(len(pix), math.nan)
        else:
            want = np.array([clip(idw(pts, x, y), 0, 1) for x, y in zip(xs, ys)])
        ctx.probe("saturated_cloud_factor", bool((want >= 1).any()))
        if not (tie and ecs):
            check("cloud_factor", want, rtol=1e-5)
        prev_cf = V("cloud_factor")
        check("cloud_fraction", [fraction_of_factor(f) for f in prev_cf], atol=1e-5)
        check("sw_in", V("sw_in_clearsky") * prev_cf, rtol=1e-9)
        if not day and np.isfinite(prev_cf).all() and (V("sw_in")[np.isfinite(dem[roi])] != 0).any():
            raise Violation("sun-at-night", f"shortwave irradiance at night, step {k}", step=k)
        # --- longwave
        rock = float((swe0 == 0).mean())
        ctx.probe("partial_rock", 0 < rock < 1)
        n2 = V("cloud_fraction") ** 2
        em = 1 - (1 + pw / 10) * np.exp(-np.sqrt(1.2 + 3 * pw / 10))
        s_ = svf[roi]
        lw = SB * temp**4 * s_ * (em * (1 - n2) + rad["cloud_emissivity"] * n2) + SB * (1 - s_) * (
            rock * (temp + rad["rock_emission_factor"] * V("sw_in")) ** 4 + (1 - rock) * ts0**4)
        check("lw_in", lw)
        # --- radiation balance at the surface
        a, ts = np.array(m.state.surface.albedo)[roi], np.array(m.state.surface.temp)[roi]
        del ts
        sw_out = V("sw_out")
        on = np.isfinite(sw_out)
        if on.any() and not near(sw_out[on], (a * V("sw_in"))[on], 1e-9, 1e-9).all():
            raise Violation("reflected", f"sw_out is not albedo * sw_in at step {k}", step=k)
        ctx.state(cl["method"], method, day, len(pts), bool(ext), fb)

"""P16: the meteorological fields are the documented function of the available station records."""

import math

from ..common import *  # noqa: F403
from ..common import REAL_MODEL, STUB_WORLD, ASSUME
from .. import common

ID = "P16"
LEVEL = "exploration"
N = {"quick": 500, "thorough": 6000}
REAL = REAL_MODEL
STUB = STUB_WORLD
ASSUMPTIONS = ASSUME + [
    "piecewise regression: segment choices that hinge on the accuracy of the breakpoint search are only checked for "
    "availability, ranges and mass balance",
    "comparison tolerance 1e-6 relative (1e-4 for regressions over nearly equal elevations)",
]
RULE = (
    "one evaluation = one (field, time step) compared over the ROI with a naive reference model "
    "(per-pixel inverse-distance weighting of the detrended available records, gauge corrections, phase "
    "partition); distinct = (interpolation settings, corrections, phase method, available-station "
    "pattern) classes"
)
REQUIRED_PROBES = ("regression", "fixed", "fractional", "adjustment_factor", "no_extrapolation",
                   "liston", "gust", "piecewise", "piecewise_checked", "piecewise_two_segments",
                   "piecewise_rejected", "constant_scf", "wmo", "kochendorfer", "srf",
                   "phase_temp", "phase_wet_bulb", "mixed_phase", "no_snow_below_rain", "no_station",
                   "one_station", "partial_outage", "temp_range_0", "correction_gap_filled", "flat_pixel", "all_rain",
                   "all_snow")

RANGES = {"temp": (0, None), "precip": (0, None), "rel_hum": (0, 100), "wind_speed": (0.1, None)}
T0 = 273.15
PW_TOL = 0.02  # K; breakpoints of piecewise trends are found by a stochastic search with fixed seed
KOCH = {"us_un": (0.045, 1.21, 0.66, 8), "all_sa": (0.03, 1.04, 0.57, 12),
        "nor_sa": (0.05, 0.66, 0.23, 12), "us_sa": (0.03, 1.06, 0.63, 12),
        "us_da": (0.021, 0.74, 0.66, 8), "us_bda": (0.01, 0.48, 0.51, 8),
        "us_sdfir": (0.004, 0.00, 0.00, 8)}


def warm(root):
    common.warm(root)


def gen(rng, index, tier):
    piece = rng.chance(0.12)
    spec = gen_world(rng, rows=rng.randint(2, 5), cols=rng.randint(2, 5), steps=rng.randint(4, 16),
                     **({"n_stations": rng.pick([1, 3, 5, 6, 7, 8, 9])} if piece else {}))
    for st in spec["stations"]:
        if rng.chance(0.5):
            st["vars"] = [*st["vars"], *[v for v in ("wind_dir", "wind_speed_gust") if rng.chance(0.7)]]
    spec["faults"] = gen_sensor_faults(rng, spec, rate=1.5)
    spec["cfg"] = gen_physics_cfg(rng, spec, canopy=False, et=False)
    met = spec["cfg"].setdefault("meteo", {})
    ip = met["interpolation"] = {}
    lapse = lambda s: [round(s * rng.uniform(0.2, 2.0), 6) for _ in range(12)]  # noqa: E731
    if rng.chance(0.7):
        ip["temperature"] = {"trend_method": rng.pick(["regression", "fixed"]),
                             "extrapolate": rng.chance(0.6), "lapse_rate": lapse(-0.005)}
        ip["humidity"] = {"trend_method": rng.pick(["regression", "fixed"]),
                          "extrapolate": rng.chance(0.6), "lapse_rate": lapse(-0.005)}
        ip["precipitation"] = {"trend_method": rng.pick(["regression", "adjustment_factor",
                                                         "fractional"]),
                               "extrapolate": rng.chance(0.6), "lapse_rate": lapse(0.0002)}
        ip["wind"] = {"extrapolate": rng.chance(0.4)}
        if rng.chance(0.4):
            ip["wind"].update(trend_method="fixed", lapse_rate=lapse(0.001))
    if rng.chance(0.3):
        st = spec["stations"][0]  # (the method requires wind directions)
        st["vars"] = list(dict.fromkeys([*st["vars"], "wind_speed", "wind_dir"]))
        spec["grid"]["nan"] = 0  # (there is no slope next to holes in the DEM)
        ip.setdefault("wind", {})["method"] = "liston"
        ip["wind"]["curvature_length_scale"] = float(spec["grid"]["res"]) * rng.pick([1, 2])
    if piece:
        par = {"max_segments": rng.pick([2, 2, 3]), "min_points_per_segment": rng.pick([2, 3, 4]),
               "delta_aic_threshold": rng.pick([2.0, 7.0, 20.0])}
        for v in ("temperature", "humidity"):
            ip.setdefault(v, {}).update(trend_method="regression", regression_params=par)
        if rng.chance(0.8):
            spec["inversion"] = {"at": rng.uniform(0.2, 0.8), "slope": rng.pick([-0.012, 0.011, 0.02])}
    corr = []
    if rng.chance(0.25):
        corr.append({"method": "constant_scf", "scf": rng.pick([1.1, 1.5])})
    if rng.chance(0.25):
        corr.append({"method": "wmo", "gauge": rng.pick(["nipher", "tretyakov", "us_sh", "us_unsh",
                                                        "hellmann"])})
    if rng.chance(0.25):
        corr.append({"method": "kochendorfer", "gauge": rng.pick(sorted(KOCH))})
    if rng.chance(0.2):
        corr.append({"method": "srf"})
    met["precipitation_correction"] = corr
    met["precipitation_phase"] = {"method": rng.pick(["temp", "wet_bulb_temp"]),
                                  "threshold_temp": rng.pick([273.65, 273.15, 275.0]),
                                  "temp_range": rng.pick([0.0, 1.0, 1.0, 4.0]),
                                  "enforce_no_snow_below_rain": rng.chance(0.25)}
    return spec


# ---------------------------------------------------------------- reference model


def es(t, over=None):
    tc = t - T0
    if over == "water" or (over is None and tc >= 0):
        a, b, c = 610.78, 17.08, 234.18
    else:
        a, b, c = 610.71, 22.44, 272.44
    return a * math.exp(b * tc / (c + tc))


def dew_point(t, rh):
    e = es(t, "water") * rh / 100
    x = math.log(e / 610.78)
    return 234.18 * x / (17.08 - x) + T0


def pressure(z):
    return 101325.0 * (1 - 9.80665 * z / (1004.68506 * 288.15)) ** (1004.68506 * 0.02896968 / 8.314462618)


def psych(t, rh, p):
    e = es(t) * rh / 100
    q = 0.622 * e / (p - 0.378 * e)
    cp = 1005.0 * (1 + 0.84 * q)
    lv = 2.501e6 - 2361.0 * (t - T0)
    return cp * p / (0.622 * lv)


def wet_bulb(t, rh, p):
    """Root of the psychrometric formula by bisection."""
    e, g = es(t) * rh / 100, psych(t, rh, p)
    lo, hi = t - 60, t + 60
    f = lambda x: e - (es(x) - g * (t - x))  # noqa: E731  (decreasing in x)
    for _ in range(80):
        mid = (lo + hi) / 2
        if f(mid) > 0:
            lo = mid
        else:
            hi = mid
    return (lo + hi) / 2


def idw(pts, x, y):
    """pts: [(x, y, value)]"""
    sw = s = 0.0
    for px, py, v in pts:
        d2 = (px - x) ** 2 + (py - y) ** 2
        if d2 == 0:
            return v
        sw += 1 / d2
        s += v / d2
    return s / sw


def slope_of(zs, vs):
    n = len(zs)
    if n < 2:
        return 0.0
    mz, mv = sum(zs) / n, sum(vs) / n
    szz = sum((z - mz) ** 2 for z in zs)
    return sum((z - mz) * (v - mv) for z, v in zip(zs, vs)) / szz


def clip(v, lo, hi):
    if lo is not None and v < lo:
        v = lo
    if hi is not None and v > hi:
        v = hi
    return v


def interp(kind, cfg, month, st, targets, rng_of=None):
    """st: [(x, y, z, value)], targets: [(x, y, z)] -> values (before range clipping)."""
    lr = cfg["lapse_rate"][month - 1]
    m = cfg["trend_method"]
    vs = [s[3] for s in st]
    out = []
    if m == "adjustment_factor":
        for x, y, z in targets:
            v = idw([(a, b, d) for a, b, c, d in st], x, y)
            dz = z - idw([(a, b, c) for a, b, c, d in st], x, y)
            out.append(v * (1 + lr * dz) / (1 - lr * dz))
        return out
    if m == "regression":
        lr = slope_of([s[2] for s in st], vs)
    elif m == "fractional":
        lr = lr * sum(vs) / len(vs)
    pts = [(a, b, d - lr * c) for a, b, c, d in st]
    return [idw(pts, x, y) + lr * z for x, y, z in targets]


def pw_interp(cfg, st, targets, ctx):
    """Piecewise linear elevation trend: values before range clipping, or None if the choice of the segments hinges
    on the search for the breakpoint (several nearly equally good ones, or the criteria are met only just)."""
    zs, vs = np.array([s[2] for s in st], float), np.array([s[3] for s in st], float)
    par = cfg["regression_params"]
    n, lo, hi = len(zs), float(zs.min()), float(zs.max())
    need = par["min_points_per_segment"]

    def solve(b):
        cols = [np.ones(n), zs - lo] + ([np.maximum(0.0, zs - b)] if b is not None else [])
        a = np.stack(cols, axis=1)
        c = np.linalg.lstsq(a, vs, rcond=None)[0]
        return c, float(((vs - a @ c) ** 2).sum())

    def trend(c, b):
        return lambda z: c[0] + c[1] * (z - lo) + (c[2] * max(0.0, z - b) if b is not None else 0.0)

    if n == 1:
        best = trend((vs[0], 0.0), None)
    else:
        c1, rss1 = solve(None)
        best = trend(c1, None)
        if n >= 2 * need and par["max_segments"] > 1:
            bs = np.linspace(lo, hi, 1501)[1:-1]
            rss = np.array([solve(b)[1] for b in bs])
            i = int(rss.argmin())
            lob, hib = bs[max(0, i - 1)], bs[min(len(bs) - 1, i + 1)]
            for _ in range(60):
                p, q = lob + (hib - lob) * 0.382, lob + (hib - lob) * 0.618
                if solve(p)[1] < solve(q)[1]:
                    hib = q
                else:
                    lob = p
            b = (lob + hib) / 2
            c2, rss2 = solve(b)
            far = np.abs(bs - b) > 0.04 * (hi - lo)
            if rss1 < 1e-9 or rss2 < 1e-9 or (far & (rss < rss2 * 1.1 + 1e-9)).any() or np.abs(zs - b).min() < 2.0:
                return None
            if min((zs <= b).sum(), (zs >= b).sum()) >= need:
                gain = n * math.log(rss1 / n) + 4 - (n * math.log(rss2 / n) + 8)
                if abs(gain - par["delta_aic_threshold"]) < 0.5:
                    return None
                if gain >= par["delta_aic_threshold"]:
                    if par["max_segments"] > 2 and n >= 3 * need:
                        return None
                    best = trend(c2, b)
                    ctx.probe("piecewise_two_segments")
                else:
                    ctx.probe("piecewise_rejected")
    pts = [(s[0], s[1], s[3] - best(s[2])) for s in st]
    return [idw(pts, x, y) + best(z) for x, y, z in targets]


def limits(name, cfg, vs, vals):
    if not cfg["extrapolate"]:
        vals = [clip(v, min(vs), max(vs)) for v in vals]
    if name in RANGES:
        vals = [clip(v, *RANGES[name]) for v in vals]
    return vals


def field(name, cfg, month, st, targets):
    if not st:
        return [0.0 if name == "precip" else math.nan] * len(targets)
    return limits(name, cfg, [s[3] for s in st], interp(name, cfg, month, st, targets))


def hum_field(cfg, month, st, temps, targets, target_temps):
    """st: [(x, y, z, rel_hum)], temps of the same stations."""
    if not st:
        return [math.nan] * len(targets)
    td = [(x, y, z, dew_point(t, rh)) for (x, y, z, rh), t in zip(st, temps)]
    tds = interp("rel_hum", cfg, month, td, targets)
    vals = [100 * es(d, "water") / es(t, "water") if math.isfinite(t) else math.nan
            for d, t in zip(tds, target_temps)]
    return limits("rel_hum", cfg, [s[3] for s in st], vals)


def snow_frac(t, cfg):
    if not math.isfinite(t):
        return 0.0
    thr, rg = cfg["threshold_temp"], cfg["temp_range"]
    if rg == 0:
        return 1.0 if t < thr else 0.0
    return clip(1 - (t - (thr - rg / 2)) / rg, 0.0, 1.0)


def correct(cfg, stations, rec, month, ctx):
    """Gauge-corrected precipitation of one time step: {station: value}.

    rec: {station: {var: value}}; returns also the phase temperatures (threshold margins)."""
    mt = cfg["meteo"]
    out = {s: rec[s].get("precip", math.nan) for s in stations}
    corr = [c for c in mt["precipitation_correction"] if c["method"] != "srf"]
    if not corr or not any(v > 0 for v in out.values()):
        return out, math.inf
    pos = {s: stations[s] for s in stations}
    val = {v: {s: rec[s].get(v, math.nan) for s in stations} for v in ("temp", "rel_hum", "wind_speed")}
    ip = mt["interpolation"]

    def fill(var, f):
        have = [s for s in stations if math.isfinite(val[var][s])]
        miss = [s for s in stations if not math.isfinite(val[var][s])]
        if have and miss:
            r = f(have, [pos[s] for s in miss], miss)
            val[var].update(zip(miss, r))
            ctx.probe("correction_gap_filled")

    st = lambda var, ss: [(*pos[s], val[var][s]) for s in ss]  # noqa: E731
    fill("temp", lambda h, t, _: field("temp", ip["temperature"], month, st("temp", h), t))

    def hum(h, t, miss):
        # a humidity record without any temperature cannot be used
        if any(not math.isfinite(val["temp"][s]) for s in h):
            return [math.nan] * len(t)
        return hum_field(ip["humidity"], month, st("rel_hum", h), [val["temp"][s] for s in h], t,
                         [val["temp"][s] for s in miss])

    fill("rel_hum", hum)
    fill("wind_speed", lambda h, t, _: field("wind_speed", ip["wind"], month, st("wind_speed", h), t))
    margin = math.inf
    for s in stations:
        p = out[s]
        if not p > 0:
            continue
        t, rh, u = (val[v][s] for v in ("temp", "rel_hum", "wind_speed"))
        if mt["precipitation_phase"]["method"] == "temp":
            pt = t
        else:
            pt = wet_bulb(t, rh, pressure(pos[s][2])) if math.isfinite(t) and math.isfinite(
                rh) else math.nan
        ph = mt["precipitation_phase"]
        if math.isfinite(pt):
            margin = min([margin] + [abs(pt - x) for x in (ph["threshold_temp"] - ph["temp_range"] / 2,
                                                           ph["threshold_temp"] + ph["temp_range"] / 2)])
        f = snow_frac(pt, ph)
        tc = t - T0
        for c in corr:
            k = 1.0
            if c["method"] == "constant_scf":
                k = 1 + f * (c["scf"] - 1)
            elif c["method"] == "wmo":
                z0 = cfg["snow"]["roughness_length"]
                mh = mt["measurement_height"]
                w = u * math.log(mh["temperature"] / z0) / math.log(mh["wind"] / z0)
                w = min(w, 7.0) if math.isfinite(w) else w
                g = c["gauge"]
                cr = 100.0
                if f == 1:
                    cr = {"nipher": 100 - 0.44 * w * w - 1.98 * w,
                          "tretyakov": 103.11 - 8.67 * w + 0.30 * tc,
                          "us_sh": math.exp(4.61 - 0.04 * w**1.75),
                          "us_unsh": math.exp(4.61 - 0.16 * w**1.28),
                          "hellmann": 100 + 1.13 * w * w - 19.45 * w}[g]
                elif 0 < f < 1:
                    cr = {"nipher": 97.29 - 3.18 * w + (0.58 - 0.67) * tc,
                          "tretyakov": 96.99 - 4.46 * w + (0.88 + 0.22) * tc,
                          "us_sh": 101.04 - 5.62 * w, "us_unsh": 100.77 - 8.34 * w,
                          "hellmann": 96.63 + 0.41 * w * w - 9.84 * w + 5.95 * tc}[g]
                k = 100.0 / cr
            else:
                a, b, cc, mx = KOCH[c["gauge"]]
                k = 1 / math.exp(-a * (min(u, mx) if math.isfinite(u) else u) * (
                    1 - math.atan(b * tc) + cc))
            if not math.isnan(k):
                p *= k
        out[s] = p
    return out, margin


def horn(z, res):
    """Slope and aspect (degrees) by Horn's formula, borders replicated."""
    nr, nc = len(z), len(z[0])
    sl = [[0.0] * nc for _ in range(nr)]
    asp = [[math.nan] * nc for _ in range(nr)]
    if nr < 3 or nc < 3:
        return np.array(sl), np.array(asp)
    at = lambda r, c: z[min(max(r, 0), nr - 1)][min(max(c, 0), nc - 1)]  # noqa: E731
    for r in range(nr):
        for c in range(nc):
            east = at(r - 1, c + 1) + 2 * at(r, c + 1) + at(r + 1, c + 1)
            west = at(r - 1, c - 1) + 2 * at(r, c - 1) + at(r + 1, c - 1)
            north = at(r - 1, c - 1) + 2 * at(r - 1, c) + at(r - 1, c + 1)
            south = at(r + 1, c - 1) + 2 * at(r + 1, c) + at(r + 1, c + 1)
            ge, gn = (east - west) / (8 * res), (north - south) / (8 * res)
            sl[r][c] = math.degrees(math.atan(math.hypot(ge, gn)))
            if ge or gn:  # direction in which the surface falls
                asp[r][c] = math.degrees(math.atan2(-ge, -gn)) % 360
    return np.array(sl), np.array(asp)


def curvature(z, res, length):
    """Liston's topographic curvature, scaled to [-0.5, 0.5]."""
    nr, nc = len(z), len(z[0])
    n = math.ceil(length / res)
    at = lambda r, c: z[min(max(r, 0), nr - 1)][min(max(c, 0), nc - 1)]  # noqa: E731
    out = np.zeros((nr, nc))
    for r in range(nr):
        for c in range(nc):
            for dr, dc, dist in ((0, n, 1), (n, 0, 1), (n, n, math.sqrt(2)), (n, -n, math.sqrt(2))):
                out[r, c] += (z[r][c] - (at(r + dr, c + dc) + at(r - dr, c - dc)) / 2) / (
                    2 * dist * length) / 4
    lo, hi = out.min(), out.max()
    return None if hi - lo < 1e-9 else -0.5 + (out - lo) / (hi - lo)


# ---------------------------------------------------------------- run


def near(a, b, rtol=1e-6, atol=1e-7):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return (np.abs(a - b) <= atol + rtol * np.abs(b)) | (np.isnan(a) & np.isnan(b))


def run(spec, ctx):
    w = World(spec, ctx.newdir("w"))
    count_faults(ctx, spec)
    g = w.write_grids(w.root / "g")
    recs = w.records()
    if spec.get("inversion"):
        alts = sorted(s["alt"] for s in spec["stations"])
        zb = alts[0] + spec["inversion"]["at"] * (alts[-1] - alts[0])
        for s in spec["stations"]:
            if s["id"] in recs and "temp" in recs[s["id"]].columns:
                recs[s["id"]]["temp"] += spec["inversion"]["slope"] * max(0.0, s["alt"] - zb)
    m = new_model(w, g, w.root / "r", meteo=w.dataset(recs))
    cfg = m.config
    mt = cfg["meteo"]
    ip = mt["interpolation"]
    roi = m.grid.roi
    rows, cols = np.nonzero(roi)
    dem = np.array(m.state.base.dem)[roi]
    targets = [(w.x0 + (c + 0.5) * w.res, w.y0 + (w.rows - r - 0.5) * w.res, float(z))
               for r, c, z in zip(rows, cols, dem)]
    stations = {s["id"]: (*w.station_xy(s), s["alt"]) for s in spec["stations"] if s["id"] in recs}
    piecewise = ip["temperature"]["regression_params"]["max_segments"] > 1
    srf = next((c for c in mt["precipitation_correction"] if c["method"] == "srf"), None)
    for c in mt["precipitation_correction"]:
        ctx.probe(c["method"])
    for v in ("temperature", "humidity", "precipitation", "wind"):
        ctx.probe(ip[v]["trend_method"])
        ctx.probe("no_extrapolation", not ip[v]["extrapolate"])
    ph = mt["precipitation_phase"]
    ctx.probe("piecewise", piecewise)
    ctx.probe("phase_temp" if ph["method"] == "temp" else "phase_wet_bulb")
    ctx.probe("no_snow_below_rain", ph["enforce_no_snow_below_rain"])
    ctx.probe("temp_range_0", ph["temp_range"] == 0)
    liston = ip["wind"]["method"] == "liston"
    terr = terrain(m, w, ip["wind"], ctx) if liston else None
    for k, date in enumerate(w.dates):
        m.run_single()
        account(ctx, w, spec)
        mo = m.state.meteo
        rec = {s: {v: float(recs[s].at[date, v]) for v in recs[s].columns} for s in stations}
        month = date.month

        def avail(*vs):
            return [s for s in stations if all(math.isfinite(rec[s].get(v, math.nan)) for v in vs)]

        def st(var, ss):
            return [(*stations[s], rec[s][var]) for s in ss]

        def check(name, want, rtol=1e-6, atol=1e-7, got=None):
            g = np.array(mo[name])[roi] if got is None else got
            ok = near(g, want, rtol, atol)
            ctx.ok()
            ctx.hash_array(name, g)
            if not ok.all():
                i = int(np.flatnonzero(~ok)[0])
                raise Violation(
                    "field-differs", f"{name} at step {k} ({date}), pixel ({rows[i]}, {cols[i]}) is "
                    f"{g[i]!r}, the reference model says {np.asarray(want)[i]!r} "
                    f"({int((~ok).sum())} of {len(ok)} pixels)", var=name, step=k)

        t_st = avail("temp")
        if piecewise:
            if t_st:
                want = pw_interp(ip["temperature"], st("temp", t_st), targets, ctx)
                if want is not None:
                    check("temp", limits("temp", ip["temperature"], [rec[s]["temp"] for s in t_st], want), 0, PW_TOL)
                    ctx.probe("piecewise_checked")
        else:
            check("temp", field("temp", ip["temperature"], month, st("temp", t_st), targets))
        temp = np.array(mo.temp)[roi]
        have = np.isfinite(temp[np.isfinite(dem)])
        if len(have) and (bool(t_st) != bool(have.all()) or bool(t_st) != bool(have.any())):
            raise Violation("field-availability", f"temp at step {k}: {len(t_st)} stations have data, "
                            f"{int(np.isfinite(temp).sum())} of {len(temp)} pixels do", step=k)
        h_st = avail("rel_hum", "temp")
        if piecewise:
            if h_st:
                td = [(*stations[s], dew_point(rec[s]["temp"], rec[s]["rel_hum"])) for s in h_st]
                want = pw_interp(ip["humidity"], td, targets, ctx)
                if want is not None:
                    want = [100 * es(d, "water") / es(t, "water") for d, t in zip(want, temp)]
                    check("rel_hum", limits("rel_hum", ip["humidity"], [rec[s]["rel_hum"] for s in h_st], want),
                          0.002, 0.05)
        else:
            check("rel_hum", hum_field(ip["humidity"], month, st("rel_hum", h_st),
                                       [rec[s]["temp"] for s in h_st], targets, temp))
        hum = np.array(mo.rel_hum)[roi]
        if np.nanmin(np.append(hum, 50)) < 0 or np.nanmax(np.append(hum, 50)) > 100:
            raise Violation("field-range", f"rel_hum at step {k} outside 0..100", step=k)
        # wind
        if not liston:
            check("wind_speed", field("wind_speed", ip["wind"], month,
                                      st("wind_speed", avail("wind_speed")), targets))
            if any("wind_speed_gust" in r for r in rec.values()):
                check("wind_speed_gust", field("wind_speed", ip["wind"], month,
                                               st("wind_speed_gust", avail("wind_speed_gust")),
                                               targets))
                ctx.probe("gust")
        else:
            liston_wind(m, ip["wind"], month, avail, rec, stations, targets, roi, check, ctx, terr)
        # precipitation
        pcorr, margin = correct(cfg, stations, rec, month, ctx)
        p_st = [s for s in stations if math.isfinite(pcorr[s])]
        precip = field("precip", ip["precipitation"], month,
                       [(*stations[s], pcorr[s]) for s in p_st], targets)
        wb = np.array(mo.wet_bulb_temp)[roi]
        ref_wb = [wet_bulb(t, h, pressure(z)) if math.isfinite(t) and math.isfinite(h) else math.nan
                  for t, h, (_, _, z) in zip(temp, hum, targets)]
        check("wet_bulb_temp", ref_wb, rtol=0, atol=0.03)
        derived(mo, roi, temp, hum, dem, check)
        pt = temp if ph["method"] == "temp" else wb
        f = [snow_frac(t, ph) for t in pt]
        if ph["enforce_no_snow_below_rain"] and any(x == 0 for x in f):
            zmax = max(z for z, x in zip(dem, f) if x == 0)
            f = [0.0 if z <= zmax else x for z, x in zip(dem, f)]
        f = np.array(f)
        snow, rain = np.array(mo.snowfall)[roi], np.array(mo.rainfall)[roi]
        got_p = np.array(mo.precip)[roi]
        if not near(got_p, snow + rain, 1e-9, 1e-9).all():
            raise Violation("precip-partition", f"rainfall + snowfall != precip at step {k}", step=k)
        if (snow < 0).any() or (rain < 0).any():
            raise Violation("precip-partition", f"negative rain- or snowfall at step {k}", step=k)
        if margin > 0.05 or ph["method"] == "temp":
            # (the gauge corrections jump at the phase thresholds, which the model's wet-bulb
            # temperature only resolves to 0.01 K)
            tol = 1e-6 if ph["method"] == "temp" or not any(
                c["method"] == "constant_scf" for c in mt["precipitation_correction"]) else 0.05
            if margin > 1e-9:
                fac = np.array(m.state.base.srf)[roi] if srf else np.ones(len(f))
                check("rainfall", (1 - f) * precip, rtol=tol)
                check("snowfall", f * precip * fac, rtol=tol)
        ctx.ok()
        ctx.probe("no_station", not t_st)
        ctx.probe("one_station", len(t_st) == 1)
        ctx.probe("partial_outage", 0 < len(t_st) < len(stations))
        ctx.probe("mixed_phase", bool(((f > 0) & (f < 1) & (got_p > 0)).any()))
        ctx.probe("all_rain", bool((f == 0).all() and got_p.max() > 0))
        ctx.probe("all_snow", bool((f == 1).all() and got_p.max() > 0))
        ctx.state(ip["temperature"]["trend_method"], ip["precipitation"]["trend_method"],
                  ip["wind"]["method"], ph["method"],
                  tuple(c["method"] for c in mt["precipitation_correction"]), len(t_st), len(h_st),
                  len(p_st))


def derived(mo, roi, temp, hum, dem, check):
    """Fields derived from temperature, humidity and elevation."""
    nan = math.nan
    cols = {v: [] for v in ("atmos_press", "sat_vap_press", "vap_press", "spec_hum",
                            "spec_heat_cap_moist_air", "lat_heat_vap", "psych_const", "dew_point_temp",
                            "dry_air_density")}
    for t, h, z in zip(temp, hum, dem):
        ht = math.isfinite(t)
        hh = ht and math.isfinite(h)
        p = pressure(z)
        sat = es(t) if ht else nan
        e = sat * h / 100 if hh else nan
        q = 0.622 * e / (p - 0.378 * e)
        cp = 1004.68506 * (1 + 0.84 * q)
        lv = 2.501e6 - 2361.0 * (t - T0) if ht else nan
        for v, x in (("atmos_press", p), ("sat_vap_press", sat), ("vap_press", e), ("spec_hum", q),
                     ("spec_heat_cap_moist_air", cp), ("lat_heat_vap", lv),
                     ("psych_const", cp * p / (0.622 * lv)),
                     ("dew_point_temp", (dew_point(t, h) if h > 0 else None) if hh else nan),
                     ("dry_air_density", p / (287.058 * t) if ht else nan)):
            cols[v].append(x)
    for v, want in cols.items():
        got = np.array(mo[v])[roi]
        want = [g if x is None else x for g, x in zip(got, want)]
        check(v, want, got=got)


def terrain(m, w, cfg, ctx):
    z = [[float(x) for x in row] for row in np.array(m.state.base.dem)]
    slope, aspect = horn(z, w.res)
    curv = curvature(z, w.res, cfg["curvature_length_scale"])
    roi = m.grid.roi
    for name, want, tol in (("slope", slope, 1e-6), ("aspect", aspect, 1e-4), ("scaled_curvature", curv, 1e-6)):
        if want is None:
            continue
        d = np.abs(np.array(m.state.base[name])[roi] - want[roi])
        if name == "aspect":
            d = np.minimum(d, 360 - d)
            d = d[slope[roi] > 1e-6]
        ctx.ok()
        if not (d <= tol).all():
            raise Violation("field-differs", f"{name} differs from the reference model by up to {d.max()}")
    return slope[roi], aspect[roi], np.array(m.state.base.scaled_curvature)[roi]


def liston_wind(m, cfg, month, avail, rec, stations, targets, roi, check, ctx, terr):
    slope, aspect, curv = terr
    for var, with_dir in (("wind_speed", True), ("wind_speed_gust", False)):
        if not any(var in r for r in rec.values()) and var != "wind_speed":
            continue
        ss = avail(var, "wind_dir")
        if not ss:
            check(var, [math.nan] * len(targets))
            continue
        a = [math.radians(rec[s]["wind_dir"]) for s in ss]
        us = [(*stations[s], -rec[s][var] * math.sin(x)) for s, x in zip(ss, a)]
        vs = [(*stations[s], -rec[s][var] * math.cos(x)) for s, x in zip(ss, a)]
        u = np.array(field("wind_vec", cfg, month, us, targets))
        v = np.array(field("wind_vec", cfg, month, vs, targets))
        ws = np.hypot(u, v)
        wd = (270 - np.rad2deg(np.arctan2(v, u))) % 360
        got = np.array(m.state.meteo[var])[roi]
        if not np.isfinite(got[np.isfinite(ws)]).all():
            raise Violation("field-availability", f"{var} is missing although stations have data")
        th = np.deg2rad(wd - aspect)
        flat = slope == 0  # no aspect
        wslope = np.where(flat, 0.0, np.deg2rad(slope) * np.cos(th))
        ctx.probe("flat_pixel", bool(flat.any()))
        if not np.isfinite(wslope).any():
            continue
        lo, hi = np.nanmin(wslope), np.nanmax(wslope)
        if hi - lo < 1e-6:  # no slopes in the direction of the wind
            ctx.probe("flat")
            continue
        sc = -0.5 + (wslope - lo) / (hi - lo)
        fac = 1 + cfg["slope_weight"] * sc + cfg["curvature_weight"] * curv
        check(var, np.clip(ws * fac, 0.1, None), rtol=1e-4)
        if with_dir:
            want = (wd - np.where(flat, 0.0, 0.5 * sc * np.sin(-2 * th))) % 360
            got = np.array(m.state.meteo.wind_dir)[roi]
            calm = ws < 1e-3
            d = np.abs((got - want + 180) % 360 - 180)
            ctx.ok()
            if (d[~calm] > 1e-3).any():
                raise Violation("field-differs", f"wind_dir differs by up to {d[~calm].max()} degrees")
        ctx.probe("liston")

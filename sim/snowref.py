"""Naive per-pixel reference models of one time step: snow layers, surface energy balance and soil.

Written from the cited literature (FSM, Essery 2015; MOSES/JULES soil; Anderson 1976; cryospheric layer
model, Strasser 2008 / Hanzer et al. 2016) in plain Python, one pixel at a time.  A step starts from the
model's own state after the previous step, so errors do not accumulate.  Branches that are decided by
values closer than EPS are recorded as ties; such pixel-steps are not judged.
"""

import math

import numpy as np

T0 = 273.15
LF = 0.334e6
LV = 2.501e6
SB = 5.670374419e-8
CP = 1004.68506
CI, CW = 2100.0, 4180.0
RV = 461.52
G = 9.80665
KARMAN = 0.4
RHO_I, RHO_W = 917.0, 1000.0
NAN = math.nan
EPS = 1e-9


def nz(x):
    return 0.0 if math.isnan(x) else x


def es(t):
    if math.isnan(t):
        return NAN
    tc = t - T0
    a, b, c = (610.78, 17.08, 234.18) if tc >= 0 else (610.71, 22.44, 272.44)
    return a * math.exp(b * tc / (c + tc))


def qsat(p, t):
    e = es(t)
    return 0.622 * e / (p - 0.378 * e)


class Tie:
    """Comparisons; remembers decisions that floating-point noise could turn round."""

    def __init__(self):
        self.tie = False

    def near(self, a, b):
        d = abs(a - b)
        if 0 < d < EPS * max(1.0, abs(a), abs(b)):
            self.tie = True

    def lt(self, a, b):
        self.near(a, b)
        return a < b

    def ge(self, a, b):
        self.near(a, b)
        return a >= b


def fresh_density(twb):
    if math.isnan(twb):
        return 100.0
    return 50 + 1.7 * (max(twb, T0 - 15) - (T0 - 15)) ** 1.5


def anderson(layers, ta, dt, tie):
    """layers: [(thickness, ice, lwc)] -> new thicknesses"""
    out = []
    load = 0.0
    for th, ice, lwc in layers:
        if th <= 0:
            out.append(th)
            continue
        mass = ice + lwc
        load += mass / 2
        rho = mass / th
        c6 = math.exp(-0.046 * (rho - 150)) if rho > 150 else 1.0
        c4 = 0.02 if lwc > 0 else 0.01
        rate = 0.0
        if not math.isnan(ta):
            rate = rho * (0.001 * load * math.exp(-0.08 * (T0 - ta) - 0.021 * rho)
                          + c4 * math.exp(-0.04 * (T0 - ta)) * c6)
        rho += rate * dt / 3600
        out.append(mass / rho)
        load += mass / 2
    return out


def aged_albedo(a, temp, snowfall, cfg, dt, tie):
    ac = cfg["snow"]["albedo"]
    melting = not math.isnan(temp) and tie.ge(temp, T0)
    tau = 3600 * (ac["melting_snow_decay_timescale"] if melting else ac["cold_snow_decay_timescale"])
    a = ac["min"] + (a - ac["min"]) * math.exp(-dt / tau)
    rate = nz(snowfall) / dt * 3600
    if ac["refresh_method"] == "binary":
        if tie.ge(rate, ac["refresh_snowfall"]):
            a = ac["max"]
    else:
        a += (ac["max"] - a) * min(1.0, rate / ac["refresh_snowfall"])
    return a


def capacity(cfg, th, ice):
    lw = cfg["snow"]["liquid_water_content"]
    if lw["method"] == "mass_fraction":
        return lw["max"] * ice
    if th <= 0:
        return 0.0
    return RHO_W * th * (1 - ice / (RHO_I * th)) * lw["max"]


def cover_fraction(cfg, depth):
    s = cfg["snow"]["snow_cover_fraction_depth_scale"]
    return math.tanh(depth / s) if s > 0 else float(depth > 0)


def decay_temp(cfg, met, ts):
    air = cfg["snow"]["albedo"]["decay_timescale_determination_temperature"] == "air"
    return met["temp"] if air else ts


# ---------------------------------------------------------------- surface


def exchange_coeff(cfg, met, ts, af, depth, z0):
    mh = cfg["meteo"]["measurement_height"]
    zu, zt = mh["wind"], mh["temperature"]
    if cfg["snow"]["measurement_height_adjustment"]:
        zt = max(zt - depth, 1.0)
    ch = KARMAN**2 / (math.log(zu / z0) * math.log(zt / (0.1 * z0)))
    if cfg["meteo"]["stability_correction"]:
        u = met["wind_speed"] if met["wind_speed"] != 0 else 0.5
        ri = G * zu**2 * (met["temp"] - ts) / (zt * met["temp"] * u**2)
        b = cfg["meteo"]["stability_adjustment_parameter"]
        if math.isnan(ri):
            f = 1.0
        elif ri >= 0:
            f = 1 / (1 + 3 * b * ri * math.sqrt(1 + b * ri))
        else:
            c = 3 * b**2 * KARMAN**2 * math.sqrt(zu / z0) / math.log(zu / z0) ** 2
            f = 1 - 3 * b * ri / (1 + c * math.sqrt(-ri))
        ch *= f
    return ch


class Fluxes:
    """Surface fluxes (towards the surface positive) for a given surface temperature."""

    def __init__(self, cfg, met, alb, ch, dt, emis):
        self.met, self.alb, self.dt, self.em = met, alb, dt, emis
        self.r = met["dry_air_density"] * ch * met["wind_speed"]

    def radiation(self, ts):
        m = self.met
        sw = self.alb * m["sw_in"]
        lw = self.em * SB * ts**4
        return sw, lw, m["sw_in"] - sw + m["lw_in"] - lw

    def sensible(self, ts):
        return CP * self.r * (self.met["temp"] - ts)

    def moisture(self, ts, psi):
        return psi * self.r * (self.met["spec_hum"] - qsat(self.met["atmos_press"], ts))

    def advective(self, ts):
        m = self.met
        return (CW * (m["temp"] - ts) * m["rainfall"] + CI * (m["wet_bulb_temp"] - ts) * m["snowfall"]) / self.dt


def lat_heat(met, icy):
    lv = LV - 2361.0 * (met["temp"] - T0)
    return lv + LF if icy else lv


# ---------------------------------------------------------------- soil (multilayer)


def soil_constants(cfg):
    s = cfg["soil"]
    sand, clay = s["sand_fraction"], s["clay_fraction"]
    c = {}
    c["cdry"] = (2.128e6 * sand + 2.385e6 * clay) / (sand + clay)
    c["b"] = 3.1 + 15.7 * clay - 0.3 * sand
    c["psi"] = 10 ** (0.17 - 0.63 * clay - 1.58 * sand)
    c["vsat"] = 0.505 - 0.037 * clay - 0.142 * sand
    c["vcrit"] = c["vsat"] * (c["psi"] / 3.364) ** (1 / c["b"])
    kmin = 1.16**clay * 1.57 ** (1 - clay)
    c["kdry"] = 0.025 ** c["vsat"] * kmin ** (1 - c["vsat"])
    c["theta"] = s["init_moisture_content"] * c["vsat"]
    return c


def soil_layer(c, dz, t):
    """(areal heat capacity, conductivity, unfrozen fraction, frozen fraction) of a soil layer"""
    th = c["theta"]
    if th <= 0:
        return c["cdry"] * dz, c["kdry"], NAN, NAN
    kappa = RHO_I / RHO_W * LF / (T0 * G)
    tmax = T0 - c["psi"] / kappa * (c["vsat"] / th) ** c["b"]
    u, du = th, 0.0
    if t < tmax:
        x = -kappa * (t - T0) / c["psi"]
        u = min(c["vsat"] * x ** (-1 / c["b"]), th)
        du = kappa * c["vsat"] / (c["b"] * c["psi"]) * x ** (-1 / c["b"] - 1)
    f = (th - u) * RHO_W / RHO_I
    cv = c["cdry"] + RHO_W * CW * u + RHO_I * CI * f + RHO_W * ((CW - CI) * t + LF) * du
    su, sf = u / c["vsat"], RHO_I / RHO_W * f / c["vsat"]
    lw = c["vsat"] * su / (su + sf)
    ksat = c["kdry"] * 0.56**lw * 2.24 ** (c["vsat"] - lw) / 0.025 ** c["vsat"]
    return cv * dz, (ksat - c["kdry"]) * th / c["vsat"] + c["kdry"], su, sf


def conduct(dz, k, cap, t, flux, dt, tb, dzb, kb):
    """Implicit heat conduction: heat `flux` enters from above, below lies a layer of temperature tb."""
    n = len(t)
    u = [2 / (dz[i] / k[i] + (dz[i + 1] / k[i + 1] if i + 1 < n else dzb / kb)) for i in range(n)]
    A = np.zeros((n, n))
    r = np.zeros(n)
    for i in range(n):
        A[i, i] = cap[i] + u[i] * dt
        r[i] = (flux if i == 0 else u[i - 1] * (t[i - 1] - t[i])) * dt
        r[i] += u[i] * ((t[i + 1] if i + 1 < n else tb) - t[i]) * dt
        if i > 0:
            A[i, i] += u[i - 1] * dt
            A[i, i - 1] = -u[i - 1] * dt
        if i + 1 < n:
            A[i, i + 1] = -u[i] * dt
    if not np.isfinite(r).all():
        return [0.0] * n if math.isnan(flux) else list(np.nan_to_num(np.linalg.solve(A, r)))
    return list(np.linalg.solve(A, r))


# ---------------------------------------------------------------- multilayer model


def multilayer_step(prev, met, cfg, dt, soil, emis):
    """prev: n, th, ice, lwc, T, k (lists), alb, ts, soilT; returns (outputs, tie, classes)."""
    tie = Tie()
    mt = list(cfg["snow"]["min_thickness"])
    nl = len(mt)
    n = prev["n"]
    th, ice, lwc, T = (list(prev[v]) for v in ("th", "ice", "lwc", "T"))
    alb, ts = prev["alb"], prev["ts"]
    ta, twb = met["temp"], met["wet_bulb_temp"]
    cls = set()
    # densification
    if n:
        cc = cfg["snow"]["compaction"]
        if cc["method"] == "anderson":
            th[:n] = anderson(list(zip(th, ice, lwc))[:n], ta, dt, tie)
        else:
            for k in range(n):
                rho = (ice[k] + lwc[k]) / th[k]
                top = cc["max_cold_density"] if tie.lt(T[k], T0) else cc["max_melting_density"]
                if tie.lt(rho, top):
                    rho = top + (rho - top) * math.exp(-dt / (3600 * cc["timescale"]))
                    th[k] = (ice[k] + lwc[k]) / rho

    def add(mass):
        nonlocal n, alb
        if n == 0:
            n, alb, T[0] = 1, cfg["snow"]["albedo"]["max"], min(ta, T0)
            cls.add("new_pack")
        ice[0] += mass
        th[0] += mass / fresh_density(twb)

    if nz(met["snowfall"]) > 0:
        add(met["snowfall"])
        cls.add("snowfall")
    if not math.isnan(alb):
        alb = aged_albedo(alb, decay_temp(cfg, met, ts), met["snowfall"], cfg, dt, tie)
    depth = sum(th)
    swe0 = sum(ice) + sum(lwc)
    af = cover_fraction(cfg, depth)
    cap = [ice[k] * CI + lwc[k] * CW for k in range(nl)]
    # soil
    sdz = list(cfg["soil"]["thickness"])
    sl = [soil_layer(soil, d, t) for d, t in zip(sdz, prev["soilT"])]
    # surface
    o = {}
    salb = af * alb + (1 - af) * cfg["soil"]["albedo"] if af > 0 else cfg["soil"]["albedo"]
    z0 = cfg["snow"]["roughness_length"] ** af * cfg["soil"]["roughness_length"] ** (1 - af)
    ch = exchange_coeff(cfg, met, ts, af, depth, z0)
    su = sl[0][2]
    g = cfg["soil"]["saturated_soil_surface_conductance"] * (
        NAN if math.isnan(su) else max((su * soil["vsat"] / soil["vcrit"]) ** 2, 1))
    dz1 = max(th[0], sdz[0])
    kt = prev["k"][0]
    if th[0] <= sdz[0] / 2:
        kt = sdz[0] / (2 * th[0] / kt + (sdz[0] - 2 * th[0]) / sl[0][1])
    t1 = prev["soilT"][0] + (T[0] - prev["soilT"][0]) * th[0] / sdz[0]
    if tie.lt(sdz[0], th[0]):
        t1 = T[0]
    tie.near(th[0], sdz[0] / 2)
    fx = Fluxes(cfg, met, salb, ch, dt, emis)
    p = met["atmos_press"]
    q0 = qsat(p, ts)
    if swe0 > 0 or tie.lt(q0, met["spec_hum"]):
        psi = 1.0
    else:
        psi = g / (g + ch * met["wind_speed"])
    L = lat_heat(met, ice[0] > 0 or ts < T0)

    def solve(melt):
        D = L * q0 / (RV * ts**2)
        res = (fx.radiation(ts)[2] + fx.sensible(ts) + L * fx.moisture(ts, psi) + fx.advective(ts)
               - 2 * kt * (ts - t1) / dz1 - LF * melt / dt)
        d = res / ((CP + L * psi * D) * fx.r + 2 * kt / dz1 + 4 * emis * SB * ts**3)
        return nz(d), nz(-psi * fx.r * D * d)

    melt = 0.0
    dts, dE = solve(0.0)
    if ice[0] > 0 and tie.lt(T0, ts + dts):
        melt = sum(ice)
        dts, dE = solve(melt)
        cls.add("all_melts")
        if tie.lt(ts + dts, T0):
            cls.discard("all_melts")
            cls.add("partial_melt")
            ts, dts, dE = T0, 0.0, 0.0
            L = lat_heat(met, True)
            melt = max((fx.radiation(T0)[2] + fx.sensible(T0) + L * fx.moisture(T0, psi) + fx.advective(T0)
                        - 2 * kt * (T0 - t1) / dz1) / LF * dt, 0.0)
    H = fx.sensible(ts) - CP * fx.r * dts
    E = fx.moisture(ts, psi) + dE
    o["surface.advective_heat_flux"] = fx.advective(ts)
    ts = ts + dts
    Gs = 2 * kt * (ts - t1) / dz1
    o["surface.temp"] = ts
    o["surface.heat_flux"] = Gs
    o["surface.sens_heat_flux"] = H
    o["surface.moisture_flux"] = E
    tie.near(ts, T0)
    o["surface.lat_heat_flux"] = lat_heat(met, ice[0] > 0 or ts < T0) * E
    sw, lw, rn = fx.radiation(ts)
    o["meteo.sw_out"], o["meteo.lw_out"], o["meteo.net_radiation"] = sw, lw, rn
    o["surface.albedo"], o["surface.roughness_length"], o["surface.turbulent_exchange_coeff"] = salb, z0, ch
    if math.isnan(rn + H + E):
        cls.add("missing_energy")
    # conduction in the snow
    if n:
        d = conduct(th[:n], prev["k"][:n], cap[:n], T[:n], Gs, dt, prev["soilT"][0], sdz[0], sl[0][1])
        for k in range(n):
            T[k] += nz(d[k])
    # melt
    m_act = 0.0
    for k in range(n):
        if tie.lt(T0, T[k]):
            melt += cap[k] * (T[k] - T0) / LF
            T[k] = T0
            cls.add("warm_layer")
        if melt > 0 and ice[k] > 0:
            tie.near(melt, ice[k])
            x = min(melt, ice[k])
            th[k] *= 1 - x / ice[k]
            ice[k] -= x
            lwc[k] += x
            m_act += x
            melt -= x
            if ice[k] <= 0:
                th[k] = 0.0
    o["snow.melt"] = m_act
    # sublimation and frost
    sub = 0.0
    if ice[0] > 0 or ts < T0:
        sub = min(nz(-E * dt), sum(ice))
    o["snow.sublimation"] = sub
    if sub < 0:
        add(-sub)
        cls.add("frost")
    elif sub > 0:
        cls.add("sublimation")
        for k in range(n):
            if ice[k] <= 0:
                continue
            tie.near(sub, ice[k])
            x = min(sub, ice[k])
            th[k] *= 1 - x / ice[k]
            ice[k] -= x
            sub -= x
            if ice[k] <= 0:
                th[k] = 0.0
    # percolation and refreezing
    w = nz(met["rainfall"])
    ref = 0.0
    caps = [capacity(cfg, th[k], ice[k]) for k in range(nl)]
    for k in range(n):
        lwc[k] += w
        w = max(lwc[k] - caps[k], 0.0)
        lwc[k] -= w
        cold = cap[k] * (T0 - T[k])
        if cold > 0:
            x = min(lwc[k], cold / LF)
            lwc[k] -= x
            ice[k] += x
            ref += x
            T[k] += LF * x / cap[k]
            cls.add("refreezing") if x > 0 else None
    o["snow.runoff"], o["snow.refreezing"] = w, ref
    depth = sum(th)
    o["snow.depth"], o["snow.swe"] = depth, sum(ice) + sum(lwc)
    o["snow.area_fraction"] = cover_fraction(cfg, depth)
    # layering: new layers are cut from the old stack from top to bottom
    cap = [ice[k] * CI + lwc[k] * CW for k in range(nl)]
    cut = []
    if depth > 0:
        rest = depth
        for k in range(nl):
            rest -= mt[k]
            tie.near(rest, mt[k])
            if rest <= mt[k] or k == nl - 1:
                cut.append(mt[k] + rest)
                break
            cut.append(mt[k])
        tie.near(cut[0], 1e-6)
        if 5e-7 < cut[0] < 2e-6:
            tie.tie = True
        cut = [c for c in cut if c >= 1e-6]
    n2 = len(cut)
    res = {v: [0.0] * nl for v in ("th", "ice", "lwc")}
    T2 = [T0] * nl
    pos = 0.0
    edges = [0.0]
    for k in range(n):
        edges.append(edges[-1] + th[k])
    for k2, d in enumerate(cut):
        lo, hi = pos, pos + d
        pos = hi
        i2 = w2 = e2 = 0.0
        for k in range(n):
            if th[k] <= 0:
                continue
            f = max(min(hi, edges[k + 1]) - max(lo, edges[k]), 0.0) / th[k]
            i2 += f * ice[k]
            w2 += f * lwc[k]
            e2 += f * cap[k] * (T[k] - T0)
        res["th"][k2], res["ice"][k2], res["lwc"][k2] = d, i2, w2
        c2 = i2 * CI + w2 * CW
        T2[k2] = T0 + e2 / c2 if c2 > 0 else T0
    o["snow.num_layers"] = n2
    o["snow.thickness"], o["snow.ice_content"], o["snow.liquid_water_content"] = (
        res["th"], res["ice"], res["lwc"])
    o["snow.temp"] = T2
    o["snow.albedo"] = alb if n2 else NAN
    # soil
    if n2 == 0:
        gs = Gs
    else:
        u = 2 / (res["th"][n2 - 1] / prev["k"][n2 - 1] + sdz[0] / sl[0][1])
        gs = u * (T2[n2 - 1] - prev["soilT"][0])
    o["soil.heat_flux"] = gs
    o["soil.heat_cap"] = [x[0] for x in sl]
    o["soil.therm_cond"] = [x[1] for x in sl]
    d = conduct(sdz, [x[1] for x in sl], [x[0] for x in sl], prev["soilT"], gs, dt, prev["soilT"][-1],
                sdz[-1], sl[-1][1])
    o["soil.temp"] = [t + nz(x) for t, x in zip(prev["soilT"], d)]
    if any(t < T0 for t in prev["soilT"]):
        cls.add("frozen_soil")
    if any(abs(t - T0) < 1e-9 for t in prev["soilT"]):
        tie.near(0, 0)
    cls.add(f"layers{n2}")
    if n and not n2:
        cls.add("vanished")
    return o, tie.tie, cls


# ---------------------------------------------------------------- cryospheric layers

NEW, OLD, FIRN, ICE = range(4)


def cryo_step(prev, met, cfg, dt, emis, firn_now, floor):
    """prev: th, ice, lwc, cc, rho, la (lists of 4), ts; floor: coldest snow-covered pixel - 3 K
    (legacy iteration); returns (outputs, tie, classes, tolerances)."""
    tie = Tie()
    cl = cfg["snow"]["cryolayers"]
    th, ice, lwc, cc, rho, la = (list(prev[v]) for v in ("th", "ice", "lwc", "cc", "rho", "la"))
    ts = prev["ts"]
    ta, twb = met["temp"], met["wet_bulb_temp"]
    cls = set()
    o, tol = {}, {}
    # densification
    t2 = anderson(list(zip(th, ice, lwc))[:2], ta, dt, tie)
    for k in (NEW, OLD):
        if th[k] > 0:
            th[k] = t2[k]
            rho[k] = (ice[k] + lwc[k]) / th[k]
    if th[FIRN] > 0:
        rho[FIRN] += (cl["transition"]["ice"] - 500) / (24 * 365.25 * 10) * dt / 3600
        th[FIRN] = (ice[FIRN] + lwc[FIRN]) / rho[FIRN]
    if th[ICE] > 0:
        rho[ICE] = cl["transition"]["ice"]
        th[ICE] = (ice[ICE] + lwc[ICE]) / rho[ICE]

    def add(mass):
        d = fresh_density(twb)
        if ice[NEW] == 0:
            la[NEW] = la[OLD] if cl["use_single_snow_albedo"] and th[OLD] > 0 else cfg["snow"]["albedo"]["max"]
            cls.add("new_layer")
        ice[NEW] += mass
        th[NEW] += mass / d
        rho[NEW] = (ice[NEW] + lwc[NEW]) / th[NEW]

    if nz(met["snowfall"]) > 0:
        add(met["snowfall"])
        cls.add("snowfall")
    # albedo
    top = next((k for k in range(4) if th[k] > 0), -1)
    o["surface.layer_type"] = top
    if th[NEW] > 0 or th[OLD] > 0:
        a = la[NEW] if th[NEW] > 0 else la[OLD]
        a = aged_albedo(a, decay_temp(cfg, met, ts), met["snowfall"], cfg, dt, tie)
        for k in (NEW, OLD):
            if th[k] > 0 and (k == top or cl["use_single_snow_albedo"]):
                la[k] = a
    if top == FIRN:
        la[FIRN] = cfg["snow"]["albedo"]["firn"]
        cls.add("firn_surface")
    if top == ICE:
        la[ICE] = cfg["snow"]["albedo"]["ice"]
        cls.add("ice_surface")
    depth = sum(th)
    swe = sum(ice) + sum(lwc)
    af = cover_fraction(cfg, depth)
    salb = af * la[top] + (1 - af) * cfg["soil"]["albedo"] if af > 0 else cfg["soil"]["albedo"]
    z0 = cfg["snow"]["roughness_length"] ** af * cfg["soil"]["roughness_length"] ** (1 - af)
    ch = exchange_coeff(cfg, met, ts, af, depth, z0)
    o["surface.albedo"], o["surface.roughness_length"], o["surface.turbulent_exchange_coeff"] = salb, z0, ch
    melt = ref = 0.0
    E = NAN
    method = cfg["snow"]["melt"]["method"]
    if method == "energy_balance":
        fx = Fluxes(cfg, met, salb, ch, dt, emis)
        q = cl["surface_heat_flux"]
        snow = swe > 0
        ts = ta
        L = lat_heat(met, ice[NEW] > 0 or ta < T0)
        F = lambda t: (fx.radiation(t)[2] + fx.sensible(t) + L * fx.moisture(t, 1.0)  # noqa: E731
                       + fx.advective(t) - q)
        if snow and tie.ge(ta, T0):
            ts = T0
            en = F(T0)
            left = dt
            cls.add("melting_air")
            if en > 0:
                for k in range(4):
                    if th[k] <= 0 or left <= 0:
                        continue
                    we = ice[k] + cc[k]
                    t = LF * we / en
                    tie.near(t, left)
                    if t < left:
                        melt += ice[k]
                        cc[k] = 0.0
                        cls.add("layer_gone")
                    else:
                        x = en * left / LF
                        y = min(x, cc[k])
                        cc[k] -= y
                        melt += x - y
                        cls.add("cold_content_used") if y > 0 else None
                    left -= t
        elif snow and ta < T0:
            cls.add("freezing_air")
            en = F(T0)
            av = max(-en * dt / LF * cl["refreezing_factor"], 0.0) if not math.isnan(en) else NAN
            for k in (NEW, OLD):
                if th[k] > 0 and av > 0:
                    x = min(lwc[k], av)
                    lwc[k] -= x
                    ice[k] += x
                    ref += x
                    av -= x
                    y = min(av, cl["cold_holding_capacity"] * (ice[k] + lwc[k]) - cc[k])
                    cc[k] += y
                    av -= y
                    cls.add("refreezing") if x > 0 else None
                    cls.add("cold_content") if y > 0 else None
            # surface temperature
            if math.isnan(en):
                ts = T0
                cls.add("missing_energy")
            elif cl["surface_temperature_iteration_method"] == "legacy":
                ts = T0
                tie.near(F(ts), 0)
                while F(ts) < 0 and ts - 0.25 >= floor - 1e-6:
                    ts -= 0.25
                    if abs(F(ts)) < 1e-6:
                        tie.tie = True
                cls.add("legacy")
                if ts - 0.25 < floor - 1e-6:
                    cls.add("legacy_floor")
            elif en >= 0:
                ts = T0
                cls.add("warm_surface")
                if en < 1:
                    tol["surface.temp"] = 0.02
            else:
                lo, hi = 150.0, T0
                for _ in range(70):
                    mid = (lo + hi) / 2
                    lo, hi = (mid, hi) if F(mid) > 0 else (lo, mid)
                ts = (lo + hi) / 2
                tol["surface.temp"] = 0.02
                cls.add("secant")
        o["surface.temp"] = ts
        if tol:
            o["model_ts"] = True
        o["_fx"], o["_L"] = fx, L
        o["_snow"] = snow
        if snow:
            o["surface.heat_flux"] = q
    elif swe > 0:
        mc = cfg["snow"]["melt"]
        dd = (ta - mc["threshold_temp"]) * dt / 86400
        if method == "temperature_index":
            x = mc["degree_day_factor"] * max(dd, 0.0) if not math.isnan(dd) else NAN
        else:
            x = NAN
            if not math.isnan(dd):
                x = (mc["degree_day_factor"] * dd + mc["albedo_factor"] * (1 - salb) * met["sw_in"] * dt / 86400
                     if dd > 0 else 0.0)
        melt = min(max(x, 0.0), sum(ice)) if not math.isnan(x) else NAN
        cls.add(method)
    o["_pre"] = dict(th=th, ice=ice, lwc=lwc, cc=cc, rho=rho, la=la, melt=melt, ref=ref, add=add)
    return o, tie, cls, tol


def cryo_finish(o, met, cfg, dt, E, firn_now, tie, cls):
    """Second part of the step for the (checked) moisture flux E of the model."""
    s = o.pop("_pre")
    th, ice, lwc, cc, rho, la, add = (s[v] for v in ("th", "ice", "lwc", "cc", "rho", "la", "add"))
    cl = cfg["snow"]["cryolayers"]
    o["snow.melt"] = s["melt"]
    if "surface.temp" in o:
        o["snow.refreezing"] = s["ref"]
    melt = nz(s["melt"])
    for k in range(4):
        if melt > 0 and ice[k] > 0:
            tie.near(melt, ice[k])
            x = min(melt, ice[k])
            th[k] *= 1 - x / ice[k]
            ice[k] -= x
            lwc[k] += x
            melt -= x
    sub = 0.0
    if sum(ice) > 0:
        sub = min(nz(-E * dt), sum(ice))
    o["snow.sublimation"] = sub
    if sub > 0:
        cls.add("sublimation")
        for k in range(4):
            if ice[k] > 0 and sub > 0:
                tie.near(sub, ice[k])
                x = min(sub, ice[k])
                th[k] *= 1 - x / ice[k]
                ice[k] -= x
                sub -= x
    elif sub < 0:
        cls.add("frost")
        add(-sub)
    w = nz(met["rainfall"])
    caps = [capacity(cfg, th[k], ice[k]) if k < FIRN else 0.0 for k in range(4)]
    for k in range(4):
        if ice[k] + lwc[k] > 0:
            lwc[k] += w
            w = max(lwc[k] - caps[k], 0.0)
            lwc[k] -= w
    o["snow.runoff"] = w
    top = next((k for k in range(4) if th[k] > 0), -1)
    o["snow.swe"] = sum(ice) + sum(lwc)
    o["snow.area_fraction"] = cover_fraction(cfg, sum(th))
    o["snow.albedo"] = la[top] if top >= 0 else NAN
    for k in range(4):
        if th[k] > 0:
            rho[k] = (ice[k] + lwc[k]) / th[k]
        if ice[k] + lwc[k] <= 0:
            th[k] = ice[k] = lwc[k] = cc[k] = 0.0
            rho[k] = la[k] = NAN
        else:
            th[k] = (ice[k] + lwc[k]) / rho[k]

    def move(a, b):
        if th[a] <= 0:
            return
        m1, m2 = ice[a] + lwc[a], ice[b] + lwc[b]
        f = m1 / (m1 + m2)
        rho[b] = rho[a] if m2 == 0 else f * rho[a] + (1 - f) * rho[b]
        la[b] = la[a] if m2 == 0 else f * la[a] + (1 - f) * la[b]
        ice[b] += ice[a]
        lwc[b] += lwc[a]
        cc[b] += cc[a]
        th[b] = (ice[b] + lwc[b]) / rho[b]
        th[a] = ice[a] = lwc[a] = cc[a] = 0.0
        rho[a] = la[a] = NAN
        cls.add(f"move{a}" + ("m" if m2 else "i"))

    if th[NEW] > 0 and tie.ge(rho[NEW], cl["transition"]["old_snow"]):
        move(NEW, OLD)
    if firn_now:
        move(OLD, FIRN)
    if th[FIRN] > 0 and tie.ge(rho[FIRN], cl["transition"]["ice"]):
        move(FIRN, ICE)
    o["snow.depth"] = sum(th)
    o["snow.num_layers"] = sum(t > 0 for t in th)
    o.update({"snow.thickness": th, "snow.ice_content": ice, "snow.liquid_water_content": lwc,
              "snow.cold_content": cc, "snow.density": rho, "snow.layer_albedo": la})
    return o

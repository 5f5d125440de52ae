"""P22: glacier geometry updates move ice within each glacier without creating any."""

import math

import pandas as pd

from ..common import *  # noqa: F403
from ..common import REAL_MODEL, STUB_WORLD, ASSUME
from .. import common
from ..world import set_path
from .p20_snow_processes import drive, swarm

ID = "P22"
LEVEL = "exploration"
N = {"quick": 220, "thorough": 5000}
REAL = REAL_MODEL
STUB = STUB_WORLD + ["ice and firn: set and changed by the simulator between time steps (calving, avalanches)"]
ASSUMPTIONS = ASSUME + [
    "daily or 12-hourly time steps; in most runs the simulated clock jumps over quiet parts of the year",
    "surface mass balance of a pixel taken from the model (P01, P20, P21 decide it)",
]
RULE = (
    "one evaluation = one (pixel, time step) whose ice after the step was compared with a naive reference model; "
    "distinct = (shape of the update, area class, clipping) of a glacier"
)
REQUIRED_PROBES = ("start", "update", "retreat", "growth", "flat", "limited", "unlimited", "thin_pixel",
                   "small", "medium", "large", "few_pixels", "outside", "emptied", "regained", "second_year",
                   "not_started", "no_ice_glacier")
ICE = 3
DENS = 917.0


def warm(root):
    common.warm(root, ["cryolayers"])


def gen(rng, index, tier):
    month = rng.randint(1, 12)
    ts = rng.pick(["D", "D", "D", "12h"])
    per_day = 1 if ts == "D" else 2
    begin = pd.Timestamp(year=rng.pick([2019, 2020, 2021]), month=month, day=1)
    lead = rng.pick([0, 0, 1, 3])
    start = begin - pd.Timedelta(days=lead)
    years = 2 if rng.chance(0.3) else 1
    end = begin + pd.DateOffset(years=years)
    tail = rng.pick([0, 1, 3])
    days = (end - start).days + tail
    # Occasionally the mass balance year is incomplete
    if rng.chance(0.1):
        days = (end - start).days - rng.randint(1, 40)
    size = rng.pick(["tiny", "small", "large"])
    opt = {"tiny": dict(rows=2, cols=rng.randint(2, 4)), "small": {},
           "large": dict(rows=rng.randint(4, 7), cols=rng.randint(4, 7), res=rng.pick([500, 1000, 1500]))}[size]
    spec = gen_world(rng, timestep=ts, steps=days * per_day, start=str(start), svf="file",
                     regime=rng.pick(["warm", "mild", "cold", "swing"]), **opt)
    g = spec["grid"]
    if rng.chance(0.5):
        g["glaciers"] = "one"
    if rng.chance(0.15):
        g["relief"] = 0.0
    elif rng.chance(0.3):
        g["relief"] = 800.0
    spec["faults"] = gen_sensor_faults(rng, spec, rate=0.5)
    cfg = spec["cfg"] = gen_physics_cfg(rng, spec, snow_model="cryolayers", canopy=False, et=False)
    cfg.pop("extend_roi_with_stations", None)
    swarm(rng, cfg)
    set_path(cfg, "glaciers.enabled", True)
    set_path(cfg, "glaciers.delta_h.mass_balance_year_start_month", month)
    # the days the clock visits
    visit = {0}
    for y in range(years):
        b = lead + (begin + pd.DateOffset(years=y) - begin).days
        e = lead + (begin + pd.DateOffset(years=y + 1) - begin).days
        visit.update(range(b, b + rng.randint(1, 4)))
        visit.update(range(e - rng.randint(1, 4), e + 2))
        for _ in range(rng.randint(0, 4)):
            d = rng.randint(b, e - 1)
            if rng.chance(0.5):  # around the turn of a month
                t = start + pd.Timedelta(days=d)
                d = (t.replace(day=1) - start).days - 1
            visit.update(range(d, d + rng.randint(1, 5)))
    if rng.chance(0.06):
        visit = set(range(days))
    spec["visit"] = sorted(d for d in visit if 0 <= d < days)
    # ice and its changes
    deep = rng.pick([9171.0, 9600.0, 12000.0, 30000.0])
    ice = []
    for i in range(g["rows"]):
        for j in range(g["cols"]):
            if rng.chance(0.85):
                ice.append([i, j, rng.pick([deep] * 6 + [100.0, 20000.0, 9169.0, 0.0]),
                            rng.pick([0.0, 0.0, 50.0, 2000.0])])
    spec["ice"] = ice
    spec["shifts"] = []
    for _ in range(rng.pick([0, 1, 2, 2, 3])):
        mode = rng.pick(["loss", "loss", "gain", "mixed", "tongue", "tongue", "wipe"])
        spec["shifts"].append({"day": rng.pick(spec["visit"]), "mode": mode, "seed": rng.getrandbits(32),
                               "amount": rng.pick([1.0, 200.0, 3000.0])})
    return spec


def shift(m, w, sh, ctx):
    """Ice that moves for other reasons: set by the caller between two time steps."""
    s = m.state.snow
    r = Rng("shift", sh["seed"]).np()
    n = m.state.base.dem
    lo = np.nanmin(n)
    hi = np.nanmax(n)
    f = r.random(n.shape)
    if sh["mode"] == "gain":
        d = sh["amount"] * f
    elif sh["mode"] == "mixed":
        d = sh["amount"] * (2 * f - 1)
    elif sh["mode"] == "tongue":
        d = -sh["amount"] * f * np.clip(1.2 - (n - lo) / max(1.0, hi - lo), 0, 1)
    elif sh["mode"] == "wipe":
        d = np.where(f < 0.15, -1e9, 0.0)
    else:
        d = -sh["amount"] * f
    for p in map(tuple, np.argwhere(m.grid.roi)):
        k = ICE if r.random() < 0.8 else 2
        old = s.ice_content[k, p[0], p[1]]
        if old > 0:
            new = max(old + d[p], 0.0)
            s.ice_content[k, p[0], p[1]] = new
            s.thickness[k, p[0], p[1]] = new / s.density[k, p[0], p[1]]
            if new == 0:
                s.density[k, p[0], p[1]] = s.layer_albedo[k, p[0], p[1]] = np.nan
                s.cold_content[k, p[0], p[1]] = 0.0
    ctx.fault("ice_" + sh["mode"])


def shape(h, area):
    if area >= 20e6:
        d = (h - 0.02) ** 6 + 0.12 * (h - 0.02)
    elif area >= 5e6:
        d = (h - 0.05) ** 4 + 0.19 * (h - 0.05) + 0.01
    else:
        d = (h - 0.3) ** 2 + 0.6 * (h - 0.3) + 0.09
    return min(max(d, 0.0), 1.0)


def redistribute(pix, start, end, dem, res, ctx):
    """New ice {pixel: kg m-2} of one glacier; start/end: pixel -> (firn, ice)."""
    G = [p for p in pix if start[p][1] > 0]
    if not G:
        ctx.probe("no_ice_glacier")
        return {}, None
    U = [p for p in G if start[p][1] / DENS >= 10.0]
    ctx.probe("thin_pixel", len(G) - len(U))
    if len(U) < 2:
        ctx.probe("few_pixels")
        return {}, None
    mb = {p: sum(end[p]) - sum(start[p]) for p in G}
    total = math.fsum(mb[p] for p in U)
    zs = sorted(dem[p] for p in G)
    top = max(zs[math.ceil(len(G) * 10.0 / 100.0) - 1], zs[0] + 50.0)
    limit = min(min(mb[p] for p in G if dem[p] <= top), 0.0)
    zu = [dem[p] for p in U]
    lo, hi = min(zu), max(zu)
    area = len(G) * res**2
    cls = "large" if area >= 20e6 else "medium" if area >= 5e6 else "small"
    tie = abs(total) < 1e-7 or any(abs(start[p][1] / DENS - 10.0) < 1e-9 for p in G)
    if total >= 0 or hi <= lo:
        ctx.probe("growth" if total >= 0 else "flat")
        kind = "even"
        change = {p: total / len(U) for p in U}
    else:
        ctx.probe("retreat")
        ctx.probe(cls)
        kind = "free"
        h = {p: (hi - dem[p]) / (hi - lo) for p in U}
        S = math.fsum(shape(h[p], area) for p in U)
        change = {p: total * shape(h[p], area) / S for p in U}
        if limit < 0:
            tie |= any(abs(change[p] - limit) < 1e-7 for p in U)
            over = [p for p in U if change[p] < limit]
            rest = [p for p in U if change[p] >= limit]
            zr = [dem[p] for p in rest]
            if over and len(set(zr)) > 1:
                kind = "limited"
                surplus = math.fsum(change[p] - limit for p in over)
                wgt = {p: (dem[p] - min(zr)) / (max(zr) - min(zr)) for p in rest}
                W = math.fsum(wgt.values())
                for p in over:
                    change[p] = limit
                for p in rest:
                    change[p] += surplus * wgt[p] / W
        ctx.probe("limited" if kind == "limited" else "unlimited")
    ctx.state(kind, cls, len(U), len(G))
    new = {p: start[p][1] + change[p] - (end[p][0] - start[p][0]) for p in U}
    if any(x <= 0 for x in new.values()):
        ctx.probe("emptied")
    for p in U:
        ctx.probe("regained", end[p][1] <= 0 < new[p])
    return {p: max(x, 0.0) for p, x in new.items()}, None if tie else total


def run(spec, ctx):
    per_day = 1 if spec["time"]["timestep"] == "D" else 2
    steps = spec["time"]["steps"]
    month = spec["cfg"]["glaciers"]["delta_h"]["mass_balance_year_start_month"]
    dates = list(pd.date_range(spec["time"]["start"], periods=steps, freq=spec["time"]["timestep"]))
    dt = dates[1] - dates[0]
    visited = sorted({d * per_day + i for d in spec["visit"] for i in range(per_day)} & set(range(steps)))
    is_start = {k for k in visited if dates[k].month == month and (dates[k] - dt).month != month}
    is_end = {k for k in visited if dates[k].month != month and (dates[k] + dt).month == month}
    schedule = {k: k in is_end or k in is_start for k in visited}
    shifts = {}
    for sh in spec["shifts"]:
        shifts.setdefault(sh["day"] * per_day, []).append(sh)
    mem = {"start": None, "n": 0}

    def totals(m):
        we = np.array(m.state.snow.ice_content) + np.array(m.state.snow.liquid_water_content)
        return {p: (float(we[2][p]), float(we[ICE][p])) for p in map(tuple, np.argwhere(m.grid.roi).tolist())}

    def ready(w, m):
        s = m.state.snow
        for i, j, ice, firn in spec["ice"]:
            if i >= w.rows or j >= w.cols or not m.grid.roi[i, j]:
                continue
            for k, we, rho in ((ICE, ice, m.config["snow"]["cryolayers"]["transition"]["ice"]), (2, firn, 600.0)):
                if we > 0:
                    s.ice_content[k, i, j] = we
                    s.density[k, i, j] = rho
                    s.thickness[k, i, j] = we / rho
                    s.layer_albedo[k, i, j] = m.config["snow"]["albedo"]["ice" if k == ICE else "firn"]

    def before_step(w, m, k):
        for sh in shifts.get(k, []):
            shift(m, w, sh, ctx)
        mem["before"] = totals(m)

    def after_step(w, m, k, pred):
        now = totals(m)
        where = f"at step {k} ({dates[k]})"
        if pred is None:
            # Between updates: ice only changes by melt, sublimation and the firn transition
            for p, (_, ice) in now.items():
                ctx.ok()
                if ice > mem["before"][p][1] + mem["before"][p][0] + 1e-6:
                    raise Violation("ice-created", f"pixel {p} has {ice!r} kg m-2 of ice {where}, before "
                                    f"{mem['before'][p]!r} (firn, ice)", step=k)
            return
        if k in is_start:
            ctx.probe("start")
            mem["start"] = now
        if k not in is_end:
            return
        if mem["start"] is None:
            ctx.probe("not_started")
            return
        ctx.probe("update")
        mem["n"] += 1
        ctx.probe("second_year", mem["n"] > 1)
        # What the step would have left without the update (albedo and snow cover fraction may be those
        # before or after this step's layer transitions)
        for p, (o, *_) in pred.items():
            o.pop("snow.albedo", None)
            o.pop("snow.area_fraction", None)
            if m.state.snow.num_layers[p] > 0 and not math.isfinite(m.state.snow.albedo[p]):
                raise Violation("albedo-missing", f"no albedo for the snow or ice of pixel {p} {where}", step=k)
        end = {}
        for p, (o, tie, pv, mp, cls) in pred.items():
            we = [a + b for a, b in zip(o["snow.ice_content"], o["snow.liquid_water_content"])]
            end[p] = (we[2], we[ICE])
        ids = {p: int(w.glaciers[p]) for p in pred}
        dem = {p: float(m.state.base.dem[p]) for p in pred}
        for gid in sorted(set(ids.values()) - {0}):
            pix = [p for p in pred if ids[p] == gid]
            if any(pred[p][1] for p in pix):
                for p in pix:
                    pred[p] = (pred[p][0], True, *pred[p][2:])
                continue
            new, total = redistribute(pix, mem["start"], end, dem, w.res, ctx)
            if new and total is None:  # a tie
                for p in pix:
                    pred[p] = (pred[p][0], True, *pred[p][2:])
                continue
            if new and all(x > 0 for x in new.values()):
                got = math.fsum(sum(now[p]) - sum(mem["start"][p]) for p in new)
                if abs(got - total) > 1e-6 * (1 + math.fsum(sum(now[p]) for p in new) * 1e-3):
                    raise Violation("ice-not-conserved", f"the geometry update of glacier {gid} {where} leaves a "
                                    f"mass change of {got!r} kg m-2, the surface mass balance is {total!r}",
                                    step=k)
            for p, x in new.items():
                amend(pred[p][0], x, m.config)
        ctx.probe("outside", 0 in ids.values())

    for _ in drive(spec, ctx, lambda n: n.startswith("snow."), after_step=after_step, ready=ready,
                   schedule=schedule, before_step=before_step):
        pass


def amend(o, x, cfg):
    ice, lwc, th, rho, la, cc = (o["snow." + v] for v in (
        "ice_content", "liquid_water_content", "thickness", "density", "layer_albedo", "cold_content"))
    if x > 0:
        if not ice[ICE] > 0:
            rho[ICE] = cfg["snow"]["cryolayers"]["transition"]["ice"]
            la[ICE] = cfg["snow"]["albedo"]["ice"]
        th[ICE] = x / rho[ICE]
        ice[ICE] = x
    else:
        ice[ICE] = th[ICE] = lwc[ICE] = cc[ICE] = 0.0
        rho[ICE] = la[ICE] = math.nan
    o["snow.swe"] = sum(ice) + sum(lwc)
    o["snow.depth"] = sum(th)
    o["snow.num_layers"] = sum(t > 0 for t in th)

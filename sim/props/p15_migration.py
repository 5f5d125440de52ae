"""P15: the retained state alone determines the future: process migration, transient-state loss."""

import pickle

from ..common import *  # noqa: F403
from ..common import REAL_MODEL, STUB_WORLD, ASSUME
from .. import common, proc

ID = "P15"
LEVEL = "exploration"
N = {"quick": 240, "thorough": 4000}
REAL = REAL_MODEL + ["pickle / copy.deepcopy of initialised model instances"]
STUB = STUB_WORLD + ["worker processes: forked children between seeded step boundaries"]
ASSUMPTIONS = ASSUME + ["a transient variable is one whose metadata says it is not retained"]
RULE = (
    "one evaluation = one time step whose complete ROI state was compared bit for bit between an "
    "uninterrupted run and a run whose instance was pickled, deep-copied, moved to another process "
    "or had all its transient variables wiped between the steps; distinct = (snow "
    "model, submodels, fault kind, position) classes"
)
REQUIRED_PROBES = ("pickle", "deepcopy", "migrate", "wipe", "config_reset", "snow_present",
                   "missing_data", "canopy", "evapotranspiration", "original_continues", "at_start")
KINDS = ("pickle", "deepcopy", "migrate", "wipe", "wipe", "migrate")


def warm(root):
    common.warm(root)


def gen(rng, index, tier):
    spec = gen_world(rng, rows=rng.randint(2, 5), cols=rng.randint(2, 5), steps=rng.randint(4, 24))
    spec["grid"]["forest"] = rng.chance(0.5)
    spec["faults"] = gen_sensor_faults(rng, spec, rate=0.9)
    spec["cfg"] = gen_physics_cfg(rng, spec, canopy=rng.chance(0.3), et=rng.chance(0.3))
    spec["cfg"].pop("reset_state_variables", None)
    n = spec["time"]["steps"]
    spec["mode"] = rng.pick(["moves", "moves", "config_reset"])
    kind = rng.pick(KINDS)
    every = rng.chance(0.3)
    spec["crashes"] = [{"at": k, "kind": kind if rng.chance(0.6) else rng.pick(KINDS)}
                       for k in range(n) if every or rng.chance(2.5 / n)]
    if spec["mode"] == "config_reset":
        spec["crashes"] = []
    return spec


def wipe(m):
    """Fill every variable which is not retained with its no-data value (what the metadata declares
    to be safe)."""
    for cat, name, a in state_vars(m):
        if m.state.meta(f"{cat}.{name}").retain:
            continue
        if a.dtype.kind == "f":
            a[:] = np.nan
        elif a.dtype.kind in "iu":
            a[:] = 0
        elif a.dtype.kind == "b":
            a[:] = False


def roi_snapshot(m):
    roi = m.grid.roi
    return {f"{c}.{n}": np.array(a[..., roi]) for c, n, a in state_vars(m)}


def roi_outputs(m):
    roi = m.grid.roi
    keep = [i for i, p in enumerate(m.point_output.points) if roi[p.row, p.col]]
    ds = m.point_output.data
    return {k: np.array(ds[k].values[..., keep]) for k in sorted(ds.data_vars)}


def run(spec, ctx):
    count_faults(ctx, spec)
    w, m = build(spec, ctx)
    n = len(m.dates)
    ref = []
    for k in range(n):
        m.run_single()
        account(ctx, w, spec)
        ref.append(roi_snapshot(m))
    ref_out = roi_outputs(m)
    model = m.config.snow.model
    has = (bool(m.config.canopy.enabled), bool(m.config.evapotranspiration.enabled))
    extra = {"reset_state_variables": True} if spec["mode"] == "config_reset" else None
    g = w.root / "g"
    m = new_model(w, g, w.root / "r2", extra)
    crashes = {c["at"]: c for c in spec["crashes"]}
    _drive(m, 0, n, crashes, ref, ref_out, ctx, 0)
    ctx.probe("config_reset", spec["mode"] == "config_reset")
    ctx.probe("canopy", has[0])
    ctx.probe("evapotranspiration", has[1])
    ctx.probe("missing_data", bool(spec["faults"]))
    ctx.probe("snow_present", any((r["snow.swe"] > 0).any() for r in ref))
    for c in spec["crashes"]:
        ctx.probe("at_start", c["at"] == 0)
        ctx.state(model, *has, c["kind"], min(c["at"], 5), bool(spec["faults"]))
    ctx.state(model, *has, spec["mode"], len(spec["crashes"]) > 3)
    for v in sorted(ref[-1]):
        ctx.hash_array(v, ref[-1][v])


def _drive(m, k0, n, crashes, ref, ref_out, ctx, depth):
    """Steps k0..n-1 of m with the injected events; returns nothing, raises Violation."""
    for k in range(k0, n):
        c = crashes.get(k)
        if c:
            kind = c["kind"]
            ctx.probe(kind)
            if kind == "wipe":
                ctx.fault("transient_state_lost")
                wipe(m)
            elif kind == "deepcopy":
                ctx.fault("instance_copied")
                m2 = copy.deepcopy(m)
                m.run_single()  # the original goes on; the copy must not notice
                _same(ref[k], m, k, "the original after being copied")
                ctx.probe("original_continues")
                m = m2
            elif kind == "pickle":
                ctx.fault("instance_pickled")
                m = pickle.loads(pickle.dumps(m))
            elif kind == "migrate" and depth < 3:
                ctx.fault("process_migration")
                blob = pickle.dumps(m)
                rest = dict(crashes)
                del rest[k]

                def elsewhere():
                    sub = type(ctx)(ctx.newdir("mig"))
                    m3 = pickle.loads(blob)
                    _drive(m3, k, n, rest, ref, ref_out, sub, depth + 1)
                    return sub.evaluations, sub.faults, sub.probes

                ev, fl, pr = proc.call(elsewhere)
                ctx.ok(ev)
                for a, b in fl.items():
                    ctx.fault(a, b)
                for a, b in pr.items():
                    ctx.probe(a, b)
                return
        m.run_single()
        _same(ref[k], m, k, "state")
        ctx.ok()
        ctx.event(k)
    diff_states(ref_out, roi_outputs(m), "time series after the events")


def _same(ref, m, k, what):
    diff_states(ref, roi_snapshot(m), f"step {k}: {what}", step=k)

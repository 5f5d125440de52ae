"""Shared pieces of the property modules."""

import copy
import os
from pathlib import Path

import numpy as np

from .core import HarnessError, Rng, Violation
from .world import World, gen_physics_cfg, gen_sensor_faults, gen_world, new_model, quiet

T0 = 273.15

REAL_MODEL = [
    "openamundsen.OpenAmundsen (initialize / run / run_single)",
    "configuration parsing and validation",
    "meteo interpolation, precipitation phase and correction, radiation, shadows",
    "snow models (multilayer, cryolayers), soil, surface energy balance, canopy, "
    "evapotranspiration, glaciers",
    "numba kernels (compiled from /repo's working tree into a fresh cache)",
]
STUB_WORLD = [
    "weather and station network: seeded synthetic generator (sim/world.py)",
    "terrain, land cover and soil grids: seeded synthetic generator",
    "simulated clock: the model's own date index (no wall-clock reads)",
]
ASSUME = [
    "inputs are finite or missing (NaN), inside physically possible ranges",
    "configurations are accepted by the model's own validation",
]


def warm_world(snow_model, **cfg_opt):
    rng = Rng("warm", snow_model, sorted(cfg_opt))
    spec = gen_world(rng, rows=3, cols=3, steps=6, timestep="3h", start="2020-03-31 06:00",
                     n_stations=3, roi=0.7, nan=0, svf="compute", regime="melt", relief=400.0)
    spec["grid"]["forest"] = True
    spec["cfg"] = gen_physics_cfg(Rng("warmcfg"), spec, snow_model=snow_model, canopy=True, et=True)
    return spec


def warm(root, models=("multilayer", "cryolayers")):
    """Compile the kernels once in the zygote (values are irrelevant; errors are left to the
    simulated runs, which report them with a replayable spec)."""
    quiet()
    import openamundsen  # noqa: F401

    specs = [warm_world(m) for m in models]
    for i, spec in enumerate(specs):
        d = Path(root) / f"warm{i}"
        try:
            w = World(spec, d)
            g = w.write_grids(d / "g")
            m = new_model(w, g, d / "r")
            m.run()
        except Exception as e:  # noqa: BLE001
            if os.environ.get("OASIM_DEBUG"):
                raise
            print(f"note: warm-up run failed ({type(e).__name__}: {e})")


def build(spec, ctx, extra=None, **kw):
    """World + initialised model for a world spec."""
    w = World(spec, ctx.newdir("w"))
    g = w.write_grids(w.root / "g")
    m = new_model(w, g, w.root / "r", extra, **kw)
    return w, m


def account(ctx, world, spec):
    ctx.sim_seconds += world.ts_seconds
    ctx.steps += 1


def count_faults(ctx, spec):
    for f in spec.get("faults", []):
        kind = f["kind"]
        if kind == "gap":
            kind = ("network_blackout" if f["st"] == "*" else "station_outage") if f[
                "var"
            ] == "*" else ("variable_blackout" if f["st"] == "*" else "sensor_gap")
        ctx.fault(kind, f.get("len", 1))


def nz(a):
    return np.nan_to_num(a, nan=0.0, posinf=np.inf, neginf=-np.inf)


def first_bad(mask, roi):
    """(row, col) of the first offending ROI pixel for a mask over ROI pixels."""
    rows, cols = np.nonzero(roi)
    k = int(np.flatnonzero(mask)[0])
    return int(rows[k]), int(cols[k])


def state_vars(model):
    """Yield (category, name, array) of all registered state variables (public iteration)."""
    for cat in sorted(model.state.categories):
        svc = model.state[cat]
        for name in sorted(svc.keys()):
            if isinstance(svc[name], np.ndarray):
                yield cat, name, svc[name]


def snapshot(model, only=None):
    out = {}
    for cat, name, a in state_vars(model):
        if only is None or only(cat, name):
            out[f"{cat}.{name}"] = np.array(a, copy=True)
    return out


def same(a, b):
    """Bit-for-bit equality with NaN == NaN."""
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    if a.dtype.kind == "f" and b.dtype.kind == "f":
        return bool(np.array_equal(a, b, equal_nan=True))
    return bool(np.array_equal(a, b))


def diff_states(ref, got, what, **info):
    for k in sorted(ref):
        if k not in got:
            raise Violation("state-missing", f"{what}: variable {k} is missing", **info)
        if not same(ref[k], got[k]):
            a, b = np.asarray(ref[k], float), np.asarray(got[k], float)
            if a.shape != b.shape:
                raise Violation("state-shape", f"{what}: {k} {a.shape} vs {b.shape}", **info)
            bad = ~((a == b) | (np.isnan(a) & np.isnan(b)))
            p = tuple(int(v) for v in np.argwhere(bad)[0])
            raise Violation(
                "state-differs",
                f"{what}: {k} differs at {p}: {a[p]!r} vs {b[p]!r} ({int(bad.sum())} values)",
                var=k, **info,
            )


__all__ = [n for n in dir() if not n.startswith("_")]

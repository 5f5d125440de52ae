"""P06: the run loop: run() == stepping, every date exactly once, misuse harmless, prefix property."""

import numba
import pandas as pd

from ..common import *  # noqa: F403
from ..common import REAL_MODEL, STUB_WORLD, ASSUME
from .. import common, proc
from .p05_isolation import outputs_of

ID = "P06"
LEVEL = "exploration"
N = {"quick": 240, "thorough": 4000}
REAL, STUB = REAL_MODEL, STUB_WORLD
ASSUMPTIONS = ASSUME
RULE = (
    "one evaluation = one time step of a stepped instance compared (complete state, bit for bit) with "
    "an uninterrupted run() in another process, with runs that end earlier or later, and its "
    "date/time step properties with a reference calendar; distinct = (snow model, time step, "
    "misuse operation, position) classes"
)
REQUIRED_PROBES = ("run_equals_steps", "shorter_run", "longer_run", "future_changed", "step_after_end",
                   "run_after_step", "run_twice", "year_boundary", "month_boundary", "single_step_run",
                   "failed_step_restores_threads", "reset_mode")

OPS = ("run_after_step", "second_run", "step_after_end", "failing_callback")


def warm(root):
    common.warm(root)


def gen(rng, index, tier):
    opt = {}
    if rng.chance(0.3):
        opt["start"] = rng.pick(["2019-12-31 18:00", "2020-02-28 12:00", "2020-12-31 00:00",
                                 "2020-10-31 20:00"])
    steps = rng.pick([1, 2, rng.randint(3, 12), rng.randint(3, 12), rng.randint(12, 20)])
    spec = gen_world(rng, rows=rng.randint(2, 4), cols=rng.randint(2, 4), steps=steps, nan=0,
                     timestep=rng.pick(["h", "3h", "6h", "D", "2h", "30min", "12h", "10h", "2D"]), **opt)
    if pd.Timedelta(spec["time"]["timestep"] if spec["time"]["timestep"][0].isdigit() else
                    "1" + spec["time"]["timestep"]) > pd.Timedelta("1D"):
        spec["cfg_write"] = "2D"
    spec["grid"]["forest"] = rng.chance(0.4)
    spec["faults"] = gen_sensor_faults(rng, spec, rate=0.6)
    wf = spec.pop("cfg_write", None)
    spec["cfg"] = gen_physics_cfg(rng, spec)
    if wf:
        spec["cfg"]["output_data"] = {"timeseries": {"write_freq": wf}}
    spec["extra"] = rng.randint(1, 6)
    spec["ops"] = [{"op": rng.pick(OPS), "at": rng.randrange(max(1, steps))}
                   for _ in range(rng.randint(1, 3))]
    spec["threads"] = rng.pick([1, 2, 3])
    return spec


def model_for(spec, root, steps=None, meteo=None, records=None):
    s = copy.deepcopy(spec)
    if steps:
        s["time"]["steps"] = steps
    w = World(s, root)
    g = w.write_grids(root / "g")
    if records is not None:
        meteo = w.dataset(records(w))
    return w, new_model(w, g, root / "r", meteo=meteo)


def states_of_run(spec, root, steps=None, records=None, whole=False):
    _, m = model_for(spec, root, steps, records=records)
    out = []
    if whole:
        m.run()
        return [snapshot(m)], outputs_of(m)
    for _ in range(len(m.dates)):
        m.run_single()
        out.append(snapshot(m))
    return out, outputs_of(m)


def ref_props(dates, k, ts):
    d = dates[k]
    prev, nxt = d - ts, d + ts
    r = {"first_of_run": k == 0, "last_of_run": k == len(dates) - 1}
    for unit, f in (("year", lambda t: t.year), ("month", lambda t: (t.year, t.month)),
                    ("day", lambda t: t.normalize())):
        r[f"strict_first_of_{unit}"] = f(prev) != f(d)
        r[f"strict_last_of_{unit}"] = f(nxt) != f(d)
        r[f"first_of_{unit}"] = r[f"strict_first_of_{unit}"] or r["first_of_run"]
        r[f"last_of_{unit}"] = r[f"strict_last_of_{unit}"] or r["last_of_run"]
    return r


def run(spec, ctx):
    import openamundsen as oa

    count_faults(ctx, spec)
    steps = spec["time"]["steps"]
    sp = copy.deepcopy(spec)
    sp["weather"]["n"] = max(sp["weather"]["n"], steps + 64)
    ref, ref_out = proc.call(lambda: states_of_run(sp, ctx.newdir("whole"), whole=True))
    ctx.probe("run_equals_steps")
    w, m = model_for(sp, ctx.newdir("steps"))
    ts = pd.Timedelta(seconds=w.ts_seconds)
    expect = [w.start + i * ts for i in range(steps)]
    if list(m.dates) != expect:
        raise Violation("dates", f"simulated dates {list(m.dates)[:3]}.. are not the configured ones")
    numba.set_num_threads(spec["threads"])
    hist = []
    for k in range(steps):
        for op in spec["ops"]:
            if op["at"] == k and op["op"] == "run_after_step" and k > 0:
                misuse(m, m.run, "run() after run_single()", ctx)
                ctx.probe("run_after_step")
        m.run_single()
        account(ctx, w, spec)
        if m.date != expect[k] or m.date_idx != k:
            raise Violation("dates", f"step {k} processed {m.date} instead of {expect[k]}", step=k)
        if numba.get_num_threads() != spec["threads"]:
            raise Violation("threads", f"step {k} left the numba thread count at "
                            f"{numba.get_num_threads()} instead of {spec['threads']}", step=k)
        got = m.timestep_props
        for name, val in ref_props(expect, k, ts).items():
            if bool(getattr(got, name)) != val:
                raise Violation("timestep-props", f"{m.date}: {name} is {getattr(got, name)}, "
                                f"expected {val}", step=k)
        ctx.probe("year_boundary", got.strict_first_of_year or got.strict_last_of_year)
        ctx.probe("month_boundary", got.strict_first_of_month)
        hist.append(snapshot(m))
        ctx.ok()
        ctx.event(k, str(m.date), float(np.nansum(m.state.snow.swe)))
    diff_states(ref[0], hist[-1], "run() and repeated run_single() end in different states")
    diff_states(ref_out, outputs_of(m), "run() and repeated run_single() give different time series")
    for op in spec["ops"]:
        if op["op"] in ("step_after_end", "second_run"):
            misuse(m, m.run_single, "run_single() after the end", ctx)
            ctx.probe("step_after_end")
    ctx.probe("single_step_run", steps == 1)
    ctx.probe("reset_mode", bool(m.config.reset_state_variables))
    # the past does not depend on where the run ends ...
    cut = 1 + spec["ops"][0]["at"] % steps if spec["ops"] else steps
    short, _ = proc.call(lambda: states_of_run(sp, ctx.newdir("short"), steps=cut))
    for k in range(cut):
        diff_states(hist[k], short[k], f"a run ending at step {cut - 1} differs at step {k}", step=k)
    ctx.probe("shorter_run", cut < steps)
    long_, _ = proc.call(lambda: states_of_run(sp, ctx.newdir("long"), steps=steps + spec["extra"]))
    for k in range(steps):
        diff_states(hist[k], long_[k], f"a run ending {spec['extra']} steps later differs at step {k}",
                    step=k)
    ctx.probe("longer_run")

    # ... nor on the weather of later steps
    def altered(wd):
        recs = wd.records()
        for df in recs.values():
            for c in df.columns:
                v = df[c].values.copy()
                v[cut:] = np.nan if spec["extra"] % 2 else v[cut:] * 0.98 + 0.01
                df[c] = v
        return recs

    if cut < steps:
        fut, _ = proc.call(lambda: states_of_run(sp, ctx.newdir("future"), records=altered))
        for k in range(cut):
            diff_states(hist[k], fut[k], f"weather after step {cut - 1} influences step {k}", step=k)
        ctx.probe("future_changed")
    for op in spec["ops"]:
        if op["op"] == "second_run":
            w2, m2 = model_for(sp, ctx.newdir("twice"))
            m2.run()
            misuse(m2, m2.run, "second run()", ctx)
            misuse(m2, m2.run_single, "run_single() after run()", ctx)
            diff_states(ref[0], snapshot(m2), "state after refused calls")
            ctx.probe("run_twice")
        elif op["op"] == "failing_callback":
            failing_callback(sp, ctx, op["at"])
    for a in hist[-1].values():
        ctx.hash_array("s", a)
    ctx.state(m.config.snow.model, spec["time"]["timestep"], min(steps, 4), cut == steps,
              sorted(o["op"] for o in spec["ops"]))


def misuse(m, fn, what, ctx):
    """A refused call raises and changes nothing."""
    before, date, idx = snapshot(m), m.date, m.date_idx
    outs = outputs_of(m)
    try:
        fn()
    except Exception:  # noqa: BLE001
        ctx.fault("api_misuse")
    else:
        raise Violation("misuse-accepted", f"{what} was accepted")
    if (m.date, m.date_idx) != (date, idx):
        raise Violation("misuse-moved", f"{what} moved the model date from {date} to {m.date}")
    diff_states(before, snapshot(m), f"{what} changed the state")
    diff_states(outs, outputs_of(m), f"{what} changed the time series")


def failing_callback(spec, ctx, at):
    """A step that raises half-way (user callback) leaves process settings alone and earlier outputs
    in place."""
    import openamundsen as oa

    w = World(spec, ctx.newdir("cb"))
    g = w.write_grids(w.root / "g")
    calls = []

    def cb(model):
        if model.date_idx == at:
            raise RuntimeError("injected")
        calls.append(model.date)
        r = model.grid.roi
        m = model.state.meteo
        m.temp[r], m.precip[r], m.rel_hum[r], m.wind_speed[r] = 270.0, 1.0, 70.0, 2.0
        m.cloud_factor[r] = 0.8
        m.cloud_fraction[r] = 0.5

    extra = {"input_data": {"meteo": {"format": "callback"}}, "numba_threads": 2}
    if spec["cfg"].get("snow", {}).get("model") == "x":
        return
    m = new_model(w, g, w.root / "r", extra, callback=cb)
    numba.set_num_threads(spec["threads"])
    for k in range(at):
        m.run_single()
    outs = outputs_of(m) if at else {}
    try:
        m.run_single()
    except RuntimeError:
        ctx.fault("callback_exception")
    else:
        raise Violation("exception-swallowed", "an exception of the meteo callback was swallowed")
    if numba.get_num_threads() != spec["threads"]:
        raise Violation("threads", f"a failed step left the numba thread count at "
                        f"{numba.get_num_threads()} instead of {spec['threads']}")
    if len(calls) != at:
        raise Violation("callback-calls", f"the meteo callback was called {len(calls)} times in {at} "
                        "steps")
    diff_states(outs, outputs_of(m) if at else {}, "a failed step changed the time series")
    ctx.probe("failed_step_restores_threads")

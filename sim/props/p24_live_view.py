"""P24: the live view observes the run without influencing it, and shows the current state."""

from ..common import *  # noqa: F403
from ..common import REAL_MODEL, STUB_WORLD, ASSUME
from .. import common, gui
from ..core import deep_merge
from .p05_isolation import outputs_of

ID = "P24"
LEVEL = "exploration"
N = {"quick": 240, "thorough": 4000}
REAL = REAL_MODEL + ["live view"]
STUB = STUB_WORLD + ["window system: sim/gui.py in the place of matplotlib (records what reaches the "
                     "screen; fires redraw events between and inside updates)"]
ASSUMPTIONS = ASSUME + ["images copy their data and only draw/blit makes anything visible, as in matplotlib"]
RULE = (
    "one evaluation = one displayed field after one time step compared with the model state, or one "
    "complete state / output of a run with live view compared bit for bit with the run without it; "
    "distinct = (snow model, blit, downsampling, number of fields and columns, ROI, redraws) classes"
)
REQUIRED_PROBES = ("blit", "no_blit", "downsample", "single_field", "integer_field", "static_field",
                   "partial_roi", "redraw", "two_windows", "missing_data", "shaded", "free_axes")
FIELDS = ("meteo.temp", "meteo.precip", "meteo.rel_hum", "meteo.wind_speed", "meteo.sw_in", "meteo.lw_in",
          "snow.swe", "snow.depth", "snow.albedo", "snow.melt", "snow.runoff", "surface.temp",
          "surface.albedo", "snow.area_fraction", "meteo.cloud_factor")
STATIC = ("base.dem", "base.svf", "base.slope", "base.aspect")
INTS = ("snow.num_layers", "surface.layer_type")


def warm(root):
    common.warm(root)


def gen_view(rng):
    n = rng.pick([1, 1, 2, 3, 4, 5, 6])
    fields = rng.sample(FIELDS + STATIC + INTS, n)
    return {"cols": rng.pick([1, 2, 3, 5]), "blit": rng.chance(0.5), "downsample": rng.pick([1, 1, 1, 2, 3]),
            "fields": fields}


def gen(rng, index, tier):
    spec = gen_world(rng, rows=rng.randint(1, 6), cols=rng.randint(2, 6), steps=rng.randint(2, 14),
                     roi=rng.pick([1.0, 0.7, 0.5, 0.3]), relief=rng.pick([50.0, 400.0, 1500.0]))
    spec["grid"]["forest"] = rng.chance(0.3)
    spec["faults"] = gen_sensor_faults(rng, spec, rate=0.5)
    spec["cfg"] = gen_physics_cfg(rng, spec, canopy=rng.chance(0.2), et=rng.chance(0.2))
    spec["views"] = [gen_view(rng) for _ in range(2 if rng.chance(0.3) else 1)]
    # redraws (window resized or uncovered) before and inside the update of a step
    spec["redraws"] = [[rng.randrange(spec["time"]["steps"]), rng.randrange(len(spec["views"])),
                        rng.pick(["before", "inside"])] for _ in range(rng.pick([0, 0, 1, 3]))]
    spec["order"] = [rng.randrange(2) for _ in range(2 * spec["time"]["steps"])]
    return spec


def out_cfg():
    return {"output_data": {"timeseries": {"format": "memory"},
                            "grids": {"format": "memory", "variables": [{"var": "snow.swe", "freq": "D",
                                                                         "agg": "mean"}]}}}


def view_cfg(v):
    return deep_merge(out_cfg(), {"liveview": {
        "enabled": True, "cols": v["cols"], "blit": v["blit"], "downsample": v["downsample"],
        "variables": [{"var": f, "min": -1.0 - i, "max": 5.0 * (i + 1)} for i, f in enumerate(v["fields"])]}})


def run(spec, ctx):
    count_faults(ctx, spec)
    # views may only name variables which exist: take the available ones
    w = World(spec, ctx.newdir("w"))
    g = w.write_grids(w.root / "g")
    ref = new_model(w, g, w.root / "r", out_cfg())
    roi = ref.grid.roi.copy()
    views = []
    for v in spec["views"]:
        have = [f for f in v["fields"] if f.split(".")[0] in ref.state.categories
                and f.split(".")[1] in ref.state[f.split(".")[0]].keys()]
        views.append({**v, "fields": have or ["meteo.temp"]})
    states = [snapshot(ref)]
    for _ in range(len(ref.dates)):
        ref.run_single()
        states.append(snapshot(ref))
    ref_out = outputs_of(ref)

    plt = gui.install()
    models, figs = [], []
    for i, v in enumerate(views):
        n = len(plt.figures)
        models.append(new_model(w, g, w.root / f"v{i}", view_cfg(v)))
        if len(plt.figures) != n + 1:
            raise Violation("window", f"{len(plt.figures) - n} windows were opened instead of one")
        figs.append(plt.figures[-1])
        diff_states(states[0], snapshot(models[-1]), "initial state with live view", step=-1)
    redraw = {}
    for k, i, where in spec["redraws"]:
        redraw.setdefault((k, min(i, len(models) - 1)), []).append(where)
    todo = list(spec["order"])
    done = [0] * len(models)
    while any(d < len(ref.dates) for d in done):
        i = (todo.pop(0) if todo else 0) % len(models)
        if done[i] >= len(ref.dates):
            i = next(j for j, d in enumerate(done) if d < len(ref.dates))
        m, f, k = models[i], figs[i], done[i]
        for where in redraw.get((k, i), ()):
            if where == "before":
                f.canvas.draw()
                ctx.fault("redraw")
                ctx.probe("redraw")
        inside = "inside" in redraw.get((k, i), ())
        if inside:
            ctx.fault("redraw")
            ctx.probe("redraw")
        f.events = f.canvas.draw if inside else (lambda: None)
        m.run_single()
        done[i] += 1
        account(ctx, w, spec)
        diff_states(states[k + 1], snapshot(m), f"step {k} ({m.date}) with and without live view", step=k)
        ctx.ok()
        check_screen(ctx, views[i], f, m, roi, k)
        ctx.event(i, k, len(f.screen))
    for i, m in enumerate(models):
        got = outputs_of(m)
        bad = [n for n in sorted(set(got) | set(ref_out))
               if n not in got or n not in ref_out or not same(got[n], ref_out[n])]
        if bad:
            raise Violation("outputs", f"outputs with and without live view differ: {bad[:5]}")
        if figs[i].closed:
            raise Violation("window", "the window was closed during the run")
        ctx.ok()
    for k in sorted(states[-1]):
        ctx.hash_array(k, states[-1][k])
    for v in views:
        ctx.probe("blit", v["blit"])
        ctx.probe("no_blit", not v["blit"])
        ctx.probe("downsample", v["downsample"] > 1)
        ctx.probe("single_field", len(v["fields"]) == 1 and v["cols"] == 1)
        ctx.probe("integer_field", any(f in INTS for f in v["fields"]))
        ctx.probe("static_field", any(f in STATIC for f in v["fields"]))
        ctx.probe("free_axes", len(v["fields"]) % v["cols"] != 0)
        ctx.probe("shaded", "base.dem" in v["fields"] and not roi.all())
        ctx.state(spec["cfg"]["snow"]["model"], v["blit"], v["downsample"], len(v["fields"]), v["cols"],
                  roi.all(), len(spec["redraws"]))
    ctx.probe("partial_roi", not roi.all())
    ctx.probe("two_windows", len(models) > 1)
    ctx.probe("missing_data", bool(spec["faults"]))


def check_screen(ctx, v, fig, m, roi, k):
    shown = fig.shown()
    if len(shown) != len(v["fields"]):
        raise Violation("fields", f"step {k}: {len(shown)} fields are shown instead of {v['fields']}", step=k)
    d = v["downsample"]
    for i, (name, (title, limits, img)) in enumerate(zip(v["fields"], shown)):
        cat, var = name.split(".")
        want = np.where(roi, np.array(m.state[cat][var], dtype=float), np.nan)
        if img is None or not (same(img, want[::d]) or same(img, want[::d, ::d])):
            raise Violation("stale-view", f"step {k} ({m.date}): the live view shows "
                            f"{None if img is None else img.tolist()} for {name} instead of "
                            f"{want[::d].tolist()}", step=k, var=name)
        if limits != (-1.0 - i, 5.0 * (i + 1)):
            raise Violation("limits", f"step {k}: {name} is shown with limits {limits}", step=k)
        meta = m.state.meta(name)
        labels = [s for s in (meta.long_name, meta.standard_name, var) if s]
        if not any(s in title for s in labels):
            raise Violation("label", f"step {k}: {name} is labelled {title!r}", step=k)
        ctx.ok()
    date = f"{m.date:%Y-%m-%d %H:%M}"
    if not any(t and date in t for t in fig.shown_texts()):
        raise Violation("date", f"step {k}: the live view shows {fig.shown_texts()} instead of {date}", step=k)
    ctx.ok()

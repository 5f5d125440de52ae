"""P13: inputs are read completely, or the run does not start."""

import errno

from ..common import *  # noqa: F403
from ..common import REAL_MODEL, STUB_WORLD, ASSUME
from .. import common, proc
from ..fsfault import NAMES, RDERR, RDOPEN, RDSHORT, Seam

ID = "P13"
PRELOAD = True
LEVEL = "exploration"
N = {"quick": 110, "thorough": 3000}
REAL = REAL_MODEL + ["raster and station file readers, GDAL, HDF5, pandas, real files"]
STUB = STUB_WORLD + ["reads and read-only opens below the input directory: preloaded seam (sim/shim.c); "
                     "damaged input files (torn copies, wrong files)"]
ASSUMPTIONS = ASSUME + [
    "a station CSV file cut at a record boundary is a legitimate shorter file, and a file cut inside a "
    "number cannot be told from a complete one: such cuts are not injected",
    "read errors (EIO) are injected in station files only: GDAL's ASCII grid reader loops for ever on "
    "them; grids get open errors, short reads and torn or wrong files instead",
]
RULE = (
    "one evaluation = one initialisation under a fault: it raises, or the complete model state after "
    "the run is bit-identical with that of the undisturbed run; afterwards a new run in the same process "
    "(or, for damaged files, after restoring them) is bit-identical, too; distinct = (meteo format, "
    "fault kind, file hit, outcome) classes"
)
REQUIRED_PROBES = ("raised", "tolerated", "read_error", "short_read", "open_error", "truncate", "empty",
                   "missing", "shift", "shape", "resolution", "grid_hit", "meteo_hit", "retry",
                   "memory_equal", "extended", "extended_hit", "netcdf", "csv")
GRIDS = ("dem", "roi", "svf", "lc", "soil", "glaciers", "srf", "extended-dem", "extended-svf")


def warm(root):
    common.warm(root)


def gen(rng, index, tier):
    spec = gen_world(rng, rows=rng.randint(2, 5), cols=rng.randint(2, 5), steps=rng.randint(1, 4))
    spec["grid"]["forest"] = rng.chance(0.5)
    spec["cfg"] = gen_physics_cfg(rng, spec, canopy=rng.chance(0.4), et=rng.chance(0.4))
    if rng.chance(0.3):
        spec["grid"]["ext"] = rng.randint(1, 3)
    spec["meteo"] = rng.pick(["netcdf", "netcdf", "csv"])
    spec["io_faults"] = []
    for _ in range(rng.randint(3, 7)):
        r = rng.random()
        if r < 0.3:
            f = {"kind": "read_error", "at": rng.random()}
        elif r < 0.45:
            f = {"kind": "short_read", "at": rng.random(), "arg": rng.pick([1, 30, 60, 99])}
        elif r < 0.6:
            f = {"kind": "open_error", "at": rng.random(),
                 "arg": rng.pick([errno.EIO, errno.EACCES, errno.EMFILE])}
        else:
            f = {"kind": rng.pick(["truncate", "truncate", "empty", "missing", "shift", "shape",
                                   "resolution"]), "file": rng.random(), "at": rng.random()}
            if "ext" in spec["grid"] and rng.chance(0.5):
                f["ext"] = 1
        spec["io_faults"].append(f)
    return spec


# ---------------------------------------------------------------- damage


def kind_of(path):
    return path.name.split("_sim_")[0]


def damage(path, f, ext=0):
    """Damage a file; returns (undo, what) or None if this damage is not a defect of the input."""
    orig = path.read_bytes()
    k = f["kind"]
    new = None
    if path.suffix == ".asc":
        grid = kind_of(path)
        head, body = orig.split(b"\n")[:6], orig.split(b"\n")[6:]
        tokens = [len(r.split()) for r in body if r.strip()]
        if k == "truncate":
            text = b"\n".join(head) + b"\n"
            vals = b" ".join(b"\n".join(body).split()).split(b" ")
            keep = int(f["at"] * len(vals))
            out, i = [], 0
            for n in tokens:
                out.append(b" ".join(vals[i : min(i + n, keep)]))
                i += n
                if i >= keep:
                    break
            new = text + b"\n".join(out)
        elif k == "empty":
            new = b""
        elif k == "missing":
            if grid not in ("dem", "lc", "soil", "glaciers"):
                return None
        elif k in ("shift", "shape", "resolution"):
            if grid == "dem" and k != "resolution":
                return None
            h = [x.split() for x in head]
            cell = float(next(v for n, v in h if n.lower() == b"cellsize"))
            for e in h:
                name = e[0].lower().decode()
                if k == "shift" and name in ("xllcorner", "yllcorner") and f["at"] < (
                        0.6 if name == "xllcorner" else 1) and (name == "xllcorner" or f["at"] >= 0.4):
                    # an extended DEM may lie anywhere as long as it is aligned and covers the grid
                    frac = (0.5 if f["at"] < 0.5 else ext + 1) if grid == "extended-dem" else 1
                    e[1] = repr(float(e[1]) + frac * cell).encode()
                if k == "resolution" and name == "cellsize":
                    e[1] = repr(cell * 2).encode()
                if k == "shape" and name == "nrows":
                    if grid == "extended-dem":
                        return None
                    e[1] = str(int(e[1]) + 1).encode()
            if k == "shape":
                body = [body[0], *body]
            new = b"\n".join(b" ".join(e) for e in h) + b"\n" + b"\n".join(body)
    elif path.suffix == ".nc":
        if k == "truncate":
            new = orig[: int(f["at"] * len(orig))]
        elif k == "empty":
            new = b""
        else:
            return None
    else:
        if k == "empty":
            new = b""
        elif k != "missing":
            return None
    if new is None:
        path.unlink()
    else:
        path.write_bytes(new)
    return lambda: path.write_bytes(orig)


# ---------------------------------------------------------------- run


def run(spec, ctx):
    w = World(spec, ctx.newdir("w"))
    count_faults(ctx, spec)
    src = w.root / "in"
    g = w.write_grids(src / "g")
    recs = w.records()
    (w.write_netcdf if spec["meteo"] == "netcdf" else w.write_csv)(src / "m", recs)
    ext = bool(spec["grid"].get("ext"))
    files = sorted(p for p in src.rglob("*") if p.is_file())
    extra = {"input_data": {"meteo": {"format": spec["meteo"], "dir": str(src / "m"),
                                      "bounds": "global"}}}
    import openamundsen as oa

    def go(tag, grids=g):
        m = oa.OpenAmundsen(w.config(grids, w.root / f"r{tag}", extra))
        m.initialize()
        m.run()
        return snapshot(m)

    seam = Seam()

    def reference():
        a = go("ref")
        if spec["meteo"] == "netcdf":
            m = new_model(w, g, w.root / "rmem", meteo=w.dataset(recs))
            m.run()
            diff_states(a, snapshot(m), "the same records from memory and from NetCDF files")
        return a

    # the first run may create the sky view factor cache; faults are counted on the cached tree
    proc.call(lambda: go("first") and None)
    files = sorted(p for p in src.rglob("*") if p.is_file())
    ref = proc.call(reference, lambda: seam.arm(src))
    half = 2 if spec["meteo"] == "netcdf" else 1
    ctx.probe("memory_equal", spec["meteo"] == "netcdf")
    ctx.probe(spec["meteo"])
    ctx.probe("extended", ext)
    ctx.ok()
    for k in sorted(ref):
        ctx.hash_array(k, ref[k])
    for i, f in enumerate(spec["io_faults"]):
        s = Seam()
        undo = None
        hit = None
        if f["kind"] in ("read_error", "short_read", "open_error"):
            total = seam.ropens if f["kind"] == "open_error" else seam.reads
            nth = int(f["at"] * max(1, total / (1.4 if half == 2 else 1)))
            mode = {"read_error": RDERR, "short_read": RDSHORT, "open_error": RDOPEN}[f["kind"]]
            what = f"fault {i} ({f['kind']} at {nth} of {total})"
            pre = lambda: s.arm(src, mode, nth, f.get("arg", 50))  # noqa: E731
        else:
            cand = [p for p in files if kind_of(p) in GRIDS or p.suffix in (".nc", ".csv")]
            if f.get("ext"):
                cand = [p for p in cand if kind_of(p).startswith("extended")] or cand
            path = cand[int(f["file"] * len(cand))]
            if ext and kind_of(path) in ("dem", "svf"):
                continue  # not read (completely) if there is an extended DEM
            undo = damage(path, f, int(spec["grid"].get("ext", 0)))
            if undo is None:
                continue
            hit = path.name
            what = f"damaged input {i} ({f['kind']} {hit})"
            pre = None

        def body():
            try:
                got = go(f"v{i}")
                err = None
            except Exception as e:  # noqa: BLE001
                err, got = f"{type(e).__name__}: {e}"[:200], None
            if undo:
                if err is None:
                    raise Violation("input-accepted", f"{what}: no error was raised")
                undo()
            else:
                s.disarm()
                if err is None:
                    diff_states(ref, got, f"{what} on {s.path} (no error was raised)")
            # the fault is gone
            diff_states(ref, go(f"a{i}"), f"{what} on {hit or s.path}: new run after the fault")
            return err

        try:
            err = proc.call(body, pre)
        except proc.Died as d:
            raise Violation("died", f"{what}: the process died ({d})") from None
        finally:
            if undo:
                undo()
        ctx.ok(2)
        ctx.probe("retry")
        if undo or s.fired:
            hit = hit or os.path.basename(s.path)
            ctx.fault(f["kind"], max(1, s.fired))
            ctx.probe(f["kind"])
            ctx.probe("raised" if err else "tolerated")
            ctx.probe("grid_hit", hit.endswith(".asc"))
            ctx.probe("extended_hit", hit.startswith("extended"))
            ctx.probe("meteo_hit", not hit.endswith(".asc"))
        ctx.state(spec["meteo"], f["kind"], (hit or "").split("_")[0], bool(err))
        ctx.event(i, f["kind"], hit, bool(err))
    ctx.steps += spec["time"]["steps"]
    ctx.sim_seconds += spec["time"]["steps"] * w.ts_seconds

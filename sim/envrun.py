"""One simulated execution under a controlled environment (P26); also the entry point of executions
in a new interpreter: python -m sim.envrun JOB.json"""

import ctypes
import gc
import json
import logging
import os
import pickle
import random
import sys
import time
from pathlib import Path

import numpy as np


LITTER = ("README.txt", "notes.md", ".hidden", "thumbs.db", "st0.csv~", "st0.nc.bak", "dem_sim.txt")


class Environment:
    """Everything around the run that must not matter, from a JSON description."""

    def __init__(self, env, root):
        self.env, self.root = env, Path(root)

    def enter(self, inputs, results):
        e = self.env
        if "tz" in e:
            os.environ["TZ"] = e["tz"]
            time.tzset()
        if "umask" in e:
            os.umask(e["umask"])
        if "dirorder" in e:
            shuffle_directories(e["dirorder"])
        if "gc" in e:
            if e["gc"] == "off":
                gc.disable()
            elif e["gc"] == "eager":
                gc.set_threshold(50, 2, 2)
        if "random" in e:
            random.seed(e["random"])
            np.random.seed(e["random"] % 2**32)
        if "litter" in e:
            results.mkdir(parents=True, exist_ok=True)
            for d in [results, *[p for p in inputs.rglob("*") if p.is_dir()]]:
                for name in LITTER:
                    (d / name).write_text("unrelated\n")
                (d / "old.d").mkdir(exist_ok=True)
        if "mtime" in e:
            for p in inputs.rglob("*"):
                os.utime(p, (e["mtime"], e["mtime"]))
        sys.stdout.flush()
        sys.stderr.flush()
        full = os.open("/dev/full" if e.get("streams") == "full" else "/dev/null", os.O_WRONLY)
        os.dup2(full, 1)
        os.dup2(full, 2)
        os.close(full)
        if e.get("streams") == "closed":
            sys.stderr = sys.stdout = None
        if "clock" in e:
            c = e["clock"]
            f = ctypes.CDLL(None).oasim_clock
            f.argtypes = [ctypes.c_longlong, ctypes.c_longlong, ctypes.c_long, ctypes.c_longlong]
            f(c["start"] * 10**9, c["step"] * 10**6, c["every"], c["by"] * 10**9)
        self.step(-1)

    def step(self, k):
        e = self.env
        if "cwd" in e:
            d = self.root / f"cwd{(k + e['cwd']) % 3}"
            d.mkdir(exist_ok=True)
            os.chdir(d)
        if "random" in e:
            random.random()
            np.random.random(1 + k % 3)
        if e.get("gc") == "steps":
            gc.collect()


def shuffle_directories(seed):
    """Directory listings in an order of our own choice (file systems guarantee none)."""
    rng = random.Random(seed)
    real_list, real_scan = os.listdir, os.scandir

    def listdir(*a):
        out = sorted(real_list(*a))
        rng.shuffle(out)
        return out

    class Scan:
        def __init__(self, *a):
            with real_scan(*a) as it:
                self.e = sorted(it, key=lambda x: x.name)
            rng.shuffle(self.e)
            self.it = iter(self.e)

        def __iter__(self):
            return self.it

        def __next__(self):
            return next(self.it)

        def __enter__(self):
            return self

        def __exit__(self, *a):
            pass

        def close(self):
            pass

    os.listdir, os.scandir = listdir, Scan
    import glob
    import pathlib

    for mod in (glob, pathlib):
        for n, v in list(vars(mod).items()):
            if v is real_list:
                setattr(mod, n, listdir)
            elif v is real_scan:
                setattr(mod, n, Scan)
    for cls in ("_NormalAccessor", "Path", "_Globber"):
        c = getattr(pathlib, cls, None)
        for n, v in list(vars(c).items()) if c else ():
            f = getattr(v, "__func__", v)
            if f is real_list or f is real_scan:
                setattr(c, n, staticmethod(listdir if f is real_list else Scan))


def files_of(results):
    """Comparable contents of all output files."""
    import xarray as xr

    out = {}
    for p in sorted(Path(results).rglob("*")):
        if not p.is_file() or p.name in LITTER:
            continue
        if p.suffix != ".nc":
            out[f"file:{p.name}"] = np.frombuffer(p.read_bytes(), np.uint8)
            continue
        with xr.open_dataset(p, decode_cf=False) as ds:
            ds.load()
            out[f"{p.name}:dims"] = np.array(str(dict(ds.sizes)))
            out[f"{p.name}:attrs"] = np.array(str(sorted((k, str(v)) for k, v in ds.attrs.items())))
            for v in map(str, ds.variables):
                a = ds[v]
                out[f"{p.name}:{v}"] = np.array(a.values)
                out[f"{p.name}:{v}:attrs"] = np.array(
                    str((a.dims, sorted((k, str(x)) for k, x in a.attrs.items()))))
    return out


def observe(job):
    """Run one instance; (states per step, outputs)."""
    from .common import snapshot
    from .world import World

    import openamundsen as oa

    spec, env = job["spec"], job["env"]
    root = Path(job["root"])
    inputs, results = root / "in", root / job["results"]
    w = World(spec, root)
    if job.get("relative"):
        os.chdir(root)
    e = Environment(env, root)
    e.enter(inputs, results)
    rel = Path(os.path.relpath(inputs, root)) if job.get("relative") else inputs
    meteo = {"format": spec["meteo"]}
    if spec["meteo"] != "memory":
        meteo.update(dir=str(rel / "m"), bounds="global")
        if spec["meteo"] == "csv":
            meteo["crs"] = w.crs
    extra = {"output_data": spec["out"], "input_data": {"meteo": meteo}}
    cfg = w.config(rel / "g", job["results"] if job.get("relative") else results, extra)
    if env.get("log"):
        logging.getLogger("openamundsen").setLevel(logging.NOTSET)
        cfg["enable_default_logging"], cfg["log_level"] = True, env["log"]
    m = oa.OpenAmundsen(oa.Configuration.fromDict(cfg))
    if spec["meteo"] == "memory":
        m.initialize(meteo=w.dataset())
    else:
        m.initialize()
    states = [snapshot(m)]
    if spec["whole"]:
        m.run()
        states.append(snapshot(m))
    else:
        for k in range(len(m.dates)):
            e.step(k)
            m.run_single()
            states.append(snapshot(m))
    out = files_of(results)
    for pre, ds in (("ts", m.point_output.data), ("grid", getattr(m.gridded_output, "data", None))):
        if ds is not None and hasattr(ds, "data_vars"):
            for v in sorted(map(str, list(ds.data_vars) + list(ds.coords))):
                out[f"{pre}:{v}"] = np.array(ds[v].values)
    reads = ctypes.CDLL(None).oasim_clock_reads() if "clock" in env else 0
    return states, out, int(reads)


def main(path):
    job = json.loads(Path(path).read_text())
    from .world import quiet

    quiet()
    try:
        res = ("ok", observe(job))
    except Exception as e:  # noqa: BLE001
        import traceback

        res = ("raise", type(e).__name__, str(e)[:300], traceback.format_exc()[-2500:])
    Path(job["out"]).write_bytes(pickle.dumps(res, protocol=4))
    os._exit(0)


if __name__ == "__main__":
    main(sys.argv[1])

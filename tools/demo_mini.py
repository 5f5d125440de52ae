"""Tiny self-contained world for demonstrations (no dependency on the verification framework)."""

import logging
import tempfile
import warnings
from pathlib import Path

import numpy as np
import pandas as pd

warnings.simplefilter("ignore")
np.seterr(all="ignore")
import openamundsen as oa  # noqa: E402
from openamundsen import forcing  # noqa: E402

logging.getLogger("openamundsen").setLevel(logging.CRITICAL)
X0, Y0 = 640000.0, 5190000.0


def asc(path, a, res):
    a = np.where(np.isfinite(a), a, -9999) if a.dtype.kind == "f" else a
    head = f"ncols {a.shape[1]}\nnrows {a.shape[0]}\nxllcorner {X0}\nyllcorner {Y0}\n" \
           f"cellsize {res}\nNODATA_value -9999\n"
    Path(path).write_text(head + "\n".join(" ".join(str(v) for v in r) for r in a) + "\n")


def merge(a, b):
    for k, v in b.items():
        if isinstance(v, dict) and isinstance(a.get(k), dict):
            merge(a[k], v)
        else:
            a[k] = v
    return a


def station(df, sid="s0", fx=0.5, fy=0.5, alt=2000.0, shape=(3, 3), res=100):
    import pyproj

    tr = pyproj.Transformer.from_crs("epsg:32632", "epsg:4326", always_xy=True)
    lon, lat = tr.transform(X0 + fx * shape[1] * res, Y0 + fy * shape[0] * res)
    return forcing.make_point_dataset(df, point_id=sid, name=sid, lon=lon, lat=lat, alt=alt)


def weather(dates, temp=270.0, precip=0.0, rel_hum=70.0, wind_speed=2.0, sw_in=200.0):
    n = len(dates)
    return pd.DataFrame(
        {k: np.broadcast_to(np.asarray(v, float), n).copy() for k, v in
         dict(temp=temp, precip=precip, rel_hum=rel_hum, wind_speed=wind_speed,
              sw_in=sw_in).items()},
        index=pd.DatetimeIndex(dates, name="time"))


def make(cfg=None, start="2020-02-01", steps=24, timestep="h", shape=(3, 3), res=100, dem=None,
         roi=None, svf=True, grids=None, meteo=None, root=None, domain="d"):
    """(model, dates, root): an initialised model in a scratch directory."""
    root = Path(root or tempfile.mkdtemp(prefix="demo-"))
    g = root / "grids"
    g.mkdir(parents=True, exist_ok=True)
    dates = pd.date_range(start, periods=steps, freq=timestep)
    dem = 2000.0 + 10 * np.arange(shape[0] * shape[1], dtype=float).reshape(shape) if dem is None \
        else dem
    asc(g / f"dem_{domain}_{res}.asc", dem, res)
    if roi is not None:
        asc(g / f"roi_{domain}_{res}.asc", roi.astype(int), res)
    if svf:
        asc(g / f"svf_{domain}_{res}.asc", np.full(shape, 0.9), res)
    for k, a in (grids or {}).items():
        asc(g / f"{k}_{domain}_{res}.asc", a, res)
    base = {
        "domain": domain, "start_date": str(dates[0]), "end_date": str(dates[-1]),
        "resolution": res, "timestep": timestep, "crs": "epsg:32632", "timezone": 1,
        "results_dir": str(root / "results"), "enable_default_logging": False,
        "input_data": {"grids": {"dir": str(g)}, "meteo": {"format": "memory"}},
        "output_data": {"timeseries": {"format": "memory"}, "grids": {"format": "memory"}},
    }
    c = oa.Configuration.fromDict(merge(base, cfg or {}))
    m = oa.OpenAmundsen(c)
    if meteo is None:
        meteo = forcing.combine_point_datasets([station(weather(dates), shape=shape, res=res)])
    if c["input_data"]["meteo"]["format"] == "memory":
        m.initialize(meteo=meteo)
    else:
        m.initialize()
    return m, dates, root


def fail(msg):
    print("FAILED:", msg)
    raise SystemExit(1)

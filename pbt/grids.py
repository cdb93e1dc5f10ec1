"""Small spatial forcing datasets."""
import math

from hypothesis import strategies as st

from pbt import common, runs


@st.composite
def domain(draw, nmax=3, nmin_x=1):
    ny, nx = draw(st.integers(1, nmax)), draw(st.integers(nmin_x, nmax))
    mask = [[draw(st.sampled_from([1, 1, 0])) for _ in range(nx)] for _ in range(ny)]
    if not any(v for r in mask for v in r):
        mask[draw(st.integers(0, ny - 1))][draw(st.integers(0, nx - 1))] = 1
    return {"ny": ny, "nx": nx, "mask": mask, "lat0": draw(st.sampled_from([30.0, -12.5, 71.0])), "lon0": draw(st.sampled_from([90.0, -70.0, 10.0]))}


def cell(steps, y, x):
    """The weather of one cell: every cell differs from every other."""
    out = []
    for s in steps:
        s = dict(s)
        s["T2"] += 0.7 * y - 0.45 * x
        s["RH2"] = max(5.0, s["RH2"] - 1.3 * y - 0.7 * x)
        s["G"] *= 1 - 0.05 * y - 0.02 * x
        s["PRES"] -= 6 * y + 2.5 * x
        s["RRR"] *= 1 + 0.2 * y + 0.1 * x
        s["LWin"] = s["LWin"] * (1 - 0.01 * y + 0.005 * x)
        s["U2"] = s["U2"] + 0.1 * y + 0.03 * x
        s["N"] = min(1.0, s["N"] * (1 - 0.1 * y))
        out.append(s)
    return out


def dataset(steps, dom, names=("T2", "RH2", "U2", "G", "PRES", "RRR", "LWin"), start="2009-01-01T06:00", dt=3600, slope=True,
            fill=math.nan):
    """Forcing of a whole domain; cells outside the mask hold `fill` (None: valid data too)."""
    import numpy as np
    import pandas as pd
    import xarray as xr
    ny, nx = dom["ny"], dom["nx"]
    time = pd.date_range(start, periods=len(steps), freq=pd.Timedelta(seconds=dt))
    ds = xr.Dataset(coords={"time": time, "lat": dom["lat0"] + 0.01 * np.arange(ny), "lon": dom["lon0"] + 0.01 * np.arange(nx)})
    mask = np.array(dom["mask"], dtype=float)
    for n in names:
        a = np.zeros((len(steps), ny, nx))
        for y in range(ny):
            for x in range(nx):
                if mask[y, x] == 1 or fill is None:
                    a[:, y, x] = [s[n] for s in cell(steps, y, x)]
                else:
                    a[:, y, x] = fill
        ds[n] = (("time", "lat", "lon"), a)
    yy, xx = np.meshgrid(np.arange(ny), np.arange(nx), indexing="ij")
    ds["MASK"] = (("lat", "lon"), mask)
    ds["HGT"] = (("lat", "lon"), 5000.0 + 37.0 * yy + 11.0 * xx)
    if slope:
        ds["SLOPE"] = (("lat", "lon"), 5.0 * yy + 2.0 * xx)
        ds["ASPECT"] = (("lat", "lon"), 20.0 * yy + 7.0 * xx)
    return ds

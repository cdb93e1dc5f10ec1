"""Single-point model runs on generated forcing."""
import math

from hypothesis import strategies as st

from pbt import common

OUT = ["indY", "indX", "RESTART", "RAIN", "SNOWFALL", "LWin", "LWout", "H", "LE", "B", "QRR", "MB", "surfMB", "Q", "SNOWHEIGHT",
       "TOTALHEIGHT", "TS", "ALBEDO", "LAYERS", "ME", "intMB", "EVAPORATION", "SUBLIMATION", "CONDENSATION", "DEPOSITION",
       "REFREEZE", "subM", "Z0", "surfM", "new_snow_height", "new_snow_timestamp", "old_snow_timestamp", "MOL", "LAYER_HEIGHT",
       "LAYER_RHO", "LAYER_T", "LAYER_LWC", "LAYER_CC", "LAYER_POROSITY", "LAYER_ICE_FRACTION", "LAYER_IRREDUCIBLE_WATER",
       "LAYER_REFREEZE", "stake_names", "stat", "df"]
SERIES = OUT[3:33]
FIELDS = OUT[33:42]


@st.composite
def segment(draw, nmax=12):
    """A stretch of weather: n steps around the same conditions."""
    n = draw(st.integers(1, nmax))
    t = draw(st.one_of(common.fl(248.0, 290.0), common.fl(268.0, 280.0), common.fl(250, 270)))
    g = draw(st.sampled_from([0.0, 1.0])) * draw(common.fl(0.0, 1100.0))
    wet = draw(st.sampled_from(["dry", "dry", "light", "heavy"]))
    rrr = {"dry": 0.0, "light": draw(common.fl(0.0, 1.0)), "heavy": draw(common.fl(0.5, 15.0))}[wet]
    return [n, t, draw(common.fl(15.0, 100.0)), draw(st.one_of(common.fl(0.5, 8.0), common.fl(0.0, 25.0))), g,
            draw(common.fl(500.0, 1000.0)), rrr, draw(common.fl(0.0, 1.0))]


def forcing(max_segments=6, nmax=12, min_segments=1):
    return st.lists(segment(nmax), min_size=min_segments, max_size=max_segments)


def expand(segments, wiggle=True):
    """-> list of dicts, one per step"""
    out = []
    for n, t, rh, u, g, p, rrr, cl in segments:
        for k in range(n):
            w = math.sin(0.7 * len(out) + 0.3 * k) if wiggle else 0.0
            t2 = t + 1.5 * w
            eps = 0.68 + 0.3 * cl
            out.append(dict(T2=t2, RH2=min(100.0, max(5.0, rh + 5 * w)), U2=round(max(0.0, u * (1 + 0.2 * w)), 3),
                            G=max(0.0, g * (1 + 0.1 * w)), PRES=p + 2 * w, RRR=rrr * (1 + 0.3 * w), N=cl,
                            LWin=min(400.0, max(140.0, eps * 5.67e-8 * t2 ** 4))))
    return out


def dataset(steps, names=("T2", "RH2", "U2", "G", "PRES", "RRR", "LWin"), slope=None, start="2009-01-01T06:00", dt=3600,
            snowheight=None, extra=None):
    """A single-point forcing dataset as the model driver passes it on."""
    import numpy as np
    import pandas as pd
    import xarray as xr
    time = pd.date_range(start, periods=len(steps), freq=pd.Timedelta(seconds=dt))
    ds = xr.Dataset(coords={"time": time, "lat": 30.47, "lon": 90.64})
    for n in names:
        ds[n] = ("time", np.array([float(s[n]) for s in steps]))
    ds["HGT"] = 5665.0
    ds["MASK"] = 1.0
    if slope is not None:
        ds["SLOPE"] = float(slope)
    if snowheight is not None:
        ds["SNOWHEIGHT"] = float(snowheight)
    for k, v in (extra or {}).items():
        ds[k] = v
    return ds


def restart_dataset(col, fresh, c, max_layers=200, coupled=False):
    """The stored layer state of one grid point, as a restart file holds it."""
    import numpy as np
    import xarray as xr
    n = len(col)

    def pad(v):
        a = np.full(max_layers, np.nan)
        a[:n] = v
        return ("layer", a)
    ds = xr.Dataset(coords={"layer": np.arange(max_layers)})
    ds["NLAYERS"] = float(n)
    names = ("new_snow_height", "new_snow_timestamp", "old_snow_timestamp") if coupled else (
        "NEWSNOWHEIGHT", "NEWSNOWTIMESTAMP", "OLDSNOWTIMESTAMP")
    for k, v in zip(names, fresh):
        ds[k] = float(v)
    ds["LAYER_HEIGHT"] = pad([x[0] for x in col])
    ds["LAYER_RHO"] = pad([common.density(x, c) for x in col])
    ds["LAYER_T"] = pad([x[1] for x in col])
    ds["LAYER_LWC"] = pad([x[2] for x in col])
    ds["LAYER_IF"] = pad([x[3] for x in col])
    return ds


def run(ds, restart=None, **kw):
    """-> dict of outputs"""
    import numpy as np
    from cosipy.cpkernel.cosipy_core import cosipy_core
    res = cosipy_core(ds.copy(deep=True), 3, 5, GRID_RESTART=restart, **kw)
    out = dict(zip(OUT, res))
    assert len(res) == len(OUT)
    for k in SERIES:
        out[k] = np.asarray(out[k], dtype=float)
    return out


def restart_of(out):
    """The restart dataset of a finished run, the way it is handed to a later one."""
    import numpy as np
    ds = out["RESTART"]
    return ds.isel({d: 0 for d in ds.dims if d != "layer"}, missing_dims="ignore") if False else ds


@st.composite
def start_column(draw):
    """Snow (possibly none, possibly wet) over a few metres of ice."""
    ns = draw(st.integers(0, 6))
    snow = [draw(common.layer("snow", True, 0.01, 0.5, 240.0)) for _ in range(ns)]
    for x in snow:
        x[2] = min(x[2], 0.05)
        x[3] = min(0.85, max(0.06, x[3]))
    ice = [[draw(common.height(0.3, 1.0)), draw(common.temp(250.0)), 0.0, 1.0] for _ in range(draw(st.integers(6, 9)))]
    ice[-1][0] += 2.0
    return snow + ice

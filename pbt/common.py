"""Shared generators and adapters.  Import cosipy lazily: the command line and
the working directory have to be in place first."""
import math
import os
import tomllib

from hypothesis import strategies as st

TM = 273.16


def consts():
    """The constants of this process, read from the variant's own file."""
    with open(os.path.join(os.getcwd(), "constants.toml"), "rb") as f:
        doc = tomllib.load(f)
    out = {}
    for t in doc.values():
        out.update(t)
    return out


def fl(lo, hi):
    return st.floats(lo, hi, allow_nan=False, allow_infinity=False, width=64)


def logfl(lo, hi):
    a, b = math.log(lo), math.log(hi)
    return fl(0.0, 1.0).map(lambda u: min(hi, max(lo, math.exp(a + (b - a) * u))))


def snow_icf():
    return st.one_of(fl(0.1, 0.6), fl(0.05, 0.9), st.sampled_from([0.23, 0.2299, 0.2301, 0.812, 0.8119, 0.8121, 0.3]))


def near_threshold_icf(thr=900.0, rho_i=917.0, rho_a=1.1):
    phi = (thr - rho_a) / (rho_i - rho_a)
    return st.sampled_from([phi - 1e-9, phi + 1e-9, phi - 0.01, phi + 0.005, phi - 1e-4])


def ice_icf():
    return st.one_of(st.just(1.0), fl(0.985, 1.0))


def temp(lo=223.0):
    return st.one_of(fl(lo, TM), fl(268.0, TM), st.just(TM), st.just(273.0))


def height(lo=0.002, hi=1.0):
    return logfl(lo, hi)


@st.composite
def layer(draw, kind="any", wet=True, hlo=0.002, hhi=1.0, tlo=223.0):
    k = kind if kind != "any" else draw(st.sampled_from(["snow", "snow", "ice", "thr"]))
    icf = draw({"snow": snow_icf(), "ice": ice_icf(), "thr": near_threshold_icf()}[k])
    lwc = 0.0
    if wet:
        how = draw(st.sampled_from(["dry", "some", "more", "full"]))
        pore = max(0.0, 1.0 - icf)
        if how == "some":
            lwc = draw(fl(0.0, min(0.1, pore)))
        elif how == "more":
            lwc = draw(fl(0.0, pore))
        elif how == "full":
            lwc = pore
    return [draw(height(hlo, hhi)), draw(temp(tlo)), lwc, icf]


@st.composite
def columns(draw, nmin=1, nmax=10, wet=True, order="any", hlo=0.002, hhi=1.0, tlo=223.0):
    """A column: a list of layers [height, temperature, lwc, ice fraction].
    order 'stacked' puts snow above ice, 'any' mixes kinds freely."""
    if order == "any":
        return draw(st.lists(layer("any", wet, hlo, hhi, tlo), min_size=nmin, max_size=nmax))
    ns = draw(st.integers(0, nmax - 1))
    ni = draw(st.integers(max(1, nmin - ns), max(1, nmax - ns, nmin - ns)))
    return [draw(layer("snow", wet, hlo, hhi, tlo)) for _ in range(ns)] + \
           [draw(layer("ice", False, hlo, hhi, tlo)) for _ in range(ni)]


def fresh_props():
    return st.tuples(st.one_of(st.just(0.0), fl(0.0, 0.5)),
                     st.one_of(st.just(0.0), st.integers(0, 2000).map(lambda k: 3600.0 * k), fl(0.0, 1e7)),
                     st.one_of(st.just(0.0), st.integers(0, 2000).map(lambda k: 3600.0 * k), fl(0.0, 1e7)))


def make_grid(layers, fresh=None, rho=None):
    """layers: [h, T, lwc, icf]; icf None -> from density list `rho`."""
    import numpy as np
    from cosipy.cpkernel.grid import Grid
    h = np.array([float(x[0]) for x in layers])
    t = np.array([float(x[1]) for x in layers])
    w = np.array([float(x[2]) for x in layers])
    c = consts_cached()
    if rho is None:
        i = np.array([float(x[3]) for x in layers])
        d = np.array([density(x, c) for x in layers])
    else:
        i, d = None, np.array([float(x) for x in rho])
    if fresh is None:
        fresh = (0.0, 0.0, 0.0)
    return Grid(h, d, t, w, i, float(fresh[0]), float(fresh[1]), float(fresh[2]))


_C = None


def consts_cached():
    global _C
    if _C is None:
        _C = consts()
    return _C


def density(x, c):
    h, t, w, i = x[:4]
    return i * c["ice_density"] + w * c["water_density"] + max(0.0, 1 - w - i) * c["air_density"]


def state(grid):
    """[h, T, lwc, icf] per layer, read through the public getters."""
    return [[float(a), float(b), float(c), float(d)] for a, b, c, d in zip(
        grid.get_height(), grid.get_temperature(), grid.get_liquid_water_content(), grid.get_ice_fraction())]


def water(s):
    return math.fsum(x[0] * x[2] for x in s)


def ice(s):
    return math.fsum(x[0] * x[3] for x in s)


def depth(s):
    return math.fsum(x[0] for x in s)


def swe(s, c):
    """Water equivalent of ice + liquid (air excluded) [m]."""
    return ice(s) * c["ice_density"] / c["water_density"] + water(s)


def close(a, b, rel=1e-9, abs_=1e-12):
    a, b = float(a), float(b)
    if math.isnan(a) or math.isnan(b):
        return math.isnan(a) and math.isnan(b)
    if a == b:
        return True
    return abs(a - b) <= max(abs_, rel * max(abs(a), abs(b)))


def same_state(a, b, rel=1e-9, abs_=1e-12):
    """None, or a description of the first difference of two states."""
    if len(a) != len(b):
        return f"{len(a)} layers, expected {len(b)}"
    for k, (x, y) in enumerate(zip(a, b)):
        for name, u, v in zip(("height", "temperature", "lwc", "ice fraction"), x, y):
            if not close(u, v, rel, abs_):
                return f"layer {k}: {name} {u!r}, expected {v!r}"
    return None

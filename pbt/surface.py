"""Generated states for the surface temperature solver."""
from hypothesis import strategies as st

from pbt import common, fluxref


@st.composite
def column(draw):
    """Thin layers on top (as after remeshing), ice below; at least half a metre."""
    n = draw(st.integers(2, 6))
    kind = draw(st.sampled_from(["snow", "snow", "ice"]))
    t0 = draw(st.one_of(common.fl(228.0, 273.16), common.fl(260.0, 273.16), st.just(273.16)))
    out = []
    for k in range(n):
        x = draw(common.layer(kind, kind == "snow", 0.01, 0.04 if k < 2 else 0.2, 240.0))
        if kind == "snow":
            x[3] = min(0.85, max(0.06, x[3]))
        x[2] = min(x[2], 0.03)
        x[1] = t0 if k == 0 else min(273.16, max(225.0, out[-1][1] + draw(common.fl(-4.0, 4.0))))
        out.append(x)
    return out + [[0.5, draw(common.temp(255.0)), 0.0, 1.0], [0.6, 265.0, 0.0, 1.0]]


def weather():
    return st.fixed_dictionaries({
        "T2": st.one_of(common.fl(246.0, 292.0), common.fl(268.0, 279.0)), "RH": common.fl(5.0, 100.0), "p": common.fl(450.0, 1050.0),
        "sw": st.one_of(st.just(0.0), common.fl(0.0, 150.0), common.fl(0.0, 700.0)),
        "u": st.one_of(st.just(0.0), common.fl(0.3, 3.0), common.fl(0.3, 25.0)),
        "rain": st.one_of(st.just(0.0), st.just(0.0), common.fl(0.0, 25.0)), "slope": st.one_of(st.just(0.0), common.fl(0.0, 45.0)),
        "N": common.fl(0.0, 1.0), "z0": st.one_of(common.fl(0.00024, 0.004), st.just(0.0017)), "z": st.sampled_from([2.0, 2.0, 1.3, 5.0]),
        "dt": st.sampled_from([3600, 1800, 10800])})


def case():
    return st.fixed_dictionaries({"col": column(), "met": weather()})


def run(case, c, rad):
    """-> (grid, columns before, reference Surface, result tuple)"""
    import numpy as np
    from cosipy.modules.surfaceTemperature import update_surface_temperature
    m, col = case["met"], [list(x) for x in case["col"]]
    g = common.make_grid(col, (0.05, 3600.0, 7200.0))
    before = common.state(g)
    lam = g.get_node_thermal_conductivity(0)
    lw = (0.66 + 0.34 * m["N"]) * 5.67e-8 * m["T2"] ** 4 if rad == "LWin" else None
    ref = fluxref.Surface(before, lam, m["dt"], m["z"], m["z0"], m["T2"], m["RH"], m["p"], m["sw"], m["u"], m["rain"], m["slope"],
                          lw, None if rad == "LWin" else m["N"], c)
    kw = {"LWin": np.float64(lw)} if rad == "LWin" else {"N": np.float64(m["N"])}
    res = update_surface_temperature(g, m["dt"], m["z"], m["z0"], np.float64(m["T2"]), np.float64(m["RH"]), np.float64(m["p"]), m["sw"],
                                     np.float64(m["u"]), m["rain"], m["slope"], **kw)
    return g, before, ref, res


NAMES = ["fun", "Ts", "Li", "Lo", "H", "LE", "B", "QRR", "rho", "Lv", "MOL", "Cs_t", "Cs_q", "q0", "q2"]


def values(res):
    import numpy as np
    out = {}
    for k, v in zip(NAMES, res):
        out[k] = None if v is None else float(np.asarray(v).ravel()[0])
    return out


def root_ok(ref, ts, tm, d=0.1):
    """Does the energy residual vanish or change sign at (or, through the tolerance
    of the root finder, next to) this surface temperature?"""
    r = ref.residual
    if abs(r(ts)) <= 0.5:
        return True
    if ts >= tm:
        return r(tm) >= 0.0 or min(r(tm - d), r(tm - d / 2)) * r(tm) <= 0
    pts = [r(min(tm, ts + k * d / 4)) for k in range(-4, 5)]
    return min(pts) <= 0.0 <= max(pts)

"""C28 a step coupled to the atmospheric model is the same physics as a standalone one."""
import math

from hypothesis import strategies as st

from pbt import common, refcore, runs
from pbt.engine import Search, expect

ID = "C28"
LEVEL = "exploration"
_C = {"WRF_X_CSPY": True}
VARIANTS = {
    "default": {"config": _C, "shards": {"thorough": 3}},
    # the settings ask for another albedo scheme and stability correction than the coupled model supports
    "overridden": {"config": _C, "constants": {"albedo_method": "Bougamont05", "stability_correction": "Ri", "dt": 1800, "z": 3.0,
                                               "densification_method": "constant", "remesh_method": "adaptive_profile"},
                   "shards": {"thorough": 2}},
}
ASSUMPTIONS = ["the atmospheric model is represented by what it hands over: one step of weather, the time step, the height of its lowest "
               "level, the number of layers there is room for, and the state it got back from the step before",
               "chains of 1-12 steps; 120 to 200 layers of room"]
NAMES = ["indY", "indX", "RESTART", "RAIN", "SNOWFALL", "LWin", "LWout", "H", "LE", "B", "QRR", "MB", "surfMB", "Q", "SNOWHEIGHT",
         "TOTALHEIGHT", "TS", "ALBEDO", "LAYERS", "ME", "intMB", "EVAPORATION", "SUBLIMATION", "CONDENSATION", "DEPOSITION",
         "REFREEZE", "subM", "Z0", "surfM", "new_snow_height", "new_snow_timestamp", "old_snow_timestamp", "MOL", "LAYER_HEIGHT",
         "LAYER_RHO", "LAYER_T", "LAYER_LWC", "LAYER_CC", "LAYER_POROSITY", "LAYER_ICE_FRACTION", "x1", "x2", "x3", "x4", "x5"]
GIVEN = [k for k in NAMES[6:33]]
PROFILES = ["LAYER_HEIGHT", "LAYER_RHO", "LAYER_T", "LAYER_LWC", "LAYER_ICE_FRACTION"]


def state_of(out, xr, np):
    """What the atmospheric model hands back in the next step."""
    ds = xr.Dataset(coords={"layer": np.arange(len(out["LAYER_HEIGHT"]))})
    ds["NLAYERS"] = float(out["LAYERS"])
    for k in ("new_snow_height", "new_snow_timestamp", "old_snow_timestamp"):
        ds[k] = float(out[k])
    for k, v in (("LAYER_HEIGHT", "LAYER_HEIGHT"), ("LAYER_RHO", "LAYER_RHO"), ("LAYER_T", "LAYER_T"), ("LAYER_LWC", "LAYER_LWC"),
                 ("LAYER_IF", "LAYER_ICE_FRACTION")):
        ds[k] = ("layer", np.array(out[v], float))
    return ds


def searches(variant):
    import numpy as np
    import xarray as xr
    from cosipy.config import Config
    from cosipy.cpkernel.cosipy_core import cosipy_core
    from cosipy.cpkernel.init import load_snowpack
    c = common.consts()
    names = ["T2", "RH2", "U2", "G", "PRES"] + {"default": ["RRR", "LWin"], "overridden": ["RRR", "LWin"]}[variant]

    def step(m, restart, dt, z, room):
        ds = runs.dataset([m], names, None, dt=dt)
        ds["SLOPE"] = 0.0
        ds["DT"], ds["ZLVL"], ds["max_layers"] = dt, z, room
        res = cosipy_core(ds, 3, 5, GRID_RESTART=restart)
        expect(len(res) == len(NAMES), "coupled-results", f"{len(res)} values")
        out = dict(zip(NAMES, res))
        for k in GIVEN:
            out[k] = float(np.asarray(out[k], float).ravel()[0])
        return out

    def check(out, want, g, k, room):
        for name in GIVEN:
            expect(common.close(out[name], want[name], 1e-8, 1e-9), f"coupled-step:{name}",
                   f"step {k}: {name} = {out[name]!r}, composition gives {want[name]!r}")
        n = int(want["LAYERS"])
        for f, getter in zip(PROFILES, ("height", "density", "temperature", "liquid_water_content", "ice_fraction")):
            a, b = np.asarray(out[f], float), np.asarray(getattr(g, f"get_{getter}")(), float)
            expect(len(a) == room and np.allclose(a[:n], b, rtol=1e-7, atol=1e-9) and np.isnan(a[n:]).all(), f"coupled-profile:{f}", f"step {k}")

    def chain(case, rec):
        """Each step against the composition of the processes, the state fed back."""
        steps = runs.expand(case["met"])[:12]
        dt, z, room = case["dt"], case["z"], case["room"]
        restart = runs.restart_dataset(case["col"], case["fresh"], c, room, coupled=True)
        kinds = set()
        for k, m in enumerate(steps):
            m = dict(m)
            m["G"] = m["G"] if m["G"] > 1 else case["night"]
            g = load_snowpack(restart)
            s = refcore.Stepper(g, c, dt=dt, z=z, a_snow=c["albedo_firn"])
            want = s.step({x: m[x] for x in names})
            out = step(m, restart, dt, z, room)
            if 1e-8 < abs(out["TS"] - want["TS"]) < 0.02:
                rec.hit("cut short: last digits of the root")
                return
            check(out, want, g, k, room)
            restart = state_of(out, xr, np)
            kinds |= {n for n, v in (("melt", out["surfM"]), ("refreezing", out["REFREEZE"]), ("subsurface melt", out["subM"]),
                                     ("snow", out["SNOWHEIGHT"])) if v > 0}
        for n in kinds:
            rec.hit(n)
        rec.hit("other time step than the settings", dt != c["dt"])
        rec.hit("stable", out["MOL"] > 0)
        rec.hit("negative radiation", case["night"] < 0)
        rec.nontrivial(len(steps) >= 3 and "snow" in kinds and dt != c["dt"] and z != c["z"])

    def standalone(case, rec):
        """A chain of coupled steps against one standalone run over the same weather."""
        steps = runs.expand(case["met"])[:12]
        dt, z, room = c["dt"], c["z"], 200
        ds = runs.dataset(steps, names, 0.0, dt=dt)
        Config.WRF_X_CSPY = False
        try:
            whole = runs.run(ds, runs.restart_dataset(case["col"], case["fresh"], c))
        finally:
            Config.WRF_X_CSPY = True
        restart = runs.restart_dataset(case["col"], case["fresh"], c, room, coupled=True)
        for k, m in enumerate(steps):
            out = step(m, restart, dt, z, room)
            if 1e-8 < abs(out["TS"] - whole["TS"][k]) < 0.02:
                rec.hit("cut short: last digits of the root")
                return
            for name in GIVEN:
                expect(common.close(out[name], whole[name][k], 1e-6, 1e-8), f"coupled-chain:{name}",
                       f"step {k}: coupled {out[name]!r}, standalone {whole[name][k]!r}")
            for f in PROFILES:
                expect(np.allclose(np.asarray(out[f], float), whole[f][k], rtol=1e-6, atol=1e-8, equal_nan=True), f"coupled-chain:{f}", f"step {k}")
            restart = state_of(out, xr, np)
        rec.hit("melt", bool((whole["surfM"] > 0).any()))
        rec.hit("snowfall", bool((whole["SNOWFALL"] > 0).any()))
        rec.nontrivial(len(steps) >= 3 and bool((whole["SNOWFALL"] > 0).any()))

    base = {"met": runs.forcing(3, 5), "col": runs.start_column(), "fresh": common.fresh_props().map(list)}
    one = st.fixed_dictionaries(dict(base, dt=st.sampled_from([30, 60, 600, 900, 3600]), z=common.fl(2.0, 30.0), room=st.integers(120, 200),
                                     night=st.sampled_from([0.0, -3.0])))
    return [Search("coupled-step", one, chain, "at least 3 steps over snow with a time step and height other than the settings'", quick=120,
                   thorough=4000, cap_quick=45.0),
            Search("coupled-chain", st.fixed_dictionaries(base), standalone, "at least 3 steps with snowfall", quick=80, thorough=3000,
                   cap_quick=45.0)]

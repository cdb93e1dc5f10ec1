"""C06 the driver applies the processes in the documented order."""
import math

from hypothesis import strategies as st

from pbt import common, refcore, runs
from pbt.engine import Search, expect

ID = "C06"
LEVEL = "exploration"
_FULL = {"full_field": True}
VARIANTS = {
    "default": {"config": _FULL, "shards": {"thorough": 3}},
    "mo-bougamont-adaptive": {"config": _FULL, "constants": {"stability_correction": "MO", "albedo_method": "Bougamont05",
                                                             "remesh_method": "adaptive_profile", "densification_method": "empirical"},
                              "shards": {"thorough": 2}},
    "force": {"config": dict(_FULL, force_use_N=True, force_use_TP=True),
              "constants": {"densification_method": "constant", "mult_factor_RRR": 1.3, "dt": 1800, "z": 3.0,
                            "thermal_conductivity_method": "empirical"}, "shards": {"thorough": 2}},
}
ASSUMPTIONS = ["the process functions themselves are the subject of the other properties: this one compares the driver with their "
               "documented composition", "weather sequences of 1-6 stretches, up to about 48 steps"]
BEFORE = ["RAIN", "SNOWFALL", "LWin", "ALBEDO", "Z0", "subM"]  # known before the surface temperature is


def searches(variant):
    c = common.consts()
    cfg = VARIANTS[variant]["config"]
    tp, fn = cfg.get("force_use_TP", False), cfg.get("force_use_N", False)
    # one kind of input per variant: every kind is compiled for itself
    rad, sloped = {"default": ("LWin", True), "mo-bougamont-adaptive": ("N", False), "force": ("both", True)}[variant]
    import numpy as np
    from cosipy.cpkernel.init import init_snowpack, load_snowpack

    def oracle(case, rec):
        steps = runs.expand(case["met"])
        names = ["T2", "RH2", "U2", "G", "PRES"]
        precip = case["precip"]
        if tp and precip == "SNOWFALL":
            precip = "both"
        for s in steps:
            s["SNOWFALL"] = s["RRR"] / 1000.0 * (4.0 if s["T2"] < 273.5 else 0.0)
        names += {"RRR": ["RRR"], "SNOWFALL": ["SNOWFALL"], "both": ["RRR", "SNOWFALL"]}[precip]
        names += {"LWin": ["LWin"], "N": ["N"], "both": ["LWin", "N"]}[rad]
        slope = case["slope"] if sloped else None
        ds = runs.dataset(steps, names, slope, dt=c["dt"], snowheight=case["snowheight"])
        rs = runs.restart_dataset(case["col"], case["fresh"], c) if case["col"] else None
        out = runs.run(ds, rs)
        g = load_snowpack(rs) if rs is not None else init_snowpack(ds)
        s = refcore.Stepper(g, c, force_use_TP=tp, force_use_N=fn, slope=ds.SLOPE.values if sloped else 0.0)
        want = None
        for t, m in enumerate(steps):
            want = s.step({k: m[k] for k in names})
            for k in BEFORE + ["TS"]:
                if k == "TS" and 1e-8 < abs(out["TS"][t] - want["TS"]) < 0.02:
                    # the root finder stops within 0.01 K: rounding may cost it one more iteration
                    rec.hit("cut short: last digits of the root")
                    return
                expect(common.close(out[k][t], want[k], 1e-8, 1e-9), f"step:{k}", f"step {t}: {k} = {out[k][t]!r}, composition gives {want[k]!r}")
            for k in runs.SERIES:
                expect(common.close(out[k][t], want[k], 1e-8, 1e-9), f"step:{k}", f"step {t}: {k} = {out[k][t]!r}, composition gives {want[k]!r}")
            n = int(want["LAYERS"])
            for f, getter in (("LAYER_HEIGHT", "height"), ("LAYER_RHO", "density"), ("LAYER_T", "temperature"),
                              ("LAYER_LWC", "liquid_water_content"), ("LAYER_CC", "cold_content"), ("LAYER_POROSITY", "porosity"),
                              ("LAYER_ICE_FRACTION", "ice_fraction"), ("LAYER_IRREDUCIBLE_WATER", "irreducible_water_content"),
                              ("LAYER_REFREEZE", "refreeze")):
                a, b = np.asarray(out[f][t], float), np.asarray(getattr(g, f"get_{getter}")(), float)
                expect(np.allclose(a[:n], b, rtol=1e-7, atol=1e-9), f"profile:{f}", f"step {t}")
                expect(np.isnan(a[n:]).all(), f"profile-padding:{f}", f"step {t}")
        expect(out["indY"] == 3 and out["indX"] == 5, "indices", f"{out['indY']}, {out['indX']}")
        r = out["RESTART"]
        n = int(want["LAYERS"])
        end = common.state(g)
        for f, v in (("LAYER_HEIGHT", [x[0] for x in end]), ("LAYER_T", [x[1] for x in end]), ("LAYER_LWC", [x[2] for x in end]),
                     ("LAYER_IF", [x[3] for x in end]), ("LAYER_RHO", list(g.get_density()))):
            a = np.asarray(r[f].values, float)
            expect(np.allclose(a[:n], np.array(v, float), rtol=1e-8, atol=1e-10) and np.isnan(a[n:]).all(), f"restart:{f}", "")
        for f, v in (("NLAYERS", n), ("NEWSNOWHEIGHT", want["new_snow_height"]), ("NEWSNOWTIMESTAMP", want["new_snow_timestamp"]),
                     ("OLDSNOWTIMESTAMP", want["old_snow_timestamp"])):
            expect(common.close(np.asarray(r[f].values).ravel()[0], v, 1e-9), f"restart:{f}", "")
        rec.hit("melt", bool((out["surfM"] > 0).any()))
        rec.hit("refreezing", bool((out["REFREEZE"] > 0).any()))
        rec.hit("subsurface melt", bool((out["subM"] > 0).any()))
        rec.hit("snowfall", bool((out["SNOWFALL"] > 0).any()))
        rec.hit("rain", bool((out["RAIN"] > 0).any()))
        rec.hit("snow free", bool((out["SNOWHEIGHT"] == 0).any()))
        rec.hit("condensation or deposition", bool((out["CONDENSATION"] + out["DEPOSITION"] > 0).any()))
        rec.nontrivial(len(steps) >= 4 and bool((out["surfM"] > 0).any()) and bool((out["SNOWFALL"] + out["RAIN"] > 0).any()))

    case = st.fixed_dictionaries({
        "met": runs.forcing(6, 12), "col": st.one_of(st.just([]), runs.start_column()),
        "fresh": common.fresh_props().map(list), "slope": st.sampled_from([0.0, 12.5, 30.0]),
        "snowheight": st.one_of(st.none(), common.fl(0.0, 2.0)),
        "precip": st.sampled_from(["RRR", "RRR", "both", "SNOWFALL"])})
    return [Search("composition", case, oracle, "at least 4 steps with surface melt and precipitation", quick=130, thorough=4000, cap_quick=75.0)]

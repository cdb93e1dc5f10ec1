"""C07 every reachable model state and every output is physical."""
from hypothesis import strategies as st

from pbt import common, ref, runs
from pbt.engine import Search, expect

ID = "C07"
LEVEL = "exploration"
_F = {"full_field": True}
VARIANTS = {
    "default": {"config": _F, "shards": {"thorough": 3}},
    "mo-adaptive-bougamont": {"config": _F, "constants": {"stability_correction": "MO", "remesh_method": "adaptive_profile",
                                                          "albedo_method": "Bougamont05", "dt": 10800}, "shards": {"thorough": 2}},
    "empirical": {"config": _F, "constants": {"densification_method": "empirical", "thermal_conductivity_method": "empirical", "dt": 1800,
                                              "first_layer_height": 0.02, "layer_stretching": 1.4}, "shards": {"thorough": 2}},
}
ASSUMPTIONS = ["weather 246-292 K, wind 0-30 m/s; columns of snow (possibly wet) over several metres of ice; runs of up to 200 steps"]


def searches(variant):
    import numpy as np
    c = common.consts()
    tm = c["zero_temperature"]

    def oracle(case, rec):
        steps = runs.expand(case["met"])
        rad = ["LWin"] if variant != "empirical" else ["N"]
        ds = runs.dataset(steps, ["T2", "RH2", "U2", "G", "PRES", "RRR"] + rad, dt=c["dt"], snowheight=case["snowheight"])
        rs = runs.restart_dataset(case["col"], case["fresh"], c) if case["col"] is not None else None
        out = runs.run(ds, rs)
        for k in runs.SERIES:
            if k == "MOL":
                continue
            expect(np.isfinite(out[k]).all(), f"not-finite:{k}", lambda: f"{out[k]}")
        cold = min(min(s["T2"] for s in steps), min((x[1] for x in case["col"] or []), default=c["temperature_bottom"])) - 60.0
        for t in range(len(steps)):
            o = {k: float(out[k][t]) for k in runs.SERIES}
            n = int(o["LAYERS"])
            lab = f"step {t}: {o}"
            expect(1 <= n <= c["max_layers"], "layers", lab)
            expect(max(200.0, cold) <= o["TS"] <= tm, "surface-temperature", lab)
            expect(c["albedo_ice"] - 1e-9 <= o["ALBEDO"] <= c["albedo_fresh_snow"] + 1e-9, "albedo", lab)
            expect(c["roughness_fresh_snow"] / 1000 - 1e-9 <= o["Z0"] <= c["roughness_firn"] / 1000 + 1e-9, "roughness", lab)
            expect(0.0 <= o["SNOWHEIGHT"] <= o["TOTALHEIGHT"] + 1e-9, "heights", lab)
            expect(o["new_snow_timestamp"] >= 0 and o["old_snow_timestamp"] >= 0, "snow-age", lab)
            f = {k: np.asarray(out[k][t], float) for k in runs.FIELDS}
            for k, v in f.items():
                expect(np.isfinite(v[:n]).all() and np.isnan(v[n:]).all(), f"profile-extent:{k}", lambda: f"step {t}: {v}")
            h, T, w, i, rho = (f[k][:n] for k in ("LAYER_HEIGHT", "LAYER_T", "LAYER_LWC", "LAYER_ICE_FRACTION", "LAYER_RHO"))
            prof = lambda: f"step {t}: {[list(map(float, x)) for x in zip(h, T, w, i)]}"
            expect((h > 0).all(), "layer-height", prof)
            expect((T <= tm + 1e-6).all() and (T >= min(cold, 215.0)).all(), "layer-temperature", prof)
            expect((w >= 0).all(), "negative-water", prof)
            expect((i > 0).all() and (i <= 1.0 + 1e-9).all(), "ice-fraction", prof)
            expect((w + i <= 1.0 + 1e-6).all(), "more-than-volume", prof)
            expect((f["LAYER_POROSITY"][:n] <= 1.0).all() and (f["LAYER_REFREEZE"][:n] >= 0).all(), "porosity-or-refreezing", prof)
            expect((f["LAYER_CC"][:n] >= -1e-3).all(), "negative-cold-content", prof)
            expect(common.close(h.sum(), o["TOTALHEIGHT"], 1e-9), "total-height", lab)
            expect(common.close(h[rho < c["snow_ice_threshold"]].sum(), o["SNOWHEIGHT"], 1e-9, 1e-9), "snow-height", lab)
            expect(w[-1] == 0.0, "water-in-the-lowest-layer", prof)
            rec.hit("temperate layer below the surface", n > 1 and bool((T[1:] >= tm - 1e-9).any()))
            rec.hit("more than 40 layers", n > 40)
            rec.hit("snow free", o["SNOWHEIGHT"] == 0)
        rec.hit("restart column", case["col"] is not None)
        rec.nontrivial(len(steps) >= 12 and bool((out["surfM"] > 0).any()) and bool((out["SNOWFALL"] > 0).any()))

    case = st.fixed_dictionaries({"met": runs.forcing(10, 20), "col": st.one_of(st.none(), runs.start_column()),
                                  "fresh": common.fresh_props().map(list), "snowheight": st.one_of(st.none(), common.fl(0.0, 3.0))})
    return [Search("run", case, oracle, "at least 12 steps with melt and snowfall", quick=150, thorough=5000, cap_quick=75.0)]

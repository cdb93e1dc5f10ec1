"""C01 surface energy balance of every step."""
import math

from hypothesis import strategies as st

from pbt import common, runs
from pbt.engine import Search, expect

ID = "C01"
LEVEL = "exploration"
VARIANTS = {
    "default": {"shards": {"thorough": 3}},
    "newton-mo": {"constants": {"sfc_temperature_method": "Newton", "stability_correction": "MO"}, "shards": {"thorough": 2}},
    "other-constants": {"constants": {"surface_emission_coeff": 0.97, "lat_heat_melting": 3.3e5, "albedo_ice": 0.4, "dt": 1800, "z": 4.0},
                        "config": {"force_use_N": True}, "shards": {"thorough": 2}},
}
ASSUMPTIONS = ["the energy residual below melting may be what the documented root-finding tolerance of 0.01 K leaves, and is not judged where "
               "the stability function of the bulk Richardson number jumps",
               "weather: 248-292 K, wind 0-30 m/s, longwave consistent with air temperature"]


def searches(variant):
    c = common.consts()
    tm, sigma, eps = c["zero_temperature"], c["sigma"], c["surface_emission_coeff"]
    ri_scheme = c["stability_correction"] == "Ri"
    names = ["T2", "RH2", "U2", "G", "PRES", "RRR"] + (["LWin", "N"] if variant == "other-constants" else ["LWin"])

    def oracle(case, rec):
        steps = runs.expand(case["met"])
        if case["negative"]:
            steps[-1]["G"] = -5.0  # sensors report slightly negative values at night
        ds = runs.dataset(steps, names, case["slope"], dt=c["dt"])
        out = runs.run(ds, runs.restart_dataset(case["col"], case["fresh"], c))
        melted = 0
        for t, m in enumerate(steps):
            o = {k: float(out[k][t]) for k in runs.SERIES}
            ice = o["ALBEDO"] == c["albedo_ice"]
            sw = max(m["G"], 0.0) * (1.0 - o["ALBEDO"]) * (0.8 if ice else 0.9)
            net = sw + o["LWin"] + o["LWout"] + o["H"] + o["LE"] + o["B"] + o["QRR"]
            lab = f"step {t}: net {net}, {o}"
            expect(common.close(o["LWout"], -eps * sigma * o["TS"] ** 4, 1e-10), "longwave-out", lab)
            if variant == "other-constants":
                pass  # parametrised from cloud cover: see C03
            else:
                expect(o["LWin"] == m["LWin"], "longwave-in", lab)
            expect(o["TS"] <= tm, "above-melting", lab)
            expect(common.close(o["ME"], max(0.0, net), 1e-9, 1e-8), "melt-energy", lambda: f"melt energy {o['ME']}, " + lab)
            expect(common.close(o["surfM"], o["ME"] * c["dt"] / (1000.0 * c["lat_heat_melting"]), 1e-9), "melt", lab)
            rain_flux = c["water_density"] * c["spec_heat_water"] * (o["RAIN"] / 1000.0 / c["dt"]) * (m["T2"] - o["TS"])
            expect(common.close(o["QRR"], rain_flux, 1e-8, 1e-9), "rain-heat", lab)
            if o["TS"] < tm and o["TS"] > 220.0:
                # what 0.02 K of the root finder may leave: a generous bound on d(net)/dT
                slope = 30.0 + 60.0 * (1 + m["U2"])
                jump = False
                if ri_scheme and m["U2"] > 0:
                    for d in (-0.05, 0.05):
                        r0 = 9.81 * (m["T2"] - o["TS"] - d) * c["z"] / (m["T2"] * m["U2"] ** 2)
                        r1 = 9.81 * (m["T2"] - o["TS"]) * c["z"] / (m["T2"] * m["U2"] ** 2)
                        jump |= (r0 - 0.01) * (r1 - 0.01) <= 0
                if not jump:
                    expect(abs(net) <= 0.02 * slope, "does-not-close", lab)
                rec.hit("at a jump of the stability function", jump)
            elif o["TS"] == tm:
                expect(net >= -0.02 * (30.0 + 60.0 * (1 + m["U2"])), "melting-with-deficit", lab)
                melted += o["ME"] > 0
        rec.hit("melts", melted > 0)
        rec.hit("ice surface", bool((out["ALBEDO"] == c["albedo_ice"]).any()))
        rec.hit("calm", any(m["U2"] == 0 for m in steps))
        rec.hit("rain", bool((out["RAIN"] > 0).any()))
        rec.nontrivial(len(steps) >= 4 and 0 < melted < len(steps))

    case = st.fixed_dictionaries({"met": runs.forcing(8, 12), "col": runs.start_column(), "fresh": common.fresh_props().map(list),
                                  "slope": st.sampled_from([0.0, 10.0, 35.0]), "negative": st.booleans()})
    return [Search("budget", case, oracle, "at least 4 steps, some with and some without melt", quick=250, thorough=8000, cap_quick=75.0)]

"""C03 surface fluxes follow the documented formulas."""
import math

from pbt import common, fluxref, surface
from pbt.engine import Search, expect

ID = "C03"
LEVEL = "exploration"
VARIANTS = {
    "default": {"shards": {"thorough": 2}},
    "cloud-mo": {"constants": {"stability_correction": "MO"}, "shards": {"thorough": 2}},
    "mo": {"constants": {"stability_correction": "MO", "zlt1": 0.05, "zlt2": 0.13, "surface_emission_coeff": 0.97}, "shards": {"thorough": 2}},
    "cloud": {"constants": {"sfc_temperature_method": "Newton"}, "shards": {"thorough": 2}},
}
ASSUMPTIONS = ["columns whose layers enclose both depths of the ground heat flux", "Monin-Obukhov bulk coefficients as the code documents them"]


def searches(variant):
    c = common.consts()
    rad = "N" if variant.startswith("cloud") else "LWin"

    def oracle(case, rec):
        if not fluxref.well_defined(case["col"], c):
            return
        g, before, ref, res = surface.run(case, c, rad)
        expect(len(res) == 15, "result", f"{len(res)}")
        v, m = surface.values(res), case["met"]
        want = ref.fluxes(v["Ts"])
        if ref.ambiguous:
            return
        for k in ("Li", "Lo", "rho", "Lv", "q2", "q0", "B", "QRR", "Cs_t", "Cs_q", "H", "LE"):
            expect(common.close(v[k], want[k], 1e-8, 1e-9), f"flux:{k}", lambda: f"{k} = {v[k]!r}, formula {want[k]!r} at {v} for {case}")
        if want["MOL"] is None:
            expect(v["MOL"] is None, "flux:MOL", f"{v['MOL']}")
        else:
            expect(common.close(v["MOL"], want["MOL"], 1e-6, 1e-9), "flux:MOL", lambda: f"{v['MOL']} formula {want['MOL']} {case}")
        # what the formulas mean
        expect(v["Lo"] < 0 < v["Li"], "longwave-sign", f"{v}")
        expect(v["H"] * (m["T2"] - v["Ts"]) >= 0, "sensible-sign", f"{v}")
        expect(v["LE"] * (v["q2"] - v["q0"]) >= 0, "latent-sign", f"{v}")
        expect(v["QRR"] * (m["T2"] - v["Ts"]) >= 0 and (m["rain"] > 0 or v["QRR"] == 0), "rain-heat", f"{v}")
        if m["u"] == 0:
            expect(v["H"] == 0 and v["LE"] == 0, "calm-but-turbulent", f"{v}")
        if rad == "N":
            f = v["Li"] / (c["sigma"] * m["T2"] ** 4)
            expect(0.2 < f < 1.05, "sky-emissivity", f"{f}")
        rec.hit("melting", v["Ts"] >= c["zero_temperature"])
        rec.hit("stable", m["T2"] > v["Ts"] and v["H"] > 0)
        rec.hit("unstable", v["H"] < 0)
        rec.hit("cut off", m["u"] > 0 and v["H"] == 0)
        rec.hit("rain", m["rain"] > 0)
        rec.hit("slope", m["slope"] > 0)
        rec.nontrivial(v["H"] != 0)

    q = 700
    return [Search("fluxes", surface.case(), oracle, "with a turbulent flux", quick=q, thorough=25000, cap_quick=25.0)]

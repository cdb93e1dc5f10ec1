"""C02 the surface temperature balances the surface energy, and is at most melting."""
from pbt import common, fluxref, surface
from pbt.engine import Search, expect

ID = "C02"
LEVEL = "exploration"
VARIANTS = {
    "default": {"shards": {"thorough": 2}},
    "secant-mo": {"constants": {"stability_correction": "MO"}, "shards": {"thorough": 2}},
    "newton": {"constants": {"sfc_temperature_method": "Newton"}, "shards": {"thorough": 2}},
    "newton-mo": {"constants": {"sfc_temperature_method": "Newton", "stability_correction": "MO"}, "shards": {"thorough": 2}},
    "lbfgsb": {"constants": {"sfc_temperature_method": "L-BFGS-B"}},
    "slsqp": {"constants": {"sfc_temperature_method": "SLSQP", "stability_correction": "MO"}},
}
ASSUMPTIONS = ["columns whose layers enclose both depths of the ground heat flux"]
LOW = 220.0


def searches(variant):
    c = common.consts()
    tm = c["zero_temperature"]
    rad = "N" if variant in ("secant-mo", "newton") else "LWin"
    method = c["sfc_temperature_method"]

    def oracle(case, rec):
        if not fluxref.well_defined(case["col"], c):
            return
        g, before, ref, res = surface.run(case, c, rad)
        v, m = surface.values(res), case["met"]
        ts = v["Ts"]
        expect(LOW - 1e-9 <= ts <= tm, "bounds", f"{v} {case}")
        after = common.state(g)
        expect(after[0][1] == ts, "not-stored", f"{after[0][1]} {v}")
        after[0][1] = before[0][1]
        expect(after == before and list(map(float, g.get_fresh_snow_props())) == [0.05, 3600.0, 7200.0], "column-changed", "")
        r = ref.residual(ts)
        net = m["sw"] + v["Li"] + v["Lo"] + v["H"] + v["LE"] + v["B"] + v["QRR"]
        rec.hit("melting", ts == tm)
        rec.hit("at the lower bound", ts <= LOW + 1e-6)
        rec.nontrivial(ts < tm)
        if ts <= LOW + 0.1 and ref.residual(LOW) <= 0.5:
            return  # too cold to balance within the bounds
        if surface.root_ok(ref, ts, tm):
            return
        if method in ("Secant", "Newton"):
            # the published iteration may stop between two close points without a root
            alg = ref.secant() if method == "Secant" else ref.newton()
            if abs(min(alg, tm) - ts) < 1e-3:
                expect(False, f"false-convergence:{method}", f"net {net}, {v}, {case}")
        else:
            # minimising the absolute balance locally may get stuck at its kinks
            import numpy as np
            from scipy.optimize import minimize
            alg = minimize(lambda x: abs(ref.residual(np.asarray(x).ravel()[0])), ref.guess, method=method, bounds=((LOW, 330.0),), tol=1e-2)
            if not surface.root_ok(ref, min(float(alg.x[0]), tm), tm):
                expect(False, f"local-minimum:{method}", f"net {net}, {v}, {case}")
        expect(False, f"not-balanced:{method}", f"net {net}, reference {r}, {v}, {case}")

    q = 800 if method in ("Secant", "Newton") else 150
    return [Search("balance", surface.case(), oracle, "below melting", quick=q, thorough=25000, cap_quick=25.0)]

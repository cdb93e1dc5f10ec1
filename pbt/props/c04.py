"""C04 mass balance ledger of every step."""
from hypothesis import strategies as st

from pbt import common, runs
from pbt.engine import Search, expect

ID = "C04"
LEVEL = "exploration"
VARIANTS = {
    "closed": {"config": {"full_field": True}, "constants": {"densification_method": "constant"}, "shards": {"thorough": 3}},
    "default": {"config": {"full_field": True}, "shards": {"thorough": 2}},
    "empirical-3h": {"config": {"full_field": True}, "constants": {"densification_method": "empirical", "dt": 10800, "mult_factor_RRR": 0.8,
                                                                   "remesh_method": "adaptive_profile"}, "shards": {"thorough": 2}},
}
ASSUMPTIONS = ["the liquid water ledger is closed where densification does not act (constant density) and up to the water inside the part "
               "of a layer that melts away, which the model counts as melted mass"]


def searches(variant):
    import numpy as np
    c = common.consts()
    tm, dt, rw = c["zero_temperature"], c["dt"], c["water_density"]

    def liquid(out, t, n):
        return float(np.nansum(out["LAYER_LWC"][t, :n] * out["LAYER_HEIGHT"][t, :n]))

    def oracle(case, rec):
        steps = runs.expand(case["met"])
        ds = runs.dataset(steps, slope=case["slope"], dt=dt)
        col = case["col"]
        out = runs.run(ds, runs.restart_dataset(col, case["fresh"], c))
        before = sum(x[0] * x[2] for x in col)
        moved = 0
        for t in range(len(steps)):
            o = {k: float(out[k][t]) for k in runs.SERIES}
            lab = f"step {t}: {o}"
            for k in ("SNOWFALL", "RAIN", "surfM", "subM", "REFREEZE", "Q", "DEPOSITION", "CONDENSATION", "ME"):
                expect(o[k] >= 0.0, f"negative:{k}", lab)
            for k in ("SUBLIMATION", "EVAPORATION"):
                expect(o[k] <= 0.0, f"positive:{k}", lab)
            expect(common.close(o["surfMB"], o["SNOWFALL"] - o["surfM"] + o["SUBLIMATION"] + o["DEPOSITION"] + o["EVAPORATION"], 1e-9, 1e-12),
                   "surface-balance", lab)
            expect(common.close(o["intMB"], o["REFREEZE"] - o["subM"], 1e-9, 1e-12), "internal-balance", lab)
            expect(common.close(o["MB"], o["surfMB"] + o["intMB"], 1e-9, 1e-12), "mass-balance", lab)
            cold = o["TS"] < tm
            gas = o["LE"] * dt / rw / (c["lat_heat_sublimation"] if cold else c["lat_heat_vaporize"])
            a, b = ("SUBLIMATION", "DEPOSITION") if cold else ("EVAPORATION", "CONDENSATION")
            x, y = ("EVAPORATION", "CONDENSATION") if cold else ("SUBLIMATION", "DEPOSITION")
            expect(o[x] == 0.0 and o[y] == 0.0, "wrong-phase", lab)
            expect(o[a] * o[b] == 0.0 and common.close(o[a] + o[b], gas, 1e-9, 1e-15), "vapour-flux", lab)
            n = int(o["LAYERS"])
            per = out["LAYER_REFREEZE"][t, :n]
            expect(common.close(float(np.nansum(per)), o["REFREEZE"], 1e-8, 1e-12), "refreezing-by-layer", lab)
            after = liquid(out, t, n)
            if variant == "closed":
                supply = before + o["surfM"] + o["CONDENSATION"] + o["RAIN"] / 1000.0 + o["subM"]
                gone = supply - (o["Q"] + o["REFREEZE"] + after)
                lost_max = min(before, max(0.0, o["surfM"] - o["SUBLIMATION"] - o["DEPOSITION"])) + o["subM"]
                expect(gone >= -1e-9, "water-from-nothing", lambda: f"{gone} m w.e. too much, " + lab)
                expect(gone <= lost_max + 1e-9, "water-vanishes", lambda: f"{gone} m w.e. vanish, at most {lost_max} were inside melted snow, " + lab)
                rec.hit("closes exactly", abs(gone) < 1e-12 and o["Q"] + o["REFREEZE"] > 0)
            before = after
            moved += o["REFREEZE"] > 0 or o["Q"] > 0
            rec.hit("refreezing", o["REFREEZE"] > 0)
            rec.hit("runoff", o["Q"] > 0)
            rec.hit("subsurface melt", o["subM"] > 0)
            for k in ("SUBLIMATION", "DEPOSITION", "EVAPORATION", "CONDENSATION"):
                rec.hit(k.lower(), o[k] != 0)
        rec.nontrivial(len(steps) >= 4 and moved >= 2 and bool((out["surfM"] > 0).any()))

    case = st.fixed_dictionaries({"met": runs.forcing(8, 12), "col": runs.start_column(), "fresh": common.fresh_props().map(list),
                                  "slope": st.sampled_from([0.0, 20.0])})
    return [Search("ledger", case, oracle, "at least 4 steps with melt, and runoff or refreezing in at least 2", quick=250, thorough=8000,
                   cap_quick=75.0)]

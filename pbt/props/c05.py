"""C05 partition of precipitation."""
from hypothesis import strategies as st

from pbt import common, refcore, runs
from pbt.engine import Search, expect

ID = "C05"
LEVEL = "exploration"
VARIANTS = {
    "default": {"shards": {"thorough": 2}},
    "constant-density": {"config": {"force_use_TP": True},
                         "constants": {"densification_method": "constant", "mult_factor_RRR": 1.4, "center_snow_transfer_function": 0.0,
                                       "spread_snow_transfer_function": 2, "minimum_snowfall": 0.002, "constant_density": 250.0},
                         "shards": {"thorough": 2}},
}
ASSUMPTIONS = ["snowfall and total precipitation given together are consistent or not; amounts up to 40 mm per step",
               "amounts within 1e-9 of a threshold are not judged"]


def searches(variant):
    import math
    c = common.consts()
    tp = variant == "constant-density"
    dt = c["dt"]

    def rho_of(m):
        if c["densification_method"] == "constant":
            return c["constant_density"]
        return max(109.0 + 6.0 * (m["T2"] - 273.16) + 26.0 * math.sqrt(m["U2"]), 50.0)

    def oracle(case, rec):
        kind = case["kind"]
        if tp and kind == "SNOWFALL":
            kind = "both"
        names = ["T2", "RH2", "U2", "G", "PRES", "LWin"] + {"RRR": ["RRR"], "SNOWFALL": ["SNOWFALL"], "both": ["RRR", "SNOWFALL"]}[kind]
        steps = []
        for t2, u, rrr, solid in case["steps"]:
            m = dict(T2=t2, RH2=80.0, U2=u, G=0.0, PRES=600.0, LWin=0.85 * 5.67e-8 * t2 ** 4, RRR=rrr)
            m["SNOWFALL"] = solid * rrr / rho_of(m) if case["consistent"] else solid * 0.02
            steps.append(m)
        ds = runs.dataset(steps, names, dt=dt)
        before = [0.1, 0.0, 7200.0]
        ice = [[0.5, 265.0, 0.0, 1.0]] * 4
        out = runs.run(ds, runs.restart_dataset(ice, before, c))
        kinds = set()
        for t, m in enumerate(steps):
            rho = rho_of(m)
            given = {k: m[k] for k in names}
            snow, rain = refcore.precipitation(given, rho, c, tp)
            got_s, got_r = float(out["SNOWFALL"][t]), float(out["RAIN"][t])
            lab = f"step {t}: snowfall {got_s}, rain {got_r} from {given}; expected {snow * rho / 1000} and {rain}"
            raw_s, raw_r = refcore.precipitation(given, rho, dict(c, minimum_snowfall=-1e9), tp)
            near = abs(raw_s - c["minimum_snowfall"]) < 1e-9 or abs(raw_r - c["minimum_snowfall"] * rho) < 1e-9
            if near:
                break  # the fresh snow record hangs on it
            expect(common.close(got_s, snow * rho / c["water_density"], 1e-8, 1e-10), "snowfall", lab)
            expect(common.close(got_r, rain, 1e-8, 1e-7), "rain", lab)
            expect(got_s >= 0 and got_r >= 0, "negative", lab)
            if kind == "RRR" or (tp and kind == "both"):
                total = m["RRR"] * c["mult_factor_RRR"]
                expect(got_s * 1000.0 + got_r <= total + 1e-6, "more-than-fell", lab)
                if raw_s >= c["minimum_snowfall"] and raw_r >= c["minimum_snowfall"] * rho:
                    expect(common.close(got_s * 1000.0 + got_r, total, 1e-9, 1e-7), "not-all-that-fell", lab)
            if snow == 0.0:
                # ... or the age of the old snow, once the fresh snow is gone
                expect(any(common.close(out["new_snow_timestamp"][t], x + dt) for x in before[1:]), "snow-age", lab)
            else:
                expect(out["new_snow_timestamp"][t] == 0.0, "snow-age-not-reset", lab)
                expect(common.close(out["old_snow_timestamp"][t], before[1], 1e-12), "old-snow-age", lab)
            before = [out["new_snow_height"][t], out["new_snow_timestamp"][t], out["old_snow_timestamp"][t]]
            kinds.add("mixed" if snow > 0 and rain > 0 else "snow" if snow > 0 else "rain" if rain > 0 else "none")
            rec.hit("below the thresholds", snow == 0 and rain == 0 and m["RRR"] > 0)
        for k in kinds:
            rec.hit(k)
        rec.hit(kind)
        rec.nontrivial(len(kinds) >= 2)

    step = st.tuples(st.one_of(common.fl(255.0, 285.0), common.fl(271.0, 277.0)), st.one_of(st.just(0.0), common.fl(0.0, 20.0)),
                     st.one_of(st.just(0.0), common.fl(0.0, 0.5), common.fl(0.0, 40.0)), st.one_of(st.just(0.0), st.just(1.0), common.fl(0.0, 1.0)))
    case = st.fixed_dictionaries({"steps": st.lists(step.map(list), min_size=1, max_size=16), "kind": st.sampled_from(["RRR", "both", "SNOWFALL"]),
                                  "consistent": st.booleans()})

    def monotone(case, rec):
        """Warmer air never brings more snow water out of the same total."""
        lo, hi = sorted(case["t"])
        res = []
        for t2 in (lo, hi):
            m = dict(T2=t2, RH2=80.0, U2=case["u"], G=0.0, PRES=600.0, LWin=0.85 * 5.67e-8 * t2 ** 4, RRR=case["rrr"])
            out = runs.run(runs.dataset([m], ["T2", "RH2", "U2", "G", "PRES", "LWin", "RRR"], dt=dt),
                           runs.restart_dataset([[0.5, 265.0, 0.0, 1.0]] * 4, [0, 0, 0], c))
            # at equal density of fresh snow the threshold is the same amount of water
            res.append((float(out["SNOWFALL"][0]), float(out["RAIN"][0])))
        (s0, r0), (s1, r1) = res
        expect(s1 <= s0 + 1e-12 or s0 == 0.0, "more-snow-when-warmer", f"{case}: {res}")
        expect(r1 >= r0 - 1e-7 or r1 == 0.0, "less-rain-when-warmer", f"{case}: {res}")
        rec.nontrivial(s0 > 0 and r1 > 0)

    return [Search("partition", case, oracle, "at least two of snow, rain, both, none in one run", quick=400, thorough=12000, cap_quick=75.0),
            Search("monotone", st.fixed_dictionaries({"t": st.tuples(common.fl(268.0, 280.0), common.fl(268.0, 280.0)).map(list), "u": common.fl(0, 10),
                                                      "rrr": common.fl(0.5, 30)}), monotone, "snow when cold and rain when warm", quick=150,
                   thorough=3000)]

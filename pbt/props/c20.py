"""C20 the age of the surface snow is tracked through snowfall, time and melt."""
from hypothesis import strategies as st

from pbt import common, runs
from pbt.engine import Search, expect

ID = "C20"
LEVEL = "exploration"
VARIANTS = {
    "default": {"shards": {"thorough": 3}},
    "short-memory": {"constants": {"albedo_mod_snow_aging": 0.5, "dt": 1800, "minimum_snowfall": 0.003}, "shards": {"thorough": 2}},
}
ASSUMPTIONS = ["runs of up to about 90 steps"]


def searches(variant):
    c = common.consts()
    dt, aging = c["dt"], c["albedo_mod_snow_aging"] * 86400.0

    def oracle(case, rec):
        steps = runs.expand(case["met"])
        out = runs.run(runs.dataset(steps, dt=dt), runs.restart_dataset(case["col"], case["fresh"], c))
        h, new, old = (float(x) for x in case["fresh"])
        seen = set()
        for t in range(len(steps)):
            o = {k: float(out[k][t]) for k in runs.SERIES}
            lab = f"step {t}: before {(h, new, old)}, {o}"
            if o["SNOWFALL"] > 0:
                want = (0.0, new)
                u = max(109.0 + 6.0 * (steps[t]["T2"] - 273.16) + 26.0 * steps[t]["U2"] ** 0.5, 50.0)
                height = o["SNOWFALL"] * c["water_density"] / u
                h = height
                if old > new:
                    seen.add("snow on older snow")
            else:
                want = (new + dt, old + dt)
            if h <= 0 and want[0] < aging:
                want = (want[1], want[1])
                if o["SNOWFALL"] == 0 and old != new:
                    seen.add("fresh snow gone, back to the age of the old")
            if abs(want[0] - aging) < 1e-6 and h <= 0:
                return  # too close to call
            got = (o["new_snow_timestamp"], o["old_snow_timestamp"])
            expect(common.close(got[0], want[0], 1e-12, 1e-6) and common.close(got[1], want[1], 1e-12, 1e-6), "age", lambda: f"{got} expected {want}, {lab}")
            # melt and sublimation take from the height of the fresh snow, deposition adds to it, nothing else does
            gone = o["surfM"] - o["SUBLIMATION"] - o["DEPOSITION"]
            d = h - o["new_snow_height"]
            if gone == 0:
                expect(abs(d) < 1e-9, "height-without-melt", lab)
            elif abs(gone) > 1e-9:
                expect(d * gone > 0, "height-against-melt", lab)
                # a layer of 50 to 917 kg/m3 loses 1.09 to 20 m of height per m w.e.
                expect(0.999 <= d / gone <= 21.0, "height-of-melt", lambda: f"{d / gone} " + lab)
            h, new, old = o["new_snow_height"], *got
        for k in seen:
            rec.hit(k)
        rec.nontrivial(len(seen) > 0 and bool((out["surfM"] > 0).any()))

    case = st.fixed_dictionaries({"met": runs.forcing(8, 12, 2), "col": runs.start_column(), "fresh": common.fresh_props().map(list)})
    return [Search("ages", case, oracle, "melt, and snow on snow or loss of the fresh snow", quick=250, thorough=8000, cap_quick=60.0)]

"""C18 surface albedo."""
from hypothesis import strategies as st

from pbt import common, ref
from pbt.engine import Search, expect

ID = "C18"
LEVEL = "exploration"
VARIANTS = {
    "oerlemans": {"shards": {"thorough": 2}},
    "oerlemans-tropical": {"constants": {"albedo_mod_snow_aging": 6, "albedo_mod_snow_depth": 8, "albedo_fresh_snow": 0.9,
                                         "albedo_firn": 0.5, "albedo_ice": 0.25}},
    "bougamont": {"constants": {"albedo_method": "Bougamont05"}, "shards": {"thorough": 2}},
    "bougamont-3h": {"constants": {"albedo_method": "Bougamont05", "dt": 10800}},
}
ASSUMPTIONS = ["snow albedo state between firn and fresh snow, surface temperature 220-273.16 K"]


def searches(variant):
    from cosipy.modules.albedo import updateAlbedo
    c = common.consts()
    lo, hi = c["albedo_ice"], c["albedo_fresh_snow"]
    firn = c["albedo_firn"]

    def setup(case):
        fresh = list(case["fresh"])
        return common.make_grid(case["col"], fresh), fresh

    def oracle(case, rec):
        g, fresh = setup(case)
        b = common.state(g)
        a_snow = firn + case["a"] * (hi - firn)
        a, s = updateAlbedo(g, case["ts"], a_snow)
        a, s = float(a), float(s)
        expect(common.state(g) == b, "touches-layers", "")
        expect(lo - 1e-12 <= a <= hi + 1e-12, "albedo-out-of-range", f"{a}")
        expect(firn - 1e-12 <= s <= hi + 1e-12, "snow-albedo-out-of-range", f"{s} from {a_snow}")
        wa, ws, wf = ref.albedo(b, fresh, case["ts"], a_snow, c)
        snow_top = common.density(b[0], c) <= c["snow_ice_threshold"]
        if not snow_top:
            expect(a == c["albedo_ice"], "ice-albedo", f"{a}")
        expect(common.close(a, wa, 1e-9), "reference", f"albedo {a} expected {wa}")
        expect(common.close(s, ws, 1e-9), "reference-snow-albedo", f"snow albedo {s} expected {ws}")
        got = tuple(float(x) for x in g.get_fresh_snow_props())
        expect(got == tuple(float(x) for x in wf), "fresh-snow-props", f"{got} expected {wf}")
        # ageing never brightens
        if snow_top and fresh[0] > 0 and case["later"] and c["albedo_method"] == "Oerlemans98":
            g2 = common.make_grid(case["col"], [fresh[0], fresh[1] + case["later"], fresh[2]])
            a2 = float(updateAlbedo(g2, case["ts"], a_snow)[0])
            expect(a2 <= a + 1e-12, "brightens-with-age", f"{a} -> {a2}")
        rec.hit("ice surface", not snow_top)
        rec.hit("fresh snow gone", fresh[0] <= 0 and got[1] != fresh[1])
        rec.hit("just snowed", fresh[1] == 0 and fresh[0] > 0)
        rec.hit("older than the ageing scale", fresh[1] > c["albedo_mod_snow_aging"] * 86400)
        rec.hit("ice lens in the snow", any(not ref.is_snow(x, c) and any(ref.is_snow(y, c) for y in b[k + 1:]) for k, x in enumerate(b)))
        rec.nontrivial(snow_top and 0.005 < ref.snow_height(b, c))

    def history(case, rec):
        """Without snowfall the surface darkens monotonically towards firn (or
        ice when thin), step by step; a snowfall resets it."""
        g, _ = setup(dict(case, fresh=[0.1, 0.0, 0.0]))
        a_snow, prev = hi, None
        seen = []
        for k, ts in enumerate(case["ts"]):
            if k:
                g.set_fresh_snow_props_update_time(c["dt"])
            a, a_snow = updateAlbedo(g, ts, a_snow)
            seen.append(float(a))
            expect(lo - 1e-12 <= a <= hi + 1e-12, "albedo-out-of-range", f"{a}")
            if prev is not None:
                expect(a <= prev + 1e-12, "brightens-without-snowfall", f"step {k}: {prev} -> {a}")
            prev = a
        g.set_fresh_snow_props(0.05)
        a, a_snow = updateAlbedo(g, case["ts"][-1], a_snow)
        expect(a >= prev - 1e-12, "snowfall-darkens", f"{prev} -> {a}")
        if ref.is_snow(case["col"][0], c):
            want = ref.depth_effect(hi, ref.snow_height(case["col"], c), c)
            expect(common.close(a, want, 1e-9), "snowfall-does-not-reset", f"{a} expected {want}")
        rec.nontrivial(len(seen) > 10 and seen[-1] < seen[0] - 1e-3)

    fresh = st.tuples(st.one_of(st.just(0.0), common.fl(-0.05, 0.5)),
                      st.one_of(st.just(0.0), st.integers(0, 800).map(lambda k: 3600.0 * k)),
                      st.one_of(st.just(0.0), st.integers(0, 800).map(lambda k: 3600.0 * k))).map(list)
    ts = st.one_of(common.fl(220.0, 273.16), st.just(273.16), common.fl(262.0, 265.0))
    top = st.lists(common.layer("snow", True, 0.002, 0.3), min_size=1, max_size=2)
    col = st.one_of(common.columns(1, 6), st.tuples(top, common.columns(1, 4)).map(lambda t: t[0] + t[1]),
                    st.tuples(top, common.columns(1, 3, hlo=0.002, hhi=0.05)).map(lambda t: t[0] + t[1]))
    return [
        Search("update", st.fixed_dictionaries({"col": col, "fresh": fresh, "ts": ts, "a": common.fl(0, 1),
                                                "later": st.sampled_from([0.0, 3600.0, 86400.0, 1e6])}),
               oracle, "snow surface with more than 5 mm of snow", quick=700, thorough=20000),
        Search("history", st.fixed_dictionaries({"col": st.tuples(top, common.columns(1, 3, wet=False, order="stacked")).map(lambda t: t[0] + t[1]),
                                                 "ts": st.lists(ts, min_size=8, max_size=60)}),
               history, "more than 10 steps and the albedo falls by more than 0.001", quick=120, thorough=3000)]

"""C19 surface roughness length."""
from hypothesis import strategies as st

from pbt import common, ref
from pbt.engine import Search, expect

ID = "C19"
LEVEL = "exploration"
VARIANTS = {"default": {}, "other": {"constants": {"roughness_fresh_snow": 0.1, "roughness_ice": 5.0, "roughness_firn": 2.5,
                                                   "aging_factor_roughness": 0.01}}}
ASSUMPTIONS = ["snow ages 0 to 4 months"]


def searches(variant):
    from cosipy.modules.roughness import updateRoughness
    c = common.consts()

    def oracle(case, rec):
        g = common.make_grid(case["col"], case["fresh"])
        b = common.state(g)
        z = float(updateRoughness(g))
        expect(common.state(g) == b and [float(x) for x in g.get_fresh_snow_props()] == case["fresh"], "touches-state", "")
        snow = common.density(b[0], c) <= c["snow_ice_threshold"]
        if snow:
            expect(c["roughness_fresh_snow"] / 1000 - 1e-15 <= z <= c["roughness_firn"] / 1000 + 1e-15, "snow-range", f"{z}")
        else:
            expect(common.close(z, c["roughness_ice"] / 1000), "ice-roughness", f"{z}")
        want = ref.roughness(b, case["fresh"], c)
        expect(common.close(z, want), "reference", f"{z} expected {want}")
        g2 = common.make_grid(case["col"], [case["fresh"][0], case["fresh"][1] + case["later"], case["fresh"][2]])
        z2 = float(updateRoughness(g2))
        expect(z2 >= z - 1e-15 if snow else z2 == z, "shrinks-with-age", f"{z} -> {z2}")
        rec.hit("ice", not snow)
        rec.hit("capped", snow and common.close(z, c["roughness_firn"] / 1000))
        rec.nontrivial(snow and 0 < case["fresh"][1] and z < c["roughness_firn"] / 1000 * 0.999)

    age = st.one_of(st.just(0.0), st.integers(0, 2900).map(lambda k: 3600.0 * k), common.fl(0, 1e7))
    return [Search("roughness", st.fixed_dictionaries({
        "col": st.one_of(st.lists(common.layer("snow"), min_size=1, max_size=1), common.columns(1, 3)), "fresh": st.tuples(common.fl(-0.1, 0.5), age, age).map(list),
        "later": st.sampled_from([0.0, 3600.0, 86400.0, 5e6])}),
        oracle, "snow surface, aged, not yet at the firn value", quick=800, thorough=20000)]

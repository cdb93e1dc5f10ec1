"""C14 refreezing: latent heat, cold content, pore space, mass."""
import math

from hypothesis import strategies as st

from pbt import common, ref
from pbt.engine import Search, expect

ID = "C14"
LEVEL = "exploration"
VARIANTS = {"default": {"shards": {"thorough": 4}}}
ASSUMPTIONS = ["temperatures 200-273.16 K, ice fraction 0.05-1, ice + water <= 1"]


def searches(variant):
    from cosipy.modules.refreezing import refreezing
    c = common.consts()
    rw, ri = c["water_density"], c["ice_density"]
    tm = c["zero_temperature"]

    def oracle(case, rec):
        g = common.make_grid(case["col"], case["fresh"])
        for k, v in enumerate(case["stale"][:len(case["col"])]):
            g.set_node_refreeze(k, v)   # left over from the previous step
        b = common.state(g)
        want, want_ref = ref.refreeze(b, c)
        total = float(refreezing(g))
        a = common.state(g)
        per = [float(x) for x in g.get_refreeze()]
        expect(len(a) == len(b), "layer-count", f"{len(b)} -> {len(a)}")
        expect(common.close(total, math.fsum(per), 1e-9, 1e-15), "total-not-sum", f"{total} vs {per}")
        expect(common.close(common.swe(b, c), common.swe(a, c), 1e-10), "mass-not-conserved",
               lambda: f"{common.swe(b, c)!r} -> {common.swe(a, c)!r}")
        for k, (x, y) in enumerate(zip(b, a)):
            d = x[2] - y[2]
            expect(x[0] == y[0], "height-changed", f"layer {k}")
            expect(d >= 0 and y[2] >= 0, "water-bounds", f"layer {k}: {x} -> {y}")
            expect(common.close(d * x[0], per[k], 1e-9, 1e-15), "layer-refreeze", f"layer {k}: {d * x[0]} vs {per[k]}")
            expect(common.close((y[3] - x[3]) * ri, d * rw, 1e-9, 1e-9), "layer-mass", f"layer {k}: {x} -> {y}")
            expect(y[1] >= x[1], "cools", f"layer {k}: {x} -> {y}")
            expect(y[1] <= tm + 1e-6, "above-melting", f"layer {k}: {x} -> {y}")
            # the warming takes up exactly the latent heat
            lat = d * rw * c["lat_heat_melting"]
            cap = c["spec_heat_ice"] * ri * y[3] + c["spec_heat_water"] * rw * y[2]
            expect(common.close((y[1] - x[1]) * cap, lat, 1e-8, 1e-3), "latent-heat", f"layer {k}: {x} -> {y}")
            rec.hit("limited by water", d > 0 and y[2] == 0)
            rec.hit("limited by pores", d > 0 and y[2] > 0 and abs(common.density([y[0], y[1], 0.0, y[3]], c) - c["snow_ice_threshold"]) < 1e-6)
            rec.hit("at melting point with water", x[1] == tm and x[2] > 0)
        diff = common.same_state(a, want, 1e-10, 1e-13)
        expect(diff is None, "reference", diff)
        for k, (u, v) in enumerate(zip(per, want_ref)):
            expect(common.close(u, v, 1e-9, 1e-15), "reference-refreeze", f"layer {k}: {u} expected {v}")
        expect(tuple(g.get_fresh_snow_props()) == tuple(case["fresh"]), "fresh-snow-props", "changed")
        rec.hit("limited by cold", any(x[2] > 0 and y[2] > 0 and x[2] > y[2] for x, y in zip(b, a)))
        rec.nontrivial(sum(1 for v in per if v > 0) >= 1 and len(b) >= 2)

    case = st.fixed_dictionaries({
        "col": common.columns(1, 10, hlo=0.001, hhi=2.0, tlo=200.0),
        "stale": st.lists(common.fl(0, 0.1), max_size=10),
        "fresh": common.fresh_props().map(list)})
    return [Search("refreeze", case, oracle, "several layers, and water refreezes in at least one",
                   quick=1500, thorough=40000)]

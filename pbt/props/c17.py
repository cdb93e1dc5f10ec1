"""C17 densification."""
from hypothesis import strategies as st

from pbt import common, ref
from pbt.engine import Search, expect

ID = "C17"
LEVEL = "exploration"
VARIANTS = {m: {"constants": {"densification_method": m}, "shards": {"thorough": 2}}
            for m in ("Boone", "empirical", "constant", "Vionnet")}
ASSUMPTIONS = ["snow of 60-899 kg m-3 over ice (dry and wet layers), steps of 10 min - 3 h",
               "Vionnet, which the shipped constants file marks as erroneous, is held to the invariants on dry snow only, "
               "not to a reference"]


def searches(variant):
    from hypothesis import assume

    from cosipy.modules.densification import densification
    c = common.consts()
    method = c["densification_method"]

    def oracle(case, rec):
        col, slope, dt = case["col"], case["slope"], case["dt"]
        g = common.make_grid(col, case["fresh"])
        b = common.state(g)
        if method != "Vionnet":
            want = ref.densify(b, slope, dt, c)
            assume(all(y[0] > 0.2 * x[0] for x, y in zip(b, want)))
        densification(g, slope, dt)
        a = common.state(g)
        if method == "Vionnet":
            assume(all(not y[0] < 0.3 * x[0] for x, y in zip(b, a)))
        expect(len(a) == len(b), "layer-count", "")
        nsnow = sum(1 for x in b if ref.is_snow(x, c))
        for k, (x, y) in enumerate(zip(b, a)):
            expect(x[1] == y[1], "temperature-changed", f"layer {k}: {x} -> {y}")
            if k >= nsnow or method == "constant":
                expect(x == y, "ice-touched", f"layer {k}: {x} -> {y}")
                continue
            expect(0 < y[0] <= x[0], "height-grows", f"layer {k}: {x} -> {y}")
            expect(y[3] >= x[3] - 1e-3, "ice-fraction-shrinks", f"layer {k}: {x} -> {y}")
            if x[2] == 0.0:
                expect(y[2] == 0.0, "water-appears", f"layer {k}: {x} -> {y}")
            expect(y[0] * y[2] <= x[0] * x[2] * (1 + 1e-9), "water-created", f"layer {k}: {x} -> {y}")
            if x[2] == 0.0 and method in ("Boone", "Vionnet"):
                strain = 1 - y[0] / x[0]
                expect(abs(y[0] * y[3] / (x[0] * x[3]) - 1) <= 2 * strain ** 2 + 1e-9, "dry-mass",
                       f"layer {k}: {x} -> {y}")
        if method != "Vionnet":
            d = common.same_state(a, want, 1e-9)
            expect(d is None, "reference", d)
        if method in ("Boone", "Vionnet") and nsnow >= 2 and case["heavier"] and all(x[2] == 0.0 for x in b):
            # more load on top never compacts the layers below less
            top = [list(x) for x in col]
            top[0][0] = top[0][0] * 2
            g2 = common.make_grid(top)
            b2 = common.state(g2)
            densification(g2, slope, dt)
            a2 = common.state(g2)
            for k in range(1, nsnow):
                s1, s2 = a[k][0] / b[k][0], a2[k][0] / b2[k][0]
                expect(s2 <= s1 + 1e-12, "overburden", f"layer {k}: {s1} without, {s2} with twice the load")
        expect(tuple(g.get_fresh_snow_props()) == tuple(case["fresh"]), "fresh-snow-props", "")
        rec.hit("wet layer", any(x[2] > 0 for x in b[:nsnow]))
        rec.hit("layer at or below the minimum height", any(x[0] <= c["minimum_snow_layer_height"] for x in b[:nsnow]))
        rec.hit("no snow", nsnow == 0)
        rec.hit("firn denser than 600", any(common.density(x, c) > 600 for x in b[:nsnow]))
        rec.nontrivial(nsnow >= 2 and (any(y[0] < x[0] for x, y in zip(b, a)) or method == "constant"))

    def mass(case, rec):
        """Compaction squeezes out air, not ice or water: every layer keeps its
        mass (to second order in the strain, which is how the scheme is built)."""
        g = common.make_grid(case["col"])
        b = common.state(g)
        densification(g, 0.0, case["dt"])
        a = common.state(g)
        for k, (x, y) in enumerate(zip(b, a)):
            m0 = x[0] * (x[3] * c["ice_density"] + x[2] * c["water_density"])
            m1 = y[0] * (y[3] * c["ice_density"] + y[2] * c["water_density"])
            s = 1 - y[0] / x[0]
            what = "wet" if x[2] > 0 else "dry"
            expect(abs(m1 - m0) <= (2 * s * s + 1e-5) * m0, f"layer-mass:{method}:{what}",
                   f"layer {k}: {x} -> {y}, {m0} -> {m1} kg m-2")
            rec.nontrivial(s > 1e-4)

    snow = st.one_of(
        common.layer("snow", False, 0.0005, 1.0, 240.0), common.layer("snow", method != "Vionnet", 0.005, 1.0, 240.0),
        common.layer("thr", False, 0.01, 1.0, 240.0))

    def stack(t):
        s, i = t
        s = [x for x in s if ref.is_snow(x, c)]
        return s + i
    col = st.tuples(st.lists(snow, max_size=6), st.lists(common.layer("ice", False), min_size=1, max_size=3)).map(stack)
    case = st.fixed_dictionaries({
        "col": col, "slope": st.sampled_from([0.0, 0.0, 10.0, 30.0]) if method != "Vionnet" else st.just(0.0),
        "dt": st.sampled_from([3600, 3600, 600, 10800]), "heavier": st.booleans(),
        "fresh": common.fresh_props().map(list)})
    wetcase = st.fixed_dictionaries({"col": st.lists(common.layer("snow", method != "Vionnet", 0.01, 1.0, 260.0), min_size=1, max_size=3).filter(
        lambda t: all(ref.is_snow(x, c) for x in t)), "dt": st.just(3600)})
    return [Search("mass", wetcase, mass, "a layer compacts by more than 0.01 %", quick=80, thorough=1000),
            Search("compaction", case, oracle, "at least 2 snow layers, something compacts (or the method is constant)",
                   quick=700, thorough=20000)]

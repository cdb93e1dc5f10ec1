"""C11 remeshing."""
from hypothesis import strategies as st

from pbt import common, ref
from pbt.engine import Search, expect

ID = "C11"
LEVEL = "exploration"
VARIANTS = {
    "log": {"shards": {"thorough": 2}},
    "log-coarse": {"constants": {"first_layer_height": 0.02, "layer_stretching": 1.5}, "shards": {"thorough": 2}},
    "adaptive": {"constants": {"remesh_method": "adaptive_profile"}, "shards": {"thorough": 2}},
    "adaptive-eager": {"constants": {"remesh_method": "adaptive_profile", "density_threshold_merging": 60,
                                     "temperature_threshold_merging": 0.5, "merge_max": 3}, "shards": {"thorough": 2}},
}
ASSUMPTIONS = ["snow (dry or wet) over at least 1 m of ice, also with ice lenses; a layer thinner than the minimum layer "
               "height may be dropped, nothing else may disappear"]


def searches(variant):
    c = common.consts()
    log = c["remesh_method"] == "log_profile"

    def check(g, rec, tag):
        b = common.state(g)
        n0 = len(b)
        fresh = tuple(g.get_fresh_snow_props())
        try:
            want, removed = ref.update_grid(b, c)
        except ref.Ambiguous:
            want, removed = None, []
        g.update_grid()
        a = common.state(g)
        expect(g.get_number_layers() == len(a) and len(a) >= 1, f"layer-count{tag}", "")
        lim = c["minimum_snow_layer_height"]
        # what may vanish: layers thinner than the minimum
        tol = 1e-9 if want is not None and not removed else 1e-9 + lim * 3
        for name, f in (("water", common.water), ("ice", common.ice), ("depth", common.depth)):
            x, y = f(b), f(a)
            if want is not None:
                x -= f(removed)
            expect(abs(x - y) <= (1e-9 * max(1, x) if want is not None else tol), f"not-conserved:{name}{tag}", lambda: f"{x!r} -> {y!r} from {b}")
        for r in removed:
            expect(r[0] <= lim * (1 + 1e-9), f"thick-layer-dropped{tag}", f"{r}")
        hx = sum(x[0] * x[1] for x in b) - sum(x[0] * x[1] for x in removed)
        hy = sum(x[0] * x[1] for x in a)
        if want is not None:
            expect(common.close(hx, hy, 1e-9), f"heat{tag}", f"{hx} -> {hy}")
        lo, hi = min(x[1] for x in b), max(x[1] for x in b)
        ilo, ihi = min(x[3] for x in b), max(x[3] for x in b)
        for k, x in enumerate(a):
            expect(x[0] > 0 and x[2] >= 0, f"degenerate-layer{tag}", f"layer {k}: {x}")
            expect(lo - 1e-9 <= x[1] <= hi + 1e-9 and ilo - 1e-9 <= x[3] <= ihi + 1e-9, f"new-extremes{tag}", f"layer {k}: {x}")
        expect(a[0][0] >= lim * (1 - 1e-9), f"thin-top{tag}", f"{a[0]}")
        expect(tuple(g.get_fresh_snow_props()) == fresh, f"fresh-props{tag}", "")
        if want is not None:
            d = common.same_state(a, want, 1e-8, 1e-11)
            expect(d is None, f"reference{tag}", lambda: f"{d}; from {b}")
            rec.hit("compared with the reference mesh")
        if not log and len(a) > 1 and ref.is_snow(a[0], c) == ref.is_snow(a[1], c) and want is not None and not removed:
            expect(a[0][0] <= c["first_layer_height"] * (1 + 1e-9), "first-layer-height", f"{a[0]}")
        return n0 != len(a), b, a

    def oracle(case, rec):
        col = [list(x) for x in case["snow"]] + [list(x) for x in case["ice"]]
        if case["similar"]:  # near-duplicates, as an evolving snow pack has them
            for k in range(1, len(case["snow"])):
                col[k][1] = min(common.TM, col[k - 1][1] + 0.004 * (k % 3))
                col[k][3] = min(0.9, col[k - 1][3] + 0.002 * (k % 4))
                col[k][2] = min(col[k][2], 1 - col[k][3])
        depth_ice = sum(x[0] for x in col[len(case["snow"]):])
        if depth_ice < 1.0:
            col[-1][0] += 1.0
        g = common.make_grid(col, case["fresh"])
        changed, b, a = check(g, rec, "")
        n = 1 if changed else 0
        for step in case["then"]:
            kind, v = step
            if kind == "snow":
                g.add_fresh_snow(0.002 + 0.3 * v * v, 80 + 300 * v, 250 + 20 * v, 0.0, 3600)
            elif kind == "melt":
                s = common.state(g)
                mass = sum(x[0] * common.density(x, c) for x in s) / 1000.0
                g.remove_melt_weq(min(0.02 * v, 0.5 * mass))
            elif kind == "wet":
                g.set_node_liquid_water_content(0, 0.3 * v * max(0.0, 1 - g.get_node_ice_fraction(0)))
            changed, b, a = check(g, rec, ":later")
            n += changed
        rec.hit("no snow", not case["snow"])
        rec.hit("thin snow", bool(case["snow"]) and sum(x[0] for x in case["snow"]) < c["first_layer_height"])
        rec.hit("wet snow", any(x[2] > 0 for x in case["snow"]))
        rec.nontrivial(n >= 1 and len(case["snow"]) >= 2)

    lay = st.one_of(common.layer("snow", True, 0.002, 0.4), common.layer("snow", False, 0.0005, 0.05),
                    common.layer("snow", False, 0.01, 0.4), common.layer("thr", False, 0.01, 0.2))
    case = st.fixed_dictionaries({
        "snow": st.lists(lay, max_size=7), "ice": st.lists(common.layer("ice", False, 0.05, 1.0), min_size=1, max_size=4),
        "similar": st.booleans(), "fresh": common.fresh_props().map(list),
        "then": st.lists(st.tuples(st.sampled_from(["snow", "melt", "wet", "none"]), common.fl(0, 1)).map(list), max_size=4)})
    return [Search("remesh", case, oracle, "at least 2 snow layers and remeshing changes the number of layers",
                   quick=450, thorough=15000)]

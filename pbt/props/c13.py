"""C13 percolation: bucket scheme, water conserved, nothing else touched."""
from hypothesis import strategies as st

from pbt import common, ref
from pbt.engine import Search, expect

ID = "C13"
LEVEL = "exploration"
VARIANTS = {"default": {"shards": {"thorough": 4}}}
ASSUMPTIONS = ["columns of 1-14 layers, heights 1 mm - 3 m, ice fraction 0.05-1, surface water 0-1 m w.e."]


def searches(variant):
    from cosipy.modules.percolation import percolation

    def oracle(case, rec):
        rec.hit("single layer", len(case["col"]) == 1)
        g = common.make_grid(case["col"], case["fresh"])
        before = common.state(g)
        total = common.water(before)
        want, want_q = ref.percolate(before, case["water"])
        q = float(percolation(g, case["water"], 3600))
        after = common.state(g)
        expect(len(after) == len(before), "layer-count", f"{len(before)} -> {len(after)} layers")
        expect(common.close(total + case["water"], common.water(after) + q, 1e-9, 1e-12), "water-not-conserved",
               lambda: f"in {total + case['water']!r} out {common.water(after) + q!r}")
        expect(q >= 0, "negative-runoff", f"{q}")
        expect(after[-1][2] == 0.0, "bottom-keeps-water", f"{after[-1][2]}")
        for k, (b, a) in enumerate(zip(before, after)):
            expect(a[2] >= 0, "negative-lwc", f"layer {k} {a[2]}")
            expect(a[0] == b[0] and a[1] == b[1] and a[3] == b[3], "touches-other-state",
                   lambda: f"layer {k}: {b} -> {a}")
            if k < len(after) - 1:
                expect(a[2] <= ref.irreducible(a[3]) + 1e-12, "above-irreducible", f"layer {k} keeps {a[2]}")
        d = common.same_state(after, want)
        expect(d is None, "bucket-cascade", d)
        expect(common.close(q, want_q), "runoff", f"{q} expected {want_q}")
        expect(tuple(g.get_fresh_snow_props()) == tuple(case["fresh"]), "fresh-snow-props", "changed by percolation")
        moved = sum(1 for b, a in zip(before, after) if a[2] != b[2])
        rec.hit("runoff", q > 0)
        rec.hit("ice layer on the way", any(x[3] > 0.812 for x in before[:-1]))
        rec.hit("no supply", case["water"] == 0)
        rec.nontrivial(moved >= 2 and len(before) >= 3)

    case = st.fixed_dictionaries({
        "col": common.columns(1, 14, hlo=0.001, hhi=3.0),
        "water": st.one_of(st.just(0.0), common.fl(0.0, 0.01), common.fl(0.0, 1.0), common.logfl(1e-9, 0.1)),
        "fresh": common.fresh_props().map(list)})
    return [Search("bucket", case, oracle, "at least 3 layers and the water content of at least 2 of them changes",
                   quick=1500, thorough=40000)]

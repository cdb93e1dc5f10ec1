"""C21 removal of melt from the top of the column."""
from hypothesis import strategies as st

from pbt import common, ref
from pbt.engine import Search, expect

ID = "C21"
LEVEL = "exploration"
VARIANTS = {"default": {"shards": {"thorough": 4}}}
ASSUMPTIONS = ["the removed amount is counted in the layers' bulk mass (ice, water and air), as the model does; at most the "
               "whole column is removed"]


def searches(variant):
    c = common.consts()

    def bulk(s):
        return sum(x[0] * common.density(x, c) for x in s) / c["water_density"]

    def oracle(case, rec):
        g = common.make_grid(case["col"], case["fresh"])
        b = common.state(g)
        amount = case["share"] * bulk(b) if case["share"] is not None else case["amount"]
        if amount >= bulk(b) * (1 - 1e-6):
            amount = 0.5 * bulk(b)
        if case["exact"] and len(b) > 1:  # exactly the first layer
            amount = b[0][0] * (common.density(b[0], c) / c["water_density"])
        out = float(g.remove_melt_weq(amount))
        a = common.state(g)
        want, lwc, lost, left = ref.remove_melt(b, amount, c)
        removed = len(b) - len(a)
        expect(0 <= removed < len(b), "layer-count", f"{len(b)} -> {len(a)}")
        if amount <= 0:
            expect(a == b and out == 0.0, "non-melt-changes-layers", "")
            expect(common.close(g.get_fresh_snow_props()[0], case["fresh"][0] - amount), "fresh-height", "")
            return
        expect(a[1:] == b[removed + 1:], "lower-layers-touched", lambda: f"{b} -> {a}")
        expect(common.close(bulk(b) - bulk(a), amount, 1e-7, 1e-10), "mass-removed",
               lambda: f"asked {amount}, removed {bulk(b) - bulk(a)}")
        expect(a[0][1:] == b[removed][1:] and 0 <= a[0][0] <= b[removed][0] * (1 + 1e-12), "top-layer-state", f"{b[removed]} -> {a[0]}")
        expect(common.close(out, sum(x[0] * x[2] for x in b[:removed]), 1e-9), "released-water",
               f"{out}, the removed layers held {sum(x[0] * x[2] for x in b[:removed])}")
        if len(want) == len(a):
            d = common.same_state(a, want, 1e-8)
            expect(d is None, "reference", d)
        fresh = [float(x) for x in g.get_fresh_snow_props()]
        expect(common.close(fresh[0], case["fresh"][0] - lost, 1e-7, 1e-9), "fresh-height",
               f"fresh snow {case['fresh'][0]} -> {fresh[0]}, {lost} m melted")
        expect(fresh[1:] == case["fresh"][1:], "fresh-timestamps", "")
        rec.hit("several layers", removed >= 2)
        rec.hit("wet layers removed", out > 0)
        rec.hit("exactly one layer", bool(case["exact"]))
        rec.nontrivial(removed >= 1)

    return [Search("melt", st.fixed_dictionaries({
        "col": common.columns(2, 8, hlo=0.002, hhi=1.0), "fresh": common.fresh_props().map(list),
        "share": st.one_of(st.none(), common.fl(0.0, 0.99)), "amount": st.one_of(common.fl(-0.001, 0.01), common.logfl(1e-6, 1.0), st.just(0.0)),
        "exact": st.sampled_from([False, False, False, True])}),
        oracle, "at least one layer melts away completely", quick=1200, thorough=40000)]

"""C15 heat conduction."""
from hypothesis import strategies as st

from pbt import common, ref
from pbt.engine import Search, expect

ID = "C15"
LEVEL = "exploration"
VARIANTS = {"bulk": {"shards": {"thorough": 2}},
            "empirical": {"constants": {"thermal_conductivity_method": "empirical"}, "shards": {"thorough": 2}}}
ASSUMPTIONS = ["columns of 3-12 layers of 5 mm - 2 m; integration times 60 s - 1 day",
               "the scheme is the documented explicit one on layer centres with averaged diffusivities and fixed "
               "end temperatures; the reference integrates the same scheme independently"]


def searches(variant):
    from cosipy.modules.heatEquation import solveHeatEquation
    c = common.consts()

    def run(col, dt, temps=None):
        g = common.make_grid(col)
        if temps is not None:
            for k, t in enumerate(temps):
                g.set_node_temperature(k, float(t))
        solveHeatEquation(g, dt)
        return g

    def oracle(case, rec):
        col, dt = case["col"], case["dt"]
        g = common.make_grid(col, case["fresh"])
        b = common.state(g)
        solveHeatEquation(g, dt)
        a = common.state(g)
        tb, ta = [x[1] for x in b], [x[1] for x in a]
        expect(len(a) == len(b), "layer-count", "")
        expect(all(x[0] == y[0] and x[2] == y[2] and x[3] == y[3] for x, y in zip(b, a)), "touches-other-state",
               lambda: f"{b} -> {a}")
        expect(tuple(g.get_fresh_snow_props()) == tuple(case["fresh"]), "fresh-snow-props", "")
        expect(ta[0] == tb[0] and ta[-1] == tb[-1], "boundary-moved", f"{tb[0]}->{ta[0]}, {tb[-1]}->{ta[-1]}")
        lo, hi = min(tb), max(tb)
        expect(all(lo - 1e-9 <= t <= hi + 1e-9 for t in ta), "maximum-principle", lambda: f"{tb} -> {ta}")
        want = ref.heat(b, c, dt)
        for k, (u, v) in enumerate(zip(ta, want)):
            expect(abs(u - v) <= 1e-7, "reference", f"layer {k}: {u!r} expected {v!r}")
        # turning the column upside down turns the solution upside down
        if case["flip"]:
            rf = common.state(run(list(reversed(col)), dt))
            tf = [x[1] for x in rf][::-1]
            expect(all(abs(u - v) <= 1e-7 for u, v in zip(ta, tf)), "reflection", lambda: f"{ta} vs {tf}")
        # the equation is linear: an offset is carried along
        if case["offset"]:
            o = case["offset"]
            ro = [x[1] for x in common.state(run(col, dt, [t + o for t in tb]))]
            expect(all(abs(u + o - v) <= 1e-6 for u, v in zip(ta, ro)), "offset", lambda: f"{ta} vs {ro}")
        rec.hit("several sub-steps", max(abs(u - v) for u, v in zip(ta, tb)) > 0.5)
        rec.hit("uniform profile", hi == lo)
        rec.hit("three layers", len(col) == 3)
        rec.nontrivial(len(col) >= 3 and max(abs(u - v) for u, v in zip(ta, tb)) > 1e-3)

    case = st.fixed_dictionaries({
        "col": st.one_of(common.columns(3, 10, hlo=0.01, hhi=1.0), common.columns(3, 5, hlo=0.005, hhi=2.0),
                         common.columns(3, 12, hlo=0.01, hhi=0.6, order="stacked")),
        "dt": st.sampled_from([3600, 3600, 600, 1800, 60, 10800, 86400]),
        "flip": st.booleans(), "offset": st.sampled_from([0.0, 0.0, -20.0, 3.5]),
        "fresh": common.fresh_props().map(list)})
    return [Search("conduction", case, oracle, "at least 3 layers and some interior temperature moves by > 1 mK",
                   quick=500, thorough=15000)]

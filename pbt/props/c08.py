"""C08 the past does not depend on the future, and runs do not depend on each other."""
from hypothesis import strategies as st

from pbt import common, runs
from pbt.engine import Search, expect

ID = "C08"
LEVEL = "exploration"
VARIANTS = {
    "default": {"config": {"full_field": True}, "shards": {"thorough": 3}},
    "bougamont-adaptive": {"config": {"full_field": True}, "constants": {"albedo_method": "Bougamont05", "remesh_method": "adaptive_profile",
                                                                         "stability_correction": "MO", "mult_factor_RRR": 1.3},
                           "shards": {"thorough": 2}},
}
ASSUMPTIONS = ["runs of up to 100 steps in one process"]


def searches(variant):
    import numpy as np
    from cosipy.cpkernel.cosipy_core import cosipy_core
    c = common.consts()

    def compare(a, b, n, sig, lab):
        for k in runs.SERIES:
            expect(np.array_equal(a[k][:n], b[k][:n], equal_nan=True), f"{sig}:{k}", lambda: f"{lab}: {a[k][:n]} against {b[k][:n]}")
        for k in runs.FIELDS:
            expect(np.array_equal(np.asarray(a[k])[:n], np.asarray(b[k])[:n], equal_nan=True), f"{sig}:{k}", lab)

    def same_restart(a, b, sig):
        for v in ("NLAYERS", "NEWSNOWHEIGHT", "NEWSNOWTIMESTAMP", "OLDSNOWTIMESTAMP", "LAYER_HEIGHT", "LAYER_RHO", "LAYER_T", "LAYER_LWC", "LAYER_IF"):
            expect(np.array_equal(a["RESTART"][v].values, b["RESTART"][v].values, equal_nan=True), f"{sig}:restart:{v}", "")

    def make(steps, case):
        ds = runs.dataset(steps, snowheight=case["snowheight"])
        rs = runs.restart_dataset(case["col"], case["fresh"], c) if case["col"] is not None else None
        return ds, rs

    def oracle(case, rec):
        head, tail, other = (runs.expand(case[k]) for k in ("head", "tail", "other"))
        n = len(head)
        ds, rs = make(head + tail, case)
        rs0 = rs.copy(deep=True) if rs is not None else None
        a = runs.run(ds, rs)
        short = runs.run(make(head, case)[0], make(head, case)[1])
        compare(a, short, n, "future-changes-past", "the same start continued differently")
        swapped = runs.run(*make(head + other, case))
        compare(a, swapped, n, "future-changes-past", "the same start continued with other weather")
        b = runs.run(ds, rs)  # the runs in between must not have left a trace
        compare(a, b, n + len(tail), "not-repeatable", "the same run again")
        same_restart(a, b, "not-repeatable")
        if rs is not None:
            expect(rs.identical(rs0), "start-state-modified", "")
        work = ds.copy(deep=True)
        cosipy_core(work, 0, 0, GRID_RESTART=rs)
        expect(work.drop_vars("G").identical(ds.drop_vars("G")), "forcing-modified", "")
        expect(np.array_equal(work.G.values, np.maximum(ds.G.values, 0.0)), "forcing-modified", "G")
        rec.hit("other layer count at the end", a["LAYERS"][-1] != a["LAYERS"][0])
        rec.nontrivial(n >= 3 and len(tail) >= 3 and bool((a["surfM"] > 0).any()))

    case = st.fixed_dictionaries({"head": runs.forcing(4, 10), "tail": runs.forcing(3, 8), "other": runs.forcing(3, 8),
                                  "col": st.one_of(st.none(), runs.start_column()), "fresh": common.fresh_props().map(list),
                                  "snowheight": st.one_of(st.none(), common.fl(0.0, 1.5))})
    return [Search("causality", case, oracle, "at least 3 steps before and after the split, with melt", quick=90, thorough=3000, cap_quick=75.0)]

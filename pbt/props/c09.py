"""C09 a restarted run continues exactly where the first one stopped."""
from hypothesis import strategies as st

from pbt import common, driver, grids, runs
from pbt.engine import Search, expect

ID = "C09"
LEVEL = "exploration"
_F = {"full_field": True, "compression_level": 1}
VARIANTS = {
    "default": {"config": _F, "shards": {"thorough": 3}},
    "adaptive-mo": {"config": _F, "constants": {"remesh_method": "adaptive_profile", "stability_correction": "MO", "densification_method": "empirical"},
                    "shards": {"thorough": 2}},
    "bougamont": {"config": _F, "constants": {"albedo_method": "Bougamont05"}},
}
ASSUMPTIONS = ["the cluster is replaced by a stand-in that runs the jobs in this process on pickled copies; domains up to 2 x 2, up to about 40 steps",
               "values agree to the last digits (files store double precision)"]


def searches(variant):
    import numpy as np
    import pandas as pd
    consts = VARIANTS[variant].get("constants")

    def label(t):
        return pd.Timestamp(t).strftime("%Y-%m-%dT%H:%M")

    def oracle(case, rec):
        steps = runs.expand(case["met"])
        while len(steps) < 3:
            steps = steps * 2
        dom = case["dom"]
        if variant == "bougamont":
            dom = dict(dom, ny=1, nx=1, mask=[[1]])
        ds = grids.dataset(steps, dom)
        driver.clean()
        name = driver.write_input(ds)
        time = [label(t) for t in ds.time.values]
        n = len(time)
        cuts = sorted({min(1 + int(f * (n - 1)), n - 1) for f in case["cuts"]})
        base = dict(_F, input_netcdf=name, time_start=time[0], time_end=time[-1], restart=False, output_prefix="run")
        made = driver.main(base, consts)
        full = driver.load_nc([f for f in made if f.startswith("output")][0])
        last = driver.load_nc([f for f in made if f.startswith("restart")][0])
        driver.clean()
        start = 0
        for j, k in enumerate(cuts + [n]):
            cfg = dict(base, time_start=time[start - 1] if start else time[0], time_end=time[k - 1], restart=start > 0, output_prefix=f"part{j}")
            made = driver.main(cfg, consts)
            expect(len(made) == 2, "files", lambda: f"{made}")
            part = driver.load_nc([f for f in made if f.startswith("output")][0])
            want = full.isel(time=slice(start, k))
            expect(np.array_equal(part.time.values, want.time.values), "time-axis", lambda: f"{part.time.values} against {want.time.values}")
            expect(set(part.data_vars) == set(want.data_vars), "variables", "")
            first = {"RAIN", "SNOWFALL", "LWin", "HGT", "MASK", "SLOPE", "ASPECT", "T2", "RH2", "U2", "PRES", "N", "G"}
            lost = False
            for v in sorted(part.data_vars, key=lambda v: (v not in first, v)):
                a, b = part[v].values, want[v].values
                if v not in first and lost:
                    continue
                if v not in first and variant == "bougamont" and start and not np.allclose(
                        part.ALBEDO.isel(time=0).values, want.ALBEDO.isel(time=0).values, rtol=1e-9, atol=1e-9, equal_nan=True):
                    lost = True  # reported below, once everything the albedo does not reach has been compared
                    expect(np.allclose(part.Z0.isel(time=0).values, want.Z0.isel(time=0).values, equal_nan=True), "continued-run:Z0", "first step")
                    continue
                expect(a.shape == b.shape and np.allclose(a, b, rtol=1e-9, atol=1e-9, equal_nan=True), f"continued-run:{v}",
                       lambda: f"part {j} of {len(cuts) + 1} (from step {start}): {v} {a.ravel()[:6]} against {b.ravel()[:6]}")
            expect(not lost, "bougamont-state-lost", lambda: f"the albedo of the first step after the restart is {part.ALBEDO.values.ravel()[0]}, {want.ALBEDO.values.ravel()[0]} without restart")
            start = k
        end = driver.load_nc([f for f in made if f.startswith("restart")][0])
        for v in last.data_vars:
            expect(np.allclose(end[v].values, last[v].values, rtol=1e-9, atol=1e-9, equal_nan=True), f"restart-state:{v}", "")
        rec.hit("several restarts", len(cuts) > 1)
        rec.hit("continued by a single step", any(b - a == 1 for a, b in zip(cuts, cuts[1:] + [n])))
        rec.hit("several cells", sum(map(sum, dom["mask"])) > 1)
        rec.hit("wet snow at the cut", bool(np.nansum(full.LAYER_LWC.isel(time=cuts[0] - 1).values) > 0))
        rec.nontrivial(n >= 6 and bool(np.nansum(full.surfM.values) > 0))

    c = common.consts()

    def chain(case, rec):
        """One point, no files: the state a run ends with starts the next one."""
        steps = runs.expand(case["met"])
        if len(steps) < 4:
            steps = steps * 4
        n = len(steps)
        ds = runs.dataset(steps, names=("T2", "RH2", "U2", "G", "PRES", "RRR", "LWin", "N") if case["cloud"] else
                          ("T2", "RH2", "U2", "G", "PRES", "RRR", "LWin"), slope=case["slope"])
        rs = runs.restart_dataset(case["col"], case["fresh"], c)
        full = runs.run(ds, rs)
        cuts = sorted({min(1 + int(f * (n - 1)), n - 1) for f in case["cuts"]})
        state, start = rs, 0
        for k in cuts + [n]:
            part = runs.run(ds.isel(time=slice(start, k)), state)
            for v in runs.SERIES:
                expect(np.allclose(part[v], full[v][start:k], rtol=1e-9, atol=1e-9, equal_nan=True), f"chain:{v}",
                       lambda: f"steps {start}-{k} of {n}: {part[v][:5]} against {full[v][start:k][:5]}")
            for v in runs.FIELDS:
                expect(np.allclose(np.asarray(part[v]), np.asarray(full[v])[start:k], rtol=1e-9, atol=1e-9, equal_nan=True), f"chain:{v}",
                       lambda: f"steps {start}-{k} of {n}")
            rec.hit("fresh snow melted away at the cut", k < n and full["new_snow_height"][k - 1] <= 0 and full["SNOWHEIGHT"][k - 1] > 0)
            rec.hit("fresh snow at the cut", k < n and full["new_snow_height"][k - 1] > 0)
            rec.hit("bare ice at the cut", k < n and full["SNOWHEIGHT"][k - 1] == 0)
            rec.hit("continued by a single step", k - start == 1 and start > 0)
            state, start = part["RESTART"], k
        for v in full["RESTART"].data_vars:
            expect(np.allclose(state[v].values, full["RESTART"][v].values, rtol=1e-9, atol=1e-9, equal_nan=True), f"chain-state:{v}",
                   lambda: f"{state[v].values} against {full['RESTART'][v].values}")
        rec.nontrivial(n >= 6 and bool((full["surfM"] > 0).any()))

    @st.composite
    def weather(draw):
        """Snowfalls and thaws in turn, so that the age of the surface changes between cuts."""
        out = []
        for kind in draw(st.lists(st.sampled_from(["snow", "thaw", "frost", "any"]), min_size=2, max_size=7)):
            if kind == "any":
                out.append(draw(runs.segment(5)))
                continue
            t = {"snow": common.fl(255.0, 272.0), "thaw": common.fl(274.0, 284.0), "frost": common.fl(248.0, 270.0)}[kind]
            out.append([draw(st.integers(1, 3) if kind == "snow" else st.integers(1, 6)), draw(t), draw(common.fl(30.0, 100.0)), draw(common.fl(0.5, 12.0)),
                        {"snow": 50.0, "thaw": 900.0, "frost": 0.0}[kind] * draw(common.fl(0.1, 1.2)), draw(common.fl(550.0, 900.0)),
                        draw(st.one_of(common.fl(0.1, 1.0), common.fl(0.1, 6.0))) if kind == "snow" else 0.0, draw(common.fl(0.0, 1.0))])
        return out

    old_snow = st.tuples(common.layer("snow", True, 0.1, 0.5, 265.0), runs.start_column()).map(lambda t: [[*t[0][:2], min(t[0][2], 0.05), max(0.3, t[0][3])]] + t[1])
    chained = st.fixed_dictionaries({
        "met": weather(), "col": st.one_of(runs.start_column(), old_snow), "fresh": common.fresh_props().map(list), "cloud": st.booleans(),
        "slope": st.sampled_from([None, 0.0, 20.0]), "cuts": st.lists(common.fl(0, 1), min_size=1, max_size=4)})
    case = st.fixed_dictionaries({"met": runs.forcing(5, 8), "dom": grids.domain(2), "cuts": st.lists(common.fl(0, 1), min_size=1, max_size=3)})
    q = {"bougamont": (12, 200)}.get(variant, (45, 1500))
    return [Search("chain", chained, chain, "at least 6 steps with melt", quick=150, thorough=8000, cap_quick=25.0, warm=True,
                   variants=("default", "adaptive-mo")),
            Search("restart", case, oracle, "at least 6 steps with melt", quick=q[0], thorough=q[1], cap_quick=20.0 if variant == "bougamont" else 45.0, warm=variant == "bougamont")]

"""C25 a distributed simulation is its cells simulated one by one; gaps in the forcing are refused."""
from hypothesis import strategies as st

from pbt import common, driver, grids, runs
from pbt.engine import Search, expect

ID = "C25"
LEVEL = "exploration"
_F = {"full_field": True, "compression_level": 1}
VARIANTS = {
    "default": {"config": _F, "shards": {"thorough": 3}},
    "cloud-boone": {"config": _F, "constants": {"remesh_method": "adaptive_profile", "albedo_method": "Bougamont05", "initial_snowheight_constant": 0.45},
                    "shards": {"thorough": 2}},
}
ASSUMPTIONS = ["the cluster is replaced by a stand-in that runs the jobs in this process on pickled copies, in a generated order of completion",
               "domains up to 4 x 4 cells, up to about 40 steps"]


def searches(variant):
    import numpy as np
    import pandas as pd
    consts = VARIANTS[variant].get("constants")
    names = ("T2", "RH2", "U2", "G", "PRES", "RRR", "N") if variant == "cloud-boone" else ("T2", "RH2", "U2", "G", "PRES", "RRR", "LWin")

    def label(t):
        return pd.Timestamp(t).strftime("%Y-%m-%dT%H:%M")

    def setting(case):
        dom = case["dom"]
        steps = runs.expand(case["met"])
        while len(steps) < 3:
            steps = steps * 2
        ds = grids.dataset(steps, dom, names=names)
        n = ds.sizes["time"]
        a = int(case["window"][0] * (n - 1))
        b = a + int(case["window"][1] * (n - a))
        tile = case["tile"]
        y0, y1, x0, x1 = 0, dom["ny"], 0, dom["nx"]
        if tile is not None:
            y0, x0 = int(tile[0] * dom["ny"]), int(tile[2] * dom["nx"])
            y1, x1 = y0 + 1 + int(tile[1] * (dom["ny"] - y0)), x0 + 1 + int(tile[3] * (dom["nx"] - x0))
        return ds, a, min(b, n - 1), (y0, min(y1, dom["ny"]), x0, min(x1, dom["nx"]))

    def config(ds, a, b, box, tile):
        cfg = dict(_F, input_netcdf=driver.write_input(ds), time_start=label(ds.time.values[a]), time_end=label(ds.time.values[b]), restart=False,
                   output_prefix="run", tile=tile is not None)
        if tile is not None:
            cfg.update(ystart=box[0], yend=box[1], xstart=box[2], xend=box[3])
        return cfg

    def cells(case, rec):
        ds, a, b, box = setting(case)
        mask = np.array(case["dom"]["mask"])[box[0]:box[1], box[2]:box[3]] == 1
        if not mask.any():
            return
        driver.clean()
        made = driver.main(config(ds, a, b, box, case["tile"]), consts, order=case["order"])
        expect(len(made) == 2, "files", f"{made}")
        out, res = [driver.load_nc([f for f in made if f.startswith(d)][0]) for d in ("output", "restart")]
        part = ds.isel(time=slice(a, b + 1), lat=slice(box[0], box[1]), lon=slice(box[2], box[3]))
        expect(out.sizes["lat"] == mask.shape[0] and out.sizes["lon"] == mask.shape[1] and out.sizes["time"] == b + 1 - a, "shape", f"{out.sizes}")
        first = {"RAIN", "SNOWFALL"}
        for y in range(mask.shape[0]):
            for x in range(mask.shape[1]):
                got = out.isel(lat=y, lon=x)
                if not mask[y, x]:
                    for v in runs.SERIES + runs.FIELDS:
                        if v in got and v not in ("T2", "RH2", "U2", "RRR", "N", "G", "PRES"):
                            expect(bool(np.isnan(got[v].values).all()), "outside-glacier", lambda: f"{v} at {y} {x}: {got[v].values}")
                    continue
                one = runs.run(part.isel(lat=y, lon=x))
                for v in sorted(runs.SERIES + runs.FIELDS, key=lambda v: v not in first):
                    if v in got and (v != "RRR"):
                        w = np.asarray(one[v], dtype=float)
                        expect(got[v].values.shape == w.shape and np.allclose(got[v].values, w, rtol=1e-10, atol=1e-10, equal_nan=True), f"cell:{v}",
                               lambda: f"cell {y} {x} of {mask.astype(int).tolist()}: {got[v].values.ravel()[:5]}, alone {w.ravel()[:5]}")
                local = one["RESTART"]
                for v in local.data_vars:
                    w = np.asarray(local[v].values, dtype=float).ravel()
                    expect(np.allclose(np.asarray(res[v].isel(lat=y, lon=x).values, dtype=float).ravel(), w, rtol=1e-10, atol=1e-10, equal_nan=True),
                           f"restart:{v}", lambda: f"cell {y} {x}")
        rec.hit("tile", case["tile"] is not None)
        rec.hit("masked cells", not mask.all())
        rec.hit("out of order", len(case["order"]) > 1)
        rec.nontrivial(int(mask.sum()) > 1)

    def gaps(case, rec):
        ds, a, b, box = setting(case)
        inside = np.array(case["dom"]["mask"])[box[0]:box[1], box[2]:box[3]] == 1
        if not inside.any():
            return
        v = names[int(case["gap"][0] * len(names))] if case["gap"][0] < 1 else "HGT"
        t, y, x = (int(f * k) for f, k in zip(case["gap"][1:], (ds.sizes["time"], ds.sizes["lat"], ds.sizes["lon"])))
        if "time" in ds[v].dims:
            ds[v].values[t, y, x] = np.nan
        else:
            ds[v].values[y, x] = np.nan
        hit = case["dom"]["mask"][y][x] == 1 and box[0] <= y < box[1] and box[2] <= x < box[3] and (v == "HGT" or a <= t <= b)
        driver.clean()
        cfg = config(ds, a, b, box, case["tile"])
        try:
            made = driver.main(cfg, consts)
        except SystemExit as e:
            expect(hit, "refused", lambda: f"{e}: nothing is missing in the cells and steps simulated ({v} {t} {y} {x})")
            expect(not driver.files(), "files-left", lambda: f"{driver.files()}")
            rec.hit("refused")
            rec.nontrivial()
            return
        expect(not hit, "gap-accepted", lambda: f"{v} is missing at step {t} of cell {y} {x}, run from {a} to {b} in {box}, wrote {made}")
        rec.hit("gap outside")
        rec.nontrivial()

    unit = st.floats(0, 0.999)
    base = {"dom": grids.domain(3, nmin_x=2), "window": st.tuples(st.one_of(st.just(0.0), unit), st.one_of(st.just(0.999), unit)),
            "tile": st.one_of(st.none(), st.none(), st.tuples(unit, unit, unit, unit)), "order": st.lists(common.fl(0, 1), max_size=9)}
    case = st.fixed_dictionaries({"met": runs.forcing(3, 8), **base})
    gap = st.fixed_dictionaries({"met": runs.forcing(1, 3), **base, "gap": st.tuples(common.fl(0, 1), unit, unit, unit)})
    return [Search("cells", case, cells, "several active cells", quick=60, thorough=1500, cap_quick=65.0),
            Search("gaps", gap, gaps, "a refusal, or a gap that does not matter", quick=40, thorough=1500, cap_quick=10.0)]

"""C23 the forcing handed to the model is the configured period and tile, in time order."""
import contextlib
import io
import os
import re
import warnings

from hypothesis import strategies as st

from pbt import common, driver, env, grids, runs
from pbt.engine import Search, expect

ID = "C23"
LEVEL = "exploration"
VARIANTS = {"default": {"shards": {"thorough": 3}}, "wrf": {"config": {"WRF": True}, "shards": {"thorough": 2}}}
ASSUMPTIONS = ["time stamps on whole minutes, each at most once, whole-minute start and end labels as in the shipped configuration"]
BOUNDS = dict(T2=(243.16, 313.16), RH2=(0, 100), G=(0, 1600), U2=(0, 50), RRR=(0, 20), N=(0, 1), PRES=(400, 1080), LWin=(200, 400), SNOWFALL=(0, 0.1), SLOPE=(0, 90))
DTS = [3600, 1800, 10800, 7200]


def searches(variant):
    import numpy as np
    import pandas as pd
    from cosipy.config import Config
    from cosipy.constants import Constants
    from cosipy.cpkernel.io import IOClass
    wrf = variant == "wrf"

    def label(t):
        return pd.Timestamp(t).strftime("%Y-%m-%dT%H:%M")

    def attempt(cfg, dt):
        """What the program makes of these settings: (dataset, sizes, warnings) or the refusal."""
        env.write_configs(os.getcwd(), cfg, {"dt": dt})
        Config()
        Constants()
        io = IOClass()
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            try:
                data = io.create_data_file()
            except (IndexError, SystemExit) as e:
                return type(e).__name__, str(e), io
        said = " ".join(str(x.message) for x in w)
        return data, ("startpoint before" in said, "endpoint after" in said), io

    def oracle(case, rec):
        driver.clean()
        dt, n, dom = case["dt"], case["n"], case["dom"]
        ny, nx = dom["ny"], dom["nx"]
        steps = (runs.expand(case["met"]) * n)[:n]
        ds = grids.dataset(steps, dom, dt=dt, start=case["start"])
        ds["T2"].values[:] += np.arange(n)[:, None, None] * 1e-3  # tell the steps apart
        if wrf:
            lon, lat = np.meshgrid(ds.lon.values, ds.lat.values)
            ds = ds.drop_vars(["lat", "lon"]).rename({"lat": "south_north", "lon": "west_east"})
            ds = ds.assign_coords(lat=(("south_north", "west_east"), lat), lon=(("south_north", "west_east"), lon))
        ydim, xdim = ("south_north", "west_east") if wrf else ("lat", "lon")
        stored = ds.isel(time=sorted(range(n), key=lambda k: case["order"][k % len(case["order"])])) if case["order"] else ds
        name = driver.write_input(stored)
        t = ds.time.values
        t0 = pd.Timestamp(t[0])
        first = t0 + pd.Timedelta(seconds=dt * case["from"][0] + 60 * case["from"][1])
        last = t0 + pd.Timedelta(seconds=dt * case["to"][0] + 60 * case["to"][1])
        if last < first:
            first, last = last, first
        tile = case["tile"]
        cfg = dict(input_netcdf=name, time_start=label(first), time_end=label(last), restart=case["restart"] is not None, WRF=wrf,
                   tile=tile is not None)
        if tile is not None:
            cfg.update(ystart=tile[0], yend=tile[1], xstart=tile[2], xend=tile[3])
        begin = first
        refused = None
        if case["restart"] is not None:
            if case["restart"] == "missing":
                refused = "SystemExit"
            else:
                os.makedirs("data/restart", exist_ok=True)
                rs = ds.isel(time=0, drop=True)[["HGT"]].assign_coords(time=np.datetime64(first))
                rs.to_netcdf(os.path.join("data", "restart", f"restart_{first.strftime('%Y-%m-%dT%H-%M')}.nc"))
                begin = first + pd.Timedelta(seconds=dt)
            if first == last:
                refused = "SystemExit"
        if refused is None and (first > t[-1] or last < t[0]):
            refused = "IndexError" if case["restart"] is None else "any"
        if refused is None and case["restart"] is not None and begin > last:
            refused = "SystemExit"
        want = ds.sel(time=(t >= np.datetime64(begin)) & (t <= np.datetime64(last)))
        if refused is None and want.sizes["time"] == 0:
            return  # the period falls between two stamps
        if tile is not None:
            want = want.isel({ydim: slice(tile[0], tile[1]), xdim: slice(tile[2], tile[3])})
            if 0 in want.sizes.values():
                return
            if not bool((want.MASK == 1).any()):
                return
        got, said, io = attempt(cfg, dt)
        if refused is not None:
            expect(isinstance(got, str), "not-refused", lambda: f"{cfg}: period outside {t[0]}..{t[-1]} or nothing to do, but {got}")
            expect(refused == "any" or got == refused, "wrong-refusal", lambda: f"{got} {said} for {cfg}")
            rec.hit("refused")
            return
        expect(not isinstance(got, str), "refused", lambda: f"{got}: {said} for {cfg}, input {t[0]}..{t[-1]}")
        expect(np.array_equal(got.time.values, want.time.values), "time", lambda: f"{got.time.values} instead of {want.time.values} for {cfg}")
        expect(set(got.data_vars) == set(want.data_vars), "variables", lambda: f"{sorted(got.data_vars)} {sorted(want.data_vars)}")
        for v in list(want.data_vars) + ["lat", "lon"]:
            expect(got[v].dims == want[v].dims and np.array_equal(got[v].values, want[v].values, equal_nan=True), f"values:{v}",
                   lambda: f"{v}: {got[v].values.ravel()[:8]} instead of {want[v].values.ravel()[:8]} for {cfg}")
        expect((io.ny, io.nx, io.time) == (want.sizes[ydim], want.sizes[xdim], want.sizes["time"]), "sizes", f"{io.ny} {io.nx} {io.time}")
        expect(said[0] == (first < t[0]), "warning-start", f"{said} {cfg}")
        expect(said[1] == (last > t[-1]), "warning-end", f"{said} {cfg}")
        rec.hit("tile", tile is not None)
        rec.hit("restart", case["restart"] is not None)
        rec.hit("shuffled", bool(case["order"]))
        rec.hit("partly outside", any(said))
        rec.hit("between stamps", case["from"][1] != 0 or case["to"][1] != 0)
        rec.nontrivial(0 < want.sizes["time"] < n)

    def bounds(case, rec):
        driver.clean()
        n, dom = 4, case["dom"]
        rng = np.random.default_rng(case["seed"])
        ds = grids.dataset(runs.expand(case["met"]), dom)
        ds = ds.isel(time=slice(0, n))
        want = {}
        for v, (kind, gap) in case["vars"].items():
            lo, hi = BOUNDS[v]
            shape = ds.MASK.shape if v == "SLOPE" else ds.T2.shape
            a = lo + (hi - lo) * (0.05 + 0.9 * rng.random(shape))
            if gap:
                a[rng.random(shape) < 0.2] = np.nan
            at = tuple(int(rng.integers(0, k)) for k in shape)
            if kind == "above":
                a[at] = hi + 0.02 * (hi - lo)
            elif kind == "below":
                a[at] = lo - 0.02 * (hi - lo)
            elif kind == "edge":
                a[at] = hi
            if kind == "edge" and a.size > 1:
                a[tuple((k + 1) % m for k, m in zip(at, shape))] = lo
            ds[v] = (ds.MASK.dims if v == "SLOPE" else ds.T2.dims, a)
            want[v] = kind in ("above", "below")
        for v in [v for v in BOUNDS if v in ds and v not in want]:
            want[v] = bool(ds[v].max() > BOUNDS[v][1] or ds[v].min() < BOUNDS[v][0])
        if any(bool(np.isnan(ds[v].values).all()) for v in want):
            return
        keep = ds.copy(deep=True)
        cfg = dict(input_netcdf=driver.write_input(ds), time_start=label(ds.time.values[0]), time_end=label(ds.time.values[-1]), restart=False, WRF=False, tile=False)
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            got, said, _ = attempt(cfg, 3600)
        expect(not isinstance(got, str), "refused", f"{got} {said}")
        text = out.getvalue()
        for v, bad in want.items():
            told = re.search(rf"(?m)^{v} \.\.\. MAX", text) is not None
            fine = re.search(rf"(?m)^{v} \.\.\. ok", text) is not None
            expect(told == bad and fine != bad, "range-not-reported" if bad else "range-reported", lambda: f"{v} {float(ds[v].min())} to {float(ds[v].max())}: {text}")
            expect(np.array_equal(got[v].values, keep[v].values, equal_nan=True), "range-changed", v)
        rec.hit("slope", "SLOPE" in case["vars"])
        rec.hit("missing values", any(g for _, g in case["vars"].values()))
        rec.nontrivial(any(want.values()) and not all(want.values()))

    @st.composite
    def case(draw):
        n = draw(st.integers(1, 30))
        dom = draw(grids.domain(4))
        off = st.tuples(st.integers(-3, n + 3), st.sampled_from([0, 0, 0, 1, 29, -1]))
        tile = None
        if draw(st.booleans()):
            tile = []
            for k in (dom["ny"], dom["nx"]):
                a = draw(st.integers(0, k - 1))
                tile += [a, draw(st.integers(a + 1, k + 1))]
        return {"dt": draw(st.sampled_from(DTS)), "n": n, "dom": dom, "met": draw(runs.forcing(2, 3)), "from": draw(off), "to": draw(off),
                "order": draw(st.one_of(st.just([]), st.lists(common.fl(0, 1), min_size=2, max_size=30))), "tile": tile,
                "restart": draw(st.sampled_from([None, None, "there", "missing"])),
                "start": draw(st.sampled_from(["2009-01-01T06:00", "2012-02-28T18:00", "2010-12-31T12:30"]))}

    return [Search("window", case(), oracle, "a proper part of the stored period", quick=250, thorough=10000, cap_quick=35.0)] + ([] if wrf else [
        Search("bounds", st.fixed_dictionaries({"dom": grids.domain(3), "met": runs.forcing(4, 4), "seed": st.integers(0, 2**31), "vars": st.dictionaries(
            st.sampled_from(sorted(BOUNDS)), st.tuples(st.sampled_from(["in", "above", "below", "edge"]), st.booleans()), min_size=1, max_size=10)}), bounds,
            "some variables in range, some not", quick=100, thorough=3000, cap_quick=12.0)])

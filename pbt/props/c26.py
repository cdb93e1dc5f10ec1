"""C26 stakes are compared with the simulation of the nearest grid cell."""
import math
import os

from hypothesis import strategies as st

from pbt import common, driver, grids, runs
from pbt.engine import Search, expect

ID = "C26"
LEVEL = "exploration"
_S = {"stake_evaluation": True, "full_field": False}
VARIANTS = {
    "snowheight": {"config": dict(_S, obs_type="snowheight"), "shards": {"thorough": 2}},
    "mb": {"config": dict(_S, obs_type="mb"), "shards": {"thorough": 2}},
}
ASSUMPTIONS = ["cluster replaced by a stand-in running the jobs in process; for the choice of the cell and the files, the point model is replaced as well",
               "stakes two of whose nearest cells are equally far (to 1e-7) are not judged"]
_calls = []


def ecef(lat, lon):
    """WGS84, on the ellipsoid, km."""
    a, f = 6378.137, 1 / 298.257223563
    e2 = f * (2 - f)
    la, lo = math.radians(lat), math.radians(lon)
    n = a / math.sqrt(1 - e2 * math.sin(la) ** 2)
    return n * math.cos(la) * math.cos(lo), n * math.cos(la) * math.sin(lo), n * (1 - e2) * math.sin(la)


def stand_in(DATA, indY, indX, GRID_RESTART=None, stake_names=None, stake_data=None):
    import numpy as np
    import pandas as pd
    from cosipy.cpkernel.io import IOClass
    n = DATA.sizes["time"]
    local = IOClass(DATA).create_local_restart_dataset()
    res = {k: np.zeros(n) for k in runs.SERIES}
    res.update({k: np.zeros((n, 3)) for k in runs.FIELDS})
    k = np.arange(len(stake_data.index))
    df = pd.DataFrame({"mb": -1000.0 - 10 * indY - indX - 0.25 * k, "snowheight": 1000.0 + 10 * indY + indX + 0.25 * k}, index=stake_data.index)
    stat = pd.Series({s: 100.0 * indY + 10 * indX + 0.5 for s in stake_names}, dtype=float)
    res.update(indY=indY, indX=indX, RESTART=local, stake_names=list(stake_names), stat=stat, df=df)
    return tuple(res[x] for x in runs.OUT)


def searches(variant):
    import numpy as np
    import pandas as pd
    from cosipy.cpkernel.cosipy_core import cosipy_core as real
    from cosipy.modules.evaluation import evaluate
    base = VARIANTS[variant]["config"]
    mod = driver.load()

    def label(t):
        return pd.Timestamp(t).strftime("%Y-%m-%dT%H:%M")

    def to_edge(stake, lat, lon, nudge):
        """The stake moved to where its two nearest cells are almost equally far."""
        def rank(la, lo):
            return sorted((math.dist(ecef(la, lo), ecef(float(lat[y, x]), float(lon[y, x]))), y, x) for y in range(lat.shape[0]) for x in range(lat.shape[1]))
        name, la, lo = stake
        (_, y1, x1), (_, y2, x2) = rank(la, lo)[:2]
        dy, dx = float(lat[y2, x2] - lat[y1, x1]), float(lon[y2, x2] - lon[y1, x1])
        if abs(dx) > 180:
            return stake
        a, b = 0.0, 1.0
        for _ in range(50):
            m = (a + b) / 2
            r = {(y, x): d for d, y, x in rank(la + m * dy, lo + m * dx)}
            if r[y1, x1] < r[y2, x2]:
                a = m
            else:
                b = m
        return name, la + (a + nudge) * dy, lo + (a + nudge) * dx

    def prepare(case, nsteps, wrf=False, mask_all=False):
        """Forcing and stake files.  -> (dataset, config, stakes, table of observations)"""
        dom = dict(case["dom"])
        if mask_all:
            dom["mask"] = [[1] * dom["nx"] for _ in range(dom["ny"])]
        steps = (runs.expand(case["met"]) * nsteps)[:nsteps]
        ds = grids.dataset(steps, dom)
        ny, nx = dom["ny"], dom["nx"]
        la = case["lat0"] + case["res"] * (np.arange(ny) if case["up"] else -np.arange(ny))
        lo = case["lon0"] + case["res"] * 1.3 * np.arange(nx)
        if case["lon0"] > 150:
            lo = np.where(lo > 180, lo - 360, lo)
        lon, lat = np.meshgrid(lo, la)
        if wrf:  # a grid turned against the meridians
            lat = lat + case["turn"] * case["res"] * np.arange(nx)[None, :]
            ds = ds.drop_vars(["lat", "lon"]).rename({"lat": "south_north", "lon": "west_east"})
            ds = ds.assign_coords(lat=(("south_north", "west_east"), lat), lon=(("south_north", "west_east"), lon))
        else:
            ds = ds.assign_coords(lat=la, lon=lo)
        stakes = []
        for k, (fy, fx) in enumerate(case["stakes"]):
            y, x = fy * (ny + 1) - 1, fx * (nx + 1) - 1
            sl = case["lon0"] + case["res"] * 1.3 * x
            if case["lon0"] > 150 and sl > 180:
                sl -= 360
            stakes.append((f"S{k:02d}", float(case["lat0"] + case["res"] * (y if case["up"] else -y) + (case["turn"] * case["res"] * x if wrf else 0)), float(sl)))
            if case["edge"] and ny * nx > 1:
                stakes[-1] = to_edge(stakes[-1], lat, lon, case["edge"][k % len(case["edge"])])
        # observations: some at model times, some between, some missing
        t = pd.to_datetime(ds.time.values)
        when = sorted({t[0] + pd.Timedelta(minutes=60 * int(a * (nsteps + 1)) + b) for a, b in case["when"]})
        obs = np.array([[case["obs"][(3 * i + 7 * j) % len(case["obs"])] for j in range(len(stakes))] for i in range(len(when))], dtype=float)
        table = pd.DataFrame(obs, index=pd.DatetimeIndex(when, name="TIMESTAMP"), columns=[s[0] for s in stakes])
        with open("stakes_loc.csv", "w") as f:
            f.write("id\tlon\tlat\televation\n" + "".join(f"{i}\t{b!r}\t{a!r}\t3000\n" for i, a, b in stakes))
        with open("stakes_data.csv", "w") as f:
            f.write("TIMESTAMP\t" + "\t".join(table.columns) + "\n")
            for i, row in table.iterrows():
                f.write(i.strftime("%Y-%m-%d %H:%M:%S") + "\t" + "\t".join("-9999" if math.isnan(v) else repr(v) for v in row) + "\n")
        cfg = dict(base, input_netcdf=driver.write_input(ds), time_start=label(ds.time.values[0]), time_end=label(ds.time.values[-1]), restart=False, WRF=wrf,
                   stakes_loc_file=os.path.abspath("stakes_loc.csv"), stakes_data_file=os.path.abspath("stakes_data.csv"), output_prefix="run")
        return ds, lat, lon, np.array(dom["mask"]) == 1, cfg, stakes, table

    def nearest(lat, lon, stake):
        d = sorted((math.dist(ecef(stake[1], stake[2]), ecef(float(lat[y, x]), float(lon[y, x]))), y, x) for y in range(lat.shape[0]) for x in range(lat.shape[1]))
        if len(d) > 1 and d[1][0] - d[0][0] < 1e-7:
            return None
        return d[0][1], d[0][2]

    def read(name):
        return pd.read_csv(os.path.join("data", "output", name), sep="\t", index_col=0)

    def choose(case, rec):
        driver.clean()
        ds, lat, lon, mask, cfg, stakes, table = prepare(case, 3, wrf=case["wrf"])
        if not mask.any():
            return
        mod.cosipy_core = stand_in
        try:
            driver.main(cfg, {"max_layers": 3}, order=case["order"])
        finally:
            mod.cosipy_core = real
        sim, stat = read("stake_simulations.csv"), read("stake_statistics.csv")
        expect(list(sim.columns) == [s[0] for s in stakes] and len(sim) == len(table), "table", lambda: f"{sim}")
        k = np.arange(len(table))
        used = set()
        for s in stakes:
            at = nearest(lat, lon, s)
            if at is None:
                continue
            y, x = at
            if not mask[y, x]:
                expect(s[0] not in stat.index, "stake-elsewhere", lambda: f"{s} belongs to the cell {at} outside the glacier, but has {stat.loc[s[0]]}")
                rec.hit("outside the glacier")
                continue
            expect(s[0] in stat.index, "stake-missing", lambda: f"{s} belongs to cell {at}; statistics {stat}")
            v = np.asarray(stat.loc[s[0]], dtype=float).ravel()
            v = v[~np.isnan(v)]
            expect(len(v) == 1 and abs(v[0] - (100.0 * y + 10 * x + 0.5)) < 1e-6, "wrong-cell", lambda: f"{s} at {at}, lat {lat.tolist()} lon {lon.tolist()}: {v}")
            want = (-1000.0 - 10 * y - x - 0.25 * k) if variant == "mb" else (1000.0 + 10 * y + x + 0.25 * k)
            expect(np.allclose(sim[s[0]].values, want, atol=0.0051), "simulated-series", lambda: f"{s}: {sim[s[0]].values}, expected {want}")
            used.add(at)
        rec.hit("several cells with stakes", len(used) > 1)
        rec.hit("across the date line", bool((np.abs(np.diff(lon, axis=1)) > 180).any()))
        rec.hit("stakes between cells", bool(case["edge"]))
        rec.hit("curvilinear grid", case["wrf"])
        rec.nontrivial(len(used) > 0 and lat.size > 1)

    def statistics(case, rec):
        """The root mean square error, over the times with both values."""
        n, m = len(case["sim"]), len(case["obs"])
        idx = pd.date_range("2010-01-01", periods=n, freq="D")
        names = [f"s{k}" for k in range(m)]
        df = pd.DataFrame({"mb": case["sim"], "snowheight": [None if v is None else 2 * v + 1 for v in case["sim"]]}, index=idx, dtype=float)
        data = pd.DataFrame({a: (o * n)[:n] for a, o in zip(names, case["obs"])}, index=idx, dtype=float)
        asked = [a for a, keep in zip(names, case["keep"] * m) if keep]
        before = (data.copy(), df.copy())
        got = evaluate(asked, data, df)
        expect(data.equals(before[0]) and df.equals(before[1]), "changed", "")
        expect(list(got.index) == asked, "stakes", f"{got}")
        sim = df[variant].values
        for a in asked:
            e = [(o - s) ** 2 for o, s in zip(data[a].values, sim) if not math.isnan(o) and not math.isnan(s)]
            if not e:
                expect(math.isnan(got[a]), "rmse-of-nothing", f"{got[a]}")
                continue
            want = math.sqrt(math.fsum(e) / len(e))
            expect(common.close(got[a], want, 1e-9, 1e-12), "rmse", lambda: f"{a}: {got[a]}, expected {want}")
            rec.hit("gaps", len(e) < n)
            rec.nontrivial(len(e) > 1)

    def whole(case, rec):
        """The point model's own record of a stake."""
        driver.clean()
        n = max(3, len(runs.expand(case["met"])))
        ds, lat, lon, mask, cfg, stakes, table = prepare(case, n, mask_all=True)
        driver.main(dict(cfg, stake_evaluation=True), None, order=case["order"])
        out = driver.load_nc([f for f in driver.files() if f.startswith("output/run")][0])
        sim, stat = read("stake_simulations.csv"), read("stake_statistics.csv")
        t = pd.to_datetime(ds.time.values)
        for s in stakes:
            at = nearest(lat, lon, s)
            if at is None:
                continue
            cell = out.isel(lat=at[0], lon=at[1])
            series = np.cumsum(cell.MB.values) if variant == "mb" else cell.SNOWHEIGHT.values
            want = [series[t.get_loc(w)] if w in t else math.nan for w in table.index]
            got = sim[s[0]].values
            expect(np.allclose(got, want, atol=0.0051, equal_nan=True), "simulated-series", lambda: f"{s}: {got}, expected {want}")
            e = [(a - b) ** 2 for a, b in zip(table[s[0]].values, want) if not math.isnan(a) and not math.isnan(b)]
            v = np.asarray(stat.loc[s[0]], dtype=float).ravel() if s[0] in stat.index else np.array([])
            v = v[~np.isnan(v)]
            if e:
                expect(len(v) == 1 and abs(v[0] - math.sqrt(sum(e) / len(e))) < 0.0051, "rmse", lambda: f"{s}: {v}, expected {math.sqrt(sum(e) / len(e))}")
                rec.hit("between model times", any(w not in t for w in table.index))
                rec.nontrivial(len(e) > 1)
            else:
                expect(len(v) == 0, "rmse-of-nothing", f"{v}")

    obs = st.lists(st.one_of(st.just(math.nan), common.fl(-5.0, 5.0)), min_size=2, max_size=6)
    place = {"dom": grids.domain(4), "lat0": st.one_of(common.fl(-75, 75), st.sampled_from([0.0, 46.8, -54.2])),
             "lon0": st.one_of(common.fl(-170, 150), st.sampled_from([179.9, 10.7, -0.05])), "res": st.sampled_from([0.003, 0.02, 0.1, 1.0]), "up": st.booleans(),
             "turn": st.sampled_from([0.3, 0.3, 0.8, 1.3]), "edge": st.one_of(st.just([]), st.lists(st.sampled_from([-0.01, 0.01, 0.003, -0.003, 0.03]), min_size=1, max_size=3)),
             "stakes": st.lists(st.tuples(common.fl(0, 1), common.fl(0, 1)), min_size=1, max_size=5), "obs": obs, "order": st.lists(common.fl(0, 1), max_size=9),
             "when": st.lists(st.tuples(common.fl(0, 1), st.sampled_from([0, 0, 0, 30])), min_size=1, max_size=6)}
    c1 = st.fixed_dictionaries({**place, "met": runs.forcing(1, 2), "wrf": st.booleans()})
    c3 = st.fixed_dictionaries({**place, "dom": grids.domain(2), "met": runs.forcing(4, 6)})
    val = st.one_of(st.none(), common.fl(-10, 10), common.fl(0, 1e-3))
    c2 = st.fixed_dictionaries({"sim": st.lists(val, min_size=1, max_size=8), "obs": st.lists(st.lists(val, min_size=1, max_size=8), min_size=1, max_size=4),
                                "keep": st.lists(st.booleans(), min_size=1, max_size=4)})
    return [Search("statistics", c2, statistics, "two or more comparable values", quick=200, thorough=5000, cap_quick=8.0),
            Search("choice", c1, choose, "a stake in a simulated cell of several", quick=100, thorough=4000, cap_quick=30.0),
            Search("series", c3, whole, "two or more comparable values", quick=25, thorough=1000, cap_quick=55.0)]

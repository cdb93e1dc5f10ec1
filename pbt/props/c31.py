"""C31 weather station data spread over the grid of a glacier."""
import datetime
import math

from hypothesis import strategies as st

from pbt import common, stations
from pbt.engine import Search, expect

ID = "C31"
LEVEL = "exploration"
VARIANTS = {"default": {"shards": {"thorough": 3}}}
ASSUMPTIONS = ["latitudes and longitudes ascending in the static file, as the static tool writes them", "time stamps in order, at equal steps",
               "the modelled radiation with look-up tables given in a file or built by the converter; cloud cover is then there",
               "gaps are only generated without aggregation"]
BASE = datetime.datetime(2009, 5, 1)
VARS = ["T2", "RH2", "U2", "G", "PRES"]


def searches(variant):
    import numpy as np
    import pandas as pd
    import xarray as xr
    from cosipy.modules.radCor import correctRadiation, solpars
    from cosipy.utilities.aws2cosipy import aws2cosipy as tool
    from pbt.props.c30 import all_sky

    def files(case):
        """Write the station's and the static file -> (frame, static)"""
        rng = np.random.default_rng(case["seed"])
        n, ny, nx = case["steps"], *case["shape"]
        start = BASE + datetime.timedelta(hours=case["first"])
        time = pd.date_range(start, periods=n, freq=pd.Timedelta(minutes=case["minutes"]))

        def f(lo, hi):
            return lo + (hi - lo) * rng.random(n)
        cold = 0.0 if case["in_K"] else 273.16
        have = VARS + case["extra"]
        data = {"T2": f(255, 285) - cold, "RH2": f(8, 92), "U2": f(0, 12), "G": np.maximum(0, f(-300, 1000)), "PRES": f(480, 620),
                "RRR": np.maximum(0, f(-1, 3)), "SNOWFALL": np.maximum(0, f(-0.02, 0.03)), "LWin": f(180, 330), "N": np.round(f(0, 1), 1)}
        frame = pd.DataFrame({v: data[v] for v in have}, index=time)
        for v, k in case["gaps"]:
            v = have[v % len(have)]
            frame.loc[frame.index[k % n], v] = np.nan
        if case["odd"]:
            frame.iloc[n // 2, 0] = case["odd"] - cold
        out = frame.rename(columns={v: stations.label(case, v) for v in have})
        out.insert(0, "TIMESTAMP", [t.strftime("%Y-%m-%d %H:%M") for t in time])
        out = out[["TIMESTAMP"] + [out.columns[1:][k] for k in rng.permutation(len(have))]]
        out.to_csv("in.csv", index=False, sep=case["delimiter"], na_rep="NAN")
        lat, lon = 30.4 + case["d"] * np.arange(ny), 90.3 + case["d"] * np.arange(nx)
        mask = rng.choice([1.0, 1.0, 0.0, np.nan, -9999.0] if case["holes"] else [1.0], (ny, nx))
        mask.flat[rng.integers(ny * nx)] = 1.0
        if case.get("core"):
            mask[:] = 0.0
            mask[4:6, 5:7] = 1.0

        def s(lo, hi):
            return lo + (hi - lo) * rng.random((ny, nx))
        static = xr.Dataset({"HGT": (("lat", "lon"), s(case["alt"] - 500, case["alt"] + 700)), "SLOPE": (("lat", "lon"), s(0, 40)),
                             "ASPECT": (("lat", "lon"), s(0, 360)), "MASK": (("lat", "lon"), mask)}, coords={"lat": lat, "lon": lon})
        static.to_netcdf("static.nc")
        return frame, static

    def clip_rh(x):
        return np.clip(x, 0.0, 100.0)

    def oracle(case, rec):
        with stations.scratch():
            frame, static = files(case)
            alt = case["alt"]
            doc = stations.settings(case)
            flags = ["-i", "in.csv", "-s", "static.nc"]
            if case["window"]:
                a, b = sorted(w % case["steps"] for w in case["window"])
                flags += ["-b", str(frame.index[a]), "-e", str(frame.index[b])]
                frame = frame.iloc[a:b + 1]
            cut = case["cut"]
            if cut:
                y0, y1, x0, x1 = (min(c, m) for c, m in zip(cut, (len(static.lat) - 1,) * 2 + (len(static.lon) - 1,) * 2))
                y0, y1, x0, x1 = min(y0, y1), max(y0, y1), min(x0, x1), max(x0, x1)
                d = case["d"] / 3
                flags += ["--yl", repr(float(static.lat[y0]) - d), "--yu", repr(float(static.lat[y1]) + d), "--xl", repr(float(static.lon[x0]) - d),
                          "--xr", repr(float(static.lon[x1]) + d)]
                static = static.isel(lat=slice(y0, y1 + 1), lon=slice(x0, x1 + 1))
            ny, nx = static.HGT.shape
            if case["module"] == "Moelg2009":
                # the tables run north to south
                step, rng = case["radiation"]["dtstep"], np.random.default_rng(case["seed"] + 7)
                per = 86400 // step
                shade = rng.choice([0.0, 1.0, 1.0], (366 * per, ny, nx))
                svf = 0.5 + 0.5 * rng.random((ny, nx))
                xr.Dataset({"SHADING": (("time", "lat", "lon"), shade), "SVF": (("lat", "lon"), svf)}).to_netcdf("lut.nc")
            out, err = stations.convert(tool, flags, doc)
            if case["agg"]:
                how = {v: "sum" if v in ("RRR", "SNOWFALL") else "mean" for v in frame}
                frame = frame.resample(case["agg"]).agg(how)
        glacier = static.MASK.values == 1
        temp = frame.T2.values + (0.0 if case["in_K"] else 273.16)
        # what has to be refused
        if "LWin" not in frame and "N" not in frame:
            expect(err is not None and out is None, "no-longwave-accepted", "")
            rec.hit("refused: neither radiation nor clouds")
            return
        if np.nanmax(temp) > 373.16 or np.nanmin(temp) < 173.16:
            expect(err is not None and out is None, "temperature-accepted", f"{np.nanmin(temp)} to {np.nanmax(temp)} K")
            rec.hit("refused: temperature")
            return
        if frame.isnull().any().any() and glacier.any():
            expect(err is not None and out is None, "gap-accepted", f"{frame.isnull().sum().to_dict()}")
            rec.hit("refused: gap")
            return
        expect(err is None, "refused", f"{err}")
        y, x = ("south_north", "west_east") if case["wrf"] else ("lat", "lon")
        t = len(frame)
        expect(dict(out.sizes) == {"time": t, y: ny, x: nx}, "size", f"{dict(out.sizes)}, expected {t} x {ny} x {nx}")
        expect((out.time.values == frame.index.values).all(), "time", f"{out.time.values[:3]}")
        lat, lon = np.meshgrid(static.lat.values, static.lon.values, indexing="ij")
        if case["wrf"]:
            expect(np.allclose(out.lat.values, lat, atol=1e-9) and np.allclose(out.lon.values, lon, atol=1e-9), "coordinates", "")
        else:
            expect((out.lat.values == static.lat.values).all() and (out.lon.values == static.lon.values).all(), "coordinates", "")
        for v in ("HGT", "SLOPE", "ASPECT", "MASK"):
            want = static[v].values - (180.0 if v == "ASPECT" else 0.0)
            expect(np.allclose(out[v].values, np.where(want == -9999.0, np.nan, want), equal_nan=True)
                   or np.allclose(out[v].values, want, equal_nan=True), f"static:{v}", "")
        expect(sorted(set(out.data_vars) - {"HGT", "SLOPE", "ASPECT", "MASK"}) == sorted(frame.columns), "variables", f"{sorted(out.data_vars)}")
        dz = static.HGT.values - alt
        lt, lrh, lr, ls = case["lapse"]
        for k in range(t):
            row = frame.iloc[k]
            want = {"T2": temp[k] + dz * lt, "RH2": clip_rh(row.RH2 + dz * lrh), "U2": row.U2 + 0 * dz,
                    "PRES": row.PRES * ((1 - 0.0065 * static.HGT.values / 288.15) / (1 - 0.0065 * alt / 288.15)) ** 5.255}
            for v, lapse in (("RRR", lr), ("SNOWFALL", ls)):
                if v in row:
                    want[v] = np.maximum(row[v] + dz * lapse, 0.0)
            for v in ("LWin", "N"):
                if v in row:
                    want[v] = row[v] + 0 * dz
            for v, w in want.items():
                g = out[v].values[k]
                tol = 0.11 if v == "RH2" else 0
                expect(np.allclose(g, w, rtol=1e-9, atol=1e-9 + tol, equal_nan=True), f"field:{v}", f"step {k}: {g.ravel()[:3]} expected {w.ravel()[:3]}")
                if v == "RH2":
                    expect((np.isnan(g) | (g >= 0) & (g <= 100)).all() and np.allclose(g[w > 0], w[w > 0], rtol=1e-9), "humidity-bounds", f"{g.ravel()[:3]}")
            g = out.G.values[k]
            when = frame.index[k]
            if case["module"] == "Moelg2009":
                sp, tc = case_tables(case["station"]["stationLat"])
                step = case["radiation"]["dtstep"]
                doy = when.dayofyear
                slot = (doy - 1) * (86400 // step) + when.hour * 3600 // step
                for i in range(ny):
                    for j in range(nx):
                        if not glacier[i, j]:
                            continue
                        w, up = all_sky(sp[doy - 1, 3], sp[doy - 1, 2], tc[doy - 1, 3], when.hour, case["station"]["stationLat"],
                                        want["T2"][i, j], want["PRES"][i, j], row.RH2 + dz[i, j] * lrh, row.N, static.HGT.values[i, j],
                                        static.SLOPE.values[i, j], static.ASPECT.values[i, j], shade[slot, ny - 1 - i, j], svf[ny - 1 - i, j],
                                        step, case["radiation"]["tcart"])
                        if abs(up - 0.01) > 1e-6:
                            expect(common.close(g[i, j], w, 1e-7, 1e-9), "field:G-modelled", f"{when} cell {i},{j}: {g[i, j]} expected {w}")
                        rec.hit("modelled sun", up > 0.01)
            elif case["module"] == "Wohlfahrt2016":
                rad = case["radiation"]
                for i in range(ny):
                    for j in range(nx):
                        w = np.nan
                        if glacier[i, j]:
                            w = max(0.0, correctRadiation(lat[i, j], lon[i, j], rad["timezone_lon"], when.dayofyear, when.hour + when.minute / 60,
                                                          static.SLOPE.values[i, j], static.ASPECT.values[i, j] - 180.0, row.G, rad["zeni_thld"]))
                        expect(common.close(g[i, j], w, 1e-9, 1e-9), "field:G-corrected", f"{when} cell {i},{j}: {g[i, j]} expected {w}")
            else:
                expect(np.allclose(g, np.where(glacier, row.G, np.nan), rtol=1e-12, atol=1e-12, equal_nan=True), "field:G", f"step {k}")
        rec.hit(f"module {case['module']}")
        rec.hit("aggregated", bool(case["agg"]))
        rec.hit("cut in time", bool(case["window"]))
        rec.hit("cut in space", bool(cut))
        rec.hit("WRF layout", case["wrf"])
        rec.hit("humidity bounded", bool(((frame.RH2.values[:, None] + dz.ravel() * lrh > 100) | (frame.RH2.values[:, None] + dz.ravel() * lrh < 0)).any()))
        rec.nontrivial(t >= 3 and ny * nx >= 4 and any(case["lapse"]))

    kept = {}

    def case_tables(lat):
        if lat not in kept:
            kept[lat] = solpars(lat)
        return kept[lat]

    def rebuild(case, rec):
        """Tables built by the converter, and read back from the file it writes."""
        with stations.scratch():
            files(case)
            flags = ["-i", "in.csv", "-s", "static.nc"]
            a, err = stations.convert(tool, flags, stations.settings(dict(case, radiation=dict(case["radiation"], LUT=False))))
            expect(err is None, "tables-refused", f"{err}")
            import os
            os.remove("out.nc")
            b, err = stations.convert(tool, flags, stations.settings(dict(case, radiation=dict(case["radiation"], LUT=True))))
            expect(err is None and a.equals(b), "tables-reread", "other radiation with the stored tables")
        rec.nontrivial(float(a.G.max()) > 1)

    @st.composite
    def cases(draw, moelg_only=False):
        module = "Moelg2009" if moelg_only else draw(st.sampled_from(["none", "Wohlfahrt2016", "Moelg2009"]))
        moelg = module == "Moelg2009"
        extra = draw(st.lists(st.sampled_from(["RRR", "SNOWFALL", "LWin", "N"]), min_size=1, max_size=4, unique=True))
        if moelg and "N" not in extra:
            extra.append("N")
        if draw(st.sampled_from([True] * 14 + [False])) and "N" not in extra and "LWin" not in extra:
            extra.append("LWin")
        step = draw(st.sampled_from([10800, 3600]))
        minutes = step // 60 if moelg else draw(st.sampled_from([60, 30, 10, 180]))
        agg = None if moelg else draw(st.sampled_from([None, None, "3h", "1h", "1D"]))
        gaps = [] if agg or draw(st.sampled_from([True] * 6 + [False])) else draw(st.lists(st.tuples(st.integers(0, 8), st.integers(0, 40)).map(list), min_size=1, max_size=2))
        coords = {"aggregate": bool(agg), "aggregation_step": agg or "3h"}
        lo = -0.005 if moelg else -0.12
        return dict(
            module=module, extra=extra, minutes=minutes, agg=agg, gaps=[] if moelg_only else gaps, coords=coords,
            steps=8 if moelg_only else draw(st.one_of(st.integers(3, 14), st.integers(1, 14))), seed=draw(st.integers(0, 10**6)), first=draw(st.integers(0, 47)) * (3 if moelg else 1),
            shape=[11, 11] if moelg_only else [draw(st.sampled_from([2, 3, 1, 4])), draw(st.sampled_from([3, 2, 4, 1]))], d=draw(st.sampled_from([0.003, 0.01])),
            holes=False if moelg_only else draw(st.booleans()), in_K=draw(st.booleans()), wrf=draw(st.booleans()),
            odd=None if moelg_only else draw(st.sampled_from([None] * 16 + [373.5, 173.0, 172.0, 374.0])),
            delimiter=draw(st.sampled_from([",", ";"])),
            names=draw(st.sampled_from([{}, {"T2": "AirTC_Avg", "RH2": "RH", "G": "SWin", "LWin": "LW"}, {"U2": "WS", "PRES": "BP_mbar", "N": "cloud", "RRR": "prec",
                                                                                                    "SNOWFALL": "snow"}])),
            radiation={"radiationModule": module, "timezone_lon": draw(st.sampled_from([90.0, 75.0, 0.0])), "zeni_thld": draw(st.sampled_from([80.0, 85.0])),
                       "dtstep": step, "tcart": draw(st.sampled_from([0, 26, -10])), "LUT": True, "LUT_path": "lut.nc"},
            alt=draw(common.fl(600.0, 5500.0)), station={"stationLat": draw(st.sampled_from([30.4, -35.0, 47.0]))},
            lapse=[draw(st.sampled_from([0.0, -0.006, -0.0098, 0.002])), draw(st.sampled_from([0.0, 0.01, 0.1, lo])) if not moelg else draw(st.sampled_from([0.0, lo])),
                   draw(st.sampled_from([0.0, 0.0002, 0.004, -0.001])), draw(st.sampled_from([0.0, 0.00001, -0.0001]))],
            window=None if draw(st.integers(0, 2)) else [draw(st.integers(0, 40)), draw(st.integers(0, 40))],
            cut=None if draw(st.integers(0, 2)) else [draw(st.integers(0, 3)) for _ in range(4)])
    whole = cases(moelg_only=True).map(lambda c: dict(c, window=None, cut=None, core=True, radiation=dict(c["radiation"], dtstep=10800), minutes=180))
    return [Search("grid", cases(), oracle, "at least 3 steps over 4 cells with a lapse rate", quick=400, thorough=15000, cap_quick=35.0),
            Search("tables", whole, rebuild, "the sun shines", quick=2, thorough=60, cap_quick=10.0)]

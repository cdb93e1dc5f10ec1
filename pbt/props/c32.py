"""C32 weather station data at a point."""
import datetime

from hypothesis import strategies as st

from pbt import common, stations
from pbt.engine import Search, expect

ID = "C32"
LEVEL = "exploration"
VARIANTS = {"default": {"shards": {"thorough": 2}}}
ASSUMPTIONS = ["time stamps in order, at equal steps up to an hour; single values and whole rows may be missing",
               "with a static file: the layout by latitude and longitude"]
BASE = datetime.datetime(2009, 5, 1)
VARS = ["T2", "RH2", "U2", "G", "PRES", "RRR"]


def searches(variant):
    import math

    import numpy as np
    import pandas as pd
    import xarray as xr
    from cosipy.utilities.aws2cosipy import aws2cosipy as tool

    def oracle(case, rec):
        rng = np.random.default_rng(case["seed"])
        n = case["steps"]
        time = pd.date_range(BASE + datetime.timedelta(minutes=10 * case["first"]), periods=n, freq=pd.Timedelta(minutes=case["minutes"]))

        def f(lo, hi):
            return lo + (hi - lo) * rng.random(n)
        cold = 0.0 if case["in_K"] else 273.16
        have = VARS + case["extra"]
        data = {"T2": f(255, 285) - cold, "RH2": f(8, 92), "U2": f(0, 12), "G": np.maximum(0, f(-300, 1000)), "PRES": f(480, 620),
                "RRR": np.maximum(0, f(-1, 3)), "SNOWFALL": np.maximum(0, f(-0.02, 0.03)), "LWin": f(180, 330), "N": np.round(f(0, 1), 1)}
        frame = pd.DataFrame({v: data[v] for v in have}, index=time)
        for v, k in case["gaps"]:
            frame.iloc[k % n, v % len(have)] = np.nan
        if case["odd"]:
            frame.iloc[n // 2, 0] = case["odd"] - cold
        gone = sorted({k % n for k in case["gone"]} - {0, n - 1})
        frame = frame.drop(frame.index[gone])
        points = case["points"]
        with stations.scratch():
            out = frame.rename(columns={v: stations.label(case, v) for v in have})
            out.insert(0, "TIMESTAMP", [t.strftime("%Y-%m-%d %H:%M") for t in frame.index])
            out.to_csv("in.csv", index=False, sep=case["delimiter"], na_rep="NAN")
            flags = ["-i", "in.csv"]
            static = None
            if case["static"]:
                ny, nx = case["static"]
                lat = points["plat"] + case["off"][0] + 0.003 * (np.arange(ny) - ny // 2)
                lon = points["plon"] + case["off"][1] + 0.003 * (np.arange(nx) - nx // 2)
                s = lambda hi: rng.random((ny, nx)) * hi
                static = xr.Dataset({"HGT": (("lat", "lon"), s(3000)), "SLOPE": (("lat", "lon"), s(40)), "ASPECT": (("lat", "lon"), s(360)),
                                     "MASK": (("lat", "lon"), np.ones((ny, nx)))}, coords={"lat": lat, "lon": lon})
                static.to_netcdf("static.nc")
                flags += ["-s", "static.nc"]
            # the model: gaps take the last value, then hours are put together
            frame = frame.ffill()
            hours = {}
            for stamp, row in frame.iterrows():
                hours.setdefault(stamp.floor("h"), []).append(row)
            index = pd.date_range(min(hours), max(hours), freq="h")
            want = pd.DataFrame(index=index, columns=list(frame.columns), dtype=float)
            for h, rows in hours.items():
                for v in frame:
                    good = [r[v] for r in rows if not math.isnan(r[v])]
                    if good:
                        want.loc[h, v] = math.fsum(good) if v in ("RRR", "SNOWFALL") else math.fsum(good) / len(good)
            want = want.dropna(axis=1, how="all")
            if case["window"]:
                a, b = sorted(w % len(index) for w in case["window"])
                flags += ["-b", str(index[a]), "-e", str(index[b])]
                want = want.iloc[a:b + 1]
            got, err = stations.convert(tool, flags, stations.settings(case))
        temp = want.T2.values + (0.0 if case["in_K"] else 273.16) + (points["hgt"] - case["alt"]) * case["lapse"][0]
        if "LWin" not in want and "N" not in want:
            expect(err is not None and got is None, "no-longwave-accepted", "")
            rec.hit("refused: neither radiation nor clouds")
            return
        if np.nanmax(temp) > 373.16 or np.nanmin(temp) < 173.16:
            expect(err is not None and got is None, "temperature-accepted", f"{np.nanmin(temp)} to {np.nanmax(temp)} K")
            rec.hit("refused: temperature")
            return
        if want.isnull().any().any():
            expect(err is not None and got is None, "gap-accepted", f"{want.isnull().sum().to_dict()}")
            rec.hit("refused: gap")
            return
        expect(err is None, "refused", f"{err}")
        y, x = ("south_north", "west_east") if case["wrf"] else ("lat", "lon")
        expect(dict(got.sizes) == {"time": len(want), y: 1, x: 1}, "size", f"{dict(got.sizes)}")
        expect((got.time.values == want.index.values).all(), "time", f"{got.time.values[:3]} expected {want.index.values[:3]}")
        lat, lon = float(got.lat.values.ravel()[0]), float(got.lon.values.ravel()[0])
        near = {k: float(static[k].values[np.abs(static[k].values - points[p]).argmin()]) for k, p in (("lat", "plat"), ("lon", "plon"))} \
            if static is not None else {}
        expect(abs(lat - points["plat"]) < 1e-9 or abs(lat - near.get("lat", lat + 1)) < 1e-9, "latitude", f"{lat}")
        expect(abs(lon - points["plon"]) < 1e-9 or abs(lon - near.get("lon", lon + 1)) < 1e-9, "longitude", f"{lon}")
        cell = {"SLOPE": 0.0, "ASPECT": 0.0, "MASK": 1.0}
        if static is not None:
            i = np.abs(static.lat.values - points["plat"]).argmin()
            j = np.abs(static.lon.values - points["plon"]).argmin()
            cell = {v: float(static[v].values[i, j]) - (180.0 if v == "ASPECT" else 0.0) for v in cell}
        cell["HGT"] = points["hgt"]
        for v, w in cell.items():
            expect(got[v].dims == (y, x) and common.close(float(got[v].values[0, 0]), w, 1e-9, 1e-9), f"static:{v}", f"{got[v].values} expected {w}")
        expect(sorted(set(got.data_vars) - set(cell)) == sorted(want.columns), "variables", f"{sorted(got.data_vars)}")
        dz = points["hgt"] - case["alt"]
        lt, lrh, lr, ls = case["lapse"]
        for v in want:
            w = want[v].values
            if v == "T2":
                w = temp
            elif v == "RH2":
                w = w + dz * lrh
            elif v in ("RRR", "SNOWFALL"):
                w = np.maximum(w + dz * (lr if v == "RRR" else ls), 0.0)
            elif v == "PRES":
                w = w * ((1 - 0.0065 * points["hgt"] / 288.15) / (1 - 0.0065 * case["alt"] / 288.15)) ** 5.255
            g = got[v].values
            expect(got[v].dims == ("time", y, x), "dimensions", f"{v}: {got[v].dims}")
            g = g[:, 0, 0]
            if v == "RH2":
                expect(((g >= 0) & (g <= 100)).all(), "humidity-bounds", f"{g[:3]}")
                expect(np.allclose(g[w > 0], np.minimum(w, 100)[w > 0], rtol=1e-9) and (g[w <= 0] <= 0.11).all(), "field:RH2", f"{g[:3]} expected {w[:3]}")
            else:
                expect(np.allclose(g, w, rtol=1e-9, atol=1e-9), f"field:{v}", f"{g[:3]} expected {w[:3]}")
        rec.hit("static file", static is not None)
        rec.hit("WRF layout", case["wrf"])
        rec.hit("gaps filled", bool(case["gaps"]))
        rec.hit("rows missing", bool(gone))
        rec.hit("same height", dz == 0)
        rec.hit("window", bool(case["window"]))
        rec.nontrivial(len(want) >= 3 and dz != 0 and case["minutes"] < 60)

    @st.composite
    def cases(draw):
        extra = draw(st.sampled_from([["LWin"], ["N"], ["LWin", "N"], ["LWin", "SNOWFALL"], ["N", "SNOWFALL"], ["SNOWFALL"], []]))
        wrf = draw(st.booleans())
        pts = {"point_model": True, "plon": draw(common.fl(-120, 120)), "plat": draw(common.fl(-60, 60)), "hgt": draw(common.fl(500, 6000))}
        alt = draw(st.sampled_from([pts["hgt"], pts["hgt"] - 300.0, max(0.0, pts["hgt"] - 1500.0), pts["hgt"] + 200.0]))
        return dict(
            extra=extra, wrf=wrf, points=pts, alt=alt, seed=draw(st.integers(0, 10**6)), steps=draw(st.one_of(st.integers(12, 40), st.integers(3, 40))),
            minutes=draw(st.sampled_from([30, 10, 60, 20])), first=draw(st.integers(0, 100)), in_K=draw(st.booleans()),
            gaps=draw(st.sampled_from([0, 0, 1, 1])) * [[draw(st.integers(0, 8)), draw(st.integers(0, 40))] for _ in range(draw(st.integers(1, 3)))],
            gone=draw(st.sampled_from([[], [], [3], [5, 6], [2, 3, 4, 5, 6, 7]])), odd=draw(st.sampled_from([None] * 14 + [450.0, 90.0])),
            delimiter=draw(st.sampled_from([",", ";"])),
            names=draw(st.sampled_from([{}, {"T2": "AirTC_Avg", "RH2": "RH", "G": "SWin", "LWin": "LW"},
                                        {"U2": "WS", "PRES": "BP_mbar", "N": "cloud", "RRR": "prec", "SNOWFALL": "snow"}])),
            lapse=[draw(st.sampled_from([-0.006, 0.0, -0.0098, 0.002])), draw(st.sampled_from([0.0, 0.01, 0.1, -0.12])),
                   draw(st.sampled_from([0.0, 0.0002, 0.004, -0.001])), draw(st.sampled_from([0.0, 0.00001, -0.0001]))],
            static=None if wrf else draw(st.sampled_from([None, [1, 1], [3, 4], [5, 2]])), off=[draw(common.fl(-0.004, 0.004)), draw(common.fl(-0.004, 0.004))],
            window=draw(st.sampled_from([None, None, [1, 4], [0, 2], [2, 2], [3, 30]])))
    return [Search("point", cases(), oracle, "at least 3 hours put together from finer data, at another height", quick=400, thorough=15000,
                   cap_quick=35.0)]
